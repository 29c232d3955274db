"""bfs on a terminal: prompts answered from a script."""
import os, pty, select, struct, termios, threading, tty, fcntl

def run_tty(c, args, answers, stdout=None, **kw):
    """Run bfs with standard input and error on a terminal.  answers: lines typed ahead, then end of file.
    Returns the result; .err is what appeared on the terminal."""
    m, s = os.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    a[3] &= ~(termios.ECHO | termios.ISIG)
    termios.tcsetattr(s, termios.TCSANOW, a)
    fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
    os.fchmod(s, 0o666)
    os.write(m, b"".join(x + b"\n" for x in answers) + b"\x04" * 4)
    data, stop = [], threading.Event()
    def pump():
        while True:
            r, _, _ = select.select([m], [], [], .02)
            if r:
                try: d = os.read(m, 65536)
                except OSError: return
                if not d: return
                data.append(d)
            elif stop.is_set(): return
    t = threading.Thread(target=pump)
    t.start()
    env = dict(kw.pop("env", {}) or {})
    env.setdefault("TERM", "dumb")
    try: r = c.bfs(args, stdin=s, stderr=s, env=env, **kw)
    finally:
        stop.set(); t.join()
        os.close(s); os.close(m)
    r.err = b"".join(data)
    return r

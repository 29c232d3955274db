"""Python side of shim.c."""
import os, struct

class Shim:
    def __init__(self, env_obj, alloc=False):
        self.so = env_obj.cc("shim%s.so" % ("-alloc" if alloc else ""), ["shim.c"], (["-DVP_ALLOC"] if alloc else []) + ["-ldl", "-lpthread"], shared=True)

def newlog(path, size=4 << 20):
    with open(path, "wb") as f:
        f.truncate(size)
    os.chmod(path, 0o666)
    return path

def readlog(path):
    """List of (op, [args])."""
    with open(path, "rb") as f:
        h = f.read(16)
        off, size = struct.unpack("QQ", h)
        if not size:
            return []
        data = f.read(min(off, size) - 16)
    return [l.split(" ") for l in data.decode("latin1").split("\n")[:-1]]

def unhex(s):
    return b"" if s in ("-", "") else bytes.fromhex(s)

def fail(*specs):
    """specs: (op, nth, errno) or (op, 'n/period', errno) or (op, b'name', errno)"""
    out = []
    for op, which, err in specs:
        if isinstance(which, bytes):
            out.append("%s=%s:%d" % (op, which.hex(), err))
        else:
            out.append("%s:%s:%d" % (op, which, err))
    return ",".join(out)

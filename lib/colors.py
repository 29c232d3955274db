"""Model of colored output and of the escaping of names."""
from trav import *
import unicodedata

DEFAULTS = {"rs": b"0", "lc": b"\x1b[", "rc": b"m", "ec": None, "no": None, "fi": b"", "mh": None, "ex": b"01;32", "ca": None, "sg": b"30;43", "su": b"37;41",
            "di": b"01;34", "st": b"37;44", "ow": b"34;42", "tw": b"30;42", "ln": b"01;36", "or": None, "mi": None, "bd": b"01;33", "cd": b"01;33",
            "do": b"01;35", "pi": b"33", "so": b"01;35"}
ANSI = {ord("a"): 7, ord("b"): 8, ord("e"): 27, ord("E"): 27, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9, ord("v"): 11, ord("'"): 39, ord("\\"): 92, ord('"'): 34, ord("?"): 63}

def ansi_c(data, i):
    """Decode the body of $'...' starting after the opening quote; (bytes, index after the closing quote) or None."""
    out = bytearray()
    while i < len(data):
        b = data[i]
        if b == 39: return bytes(out), i + 1
        if b == 92:
            i += 1
            if i >= len(data): return None
            b = data[i]
            if b in ANSI: out.append(ANSI[b]); i += 1
            elif b == ord("x"):
                m = re.compile(rb"[0-9a-fA-F]{1,2}").match(data, i + 1)
                if not m: return None
                out.append(int(m.group(), 16)); i = m.end()
            elif 48 <= b <= 55:
                m = re.compile(rb"[0-7]{1,3}").match(data, i)
                out.append(int(m.group(), 8) & 255); i = m.end()
            else: return None
        else: out.append(b); i += 1
    return None

def iswprint(ch): return libc.iswprint(ord(ch)) != 0
def iswspace(ch): return libc.iswspace(ord(ch)) != 0

def safe_text(data, utf8, where):
    """No control sequences: every character is printable or white space."""
    if utf8:
        try: s = data.decode("utf8")
        except UnicodeDecodeError: return "undecodable bytes"
    else:
        try: s = data.decode("ascii")
        except UnicodeDecodeError: return "undecodable bytes"
    for ch in s:
        if not (iswprint(ch) or iswspace(ch)): return "control character %r" % ch
    return None

def denotes(text, path):
    """Can the displayed text (raw runs and $'...' runs) be read as exactly this path?"""
    seen = set()
    stack = [(0, 0)]
    while stack:
        i, j = stack.pop()
        if (i, j) in seen: continue
        seen.add((i, j))
        if i == len(text):
            if j == len(path): return True
            continue
        if text.startswith(b"$'", i):
            r = ansi_c(text, i + 2)
            if r and path.startswith(r[0], j): stack.append((r[1], j + len(r[0])))
        if j < len(path) and text[i] == path[j]: stack.append((i + 1, j + 1))
    return False

class Scheme:
    """A parsed color configuration."""
    def __init__(self):
        self.c = dict(DEFAULTS)
        self.ext = []       # (suffix, code) in order of definition
    def finish(self):
        self.lc, self.rc = self.c["lc"], self.c["rc"]
        self.ec = self.c["ec"] if self.c["ec"] is not None else self.lc + self.c["rs"] + self.rc
        self.target = self.c["ln"] == b"target"
        if self.target: self.c["ln"] = b""
        # smart case: a suffix given in different cases with different colors is case-sensitive
        low = {}
        for s, v in self.ext: low.setdefault(lower(s), {})[s] = v
        self.exact = {k for k, d in low.items() if len(set(d.values())) > 1}
        return self
    def on(self, k): return self.c[k]
    def ext_color(self, name):
        best = None
        for s, v in self.ext:
            if lower(s) in self.exact: hit = name.endswith(s)
            else: hit = lower(name).endswith(lower(s))
            if hit: best = v
        return best
    def norm(self, v):
        """A color of length 0 means 'no'."""
        return self.c["no"] if v is not None and v == b"" else v
    def missing(self):
        return self.c["mi"] if self.c["mi"] is not None else self.c["or"]
    def file(self, st, name, broken):
        """Color of a file of the given (l)stat result; broken: is it a dangling link?"""
        c, m = self.c, st.st_mode
        t = typ(st)
        if t == "f":
            v = None
            if c["su"] is not None and m & 0o4000: v = c["su"]
            elif c["sg"] is not None and m & 0o2000: v = c["sg"]
            elif c["ex"] is not None and m & 0o111: v = c["ex"]
            elif c["mh"] is not None and st.st_nlink > 1: v = c["mh"]
            if v is None: v = self.ext_color(name)
            if v is None: v = c["fi"]
        elif t == "d":
            if c["tw"] is not None and m & 0o1002 == 0o1002: v = c["tw"]
            elif c["ow"] is not None and m & 2: v = c["ow"]
            elif c["st"] is not None and m & 0o1000: v = c["st"]
            else: v = c["di"]
        elif t == "l": v = c["or"] if c["or"] is not None and broken else c["ln"]
        else: v = c[{"b": "bd", "c": "cd", "p": "pi", "s": "so"}[t]]
        return self.norm(v)

def lower(b): return bytes(x + 32 if 65 <= x <= 90 else x for x in b)

def parse_colored(data, sc):
    """[(byte, color)], decoding $'...' runs."""
    raw = []
    i, cur = 0, None
    while i < len(data):
        if sc.ec and data.startswith(sc.ec, i): cur = None; i += len(sc.ec)
        elif data.startswith(sc.lc, i):
            j = data.find(sc.rc, i + len(sc.lc))
            if j < 0: return None
            code = data[i + len(sc.lc):j]
            cur = None if code == sc.c["rs"] else code
            i = j + len(sc.rc)
        else: raw.append((data[i], cur)); i += 1
    text = bytes(b for b, _ in raw)
    out, i = [], 0
    while i < len(text):
        if text.startswith(b"$'", i):
            r = ansi_c(text, i + 2)
            if r:
                out += [(b, raw[i][1]) for b in r[0]]; i = r[1]
                continue
        out.append(raw[i]); i += 1
    return out

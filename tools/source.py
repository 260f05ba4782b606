"""The repository's source as tokens, without comments and test modules: what changed since the contracts were written,
and which numbers are new.  Only directs the bounded search (how long, which sizes); decides nothing."""
import collections, glob, hashlib, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|(?P<t>b?"(?:\\.|[^"\\])*"|b?'(?:\\.|[^'\\])'|\d[\w]*(?:\.\d[\w]*)?|\w+|[^\s\w])''', re.S)


def tokens(path):
    t = [m.group("t") for m in TOKEN.finditer(open(path, errors="replace").read()) if m.group("t")]
    out, i = [], 0
    while i < len(t):
        if t[i:i + 8] == ["#", "[", "cfg", "(", "test", ")", "]", "mod"]:
            i = t.index("{", i)
            d = 0
            while i < len(t):
                d += (t[i] == "{") - (t[i] == "}")
                i += 1
                if d == 0:
                    break
            continue
        out.append(t[i])
        i += 1
    return out


def number(x):
    m = re.fullmatch(r"(0x[0-9a-fA-F_]+?|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?", x)
    if not m:
        return None
    v = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group(1).replace("_", "")) else int(m.group(1).replace("_", ""))
    return v if v < 1 << 64 else None


def state(repo):
    h, c = {}, collections.Counter()
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        t = tokens(f)
        h[os.path.relpath(f, repo)] = hashlib.sha256("\0".join(t).encode()).hexdigest()
        c.update(v for v in map(number, t) if v is not None)
    return {"files": h, "numbers": {str(k): n for k, n in sorted(c.items())}}


def changes(repo):
    """(has the source changed?, numbers that occur more often than they did)"""
    try:
        base = json.load(open(os.path.join(V, "spec", "source.json")))
        now = state(repo)
    except (OSError, ValueError):
        return True, []
    new = [int(k) for k, n in now["numbers"].items() if n > base["numbers"].get(k, 0)]
    return now["files"] != base["files"], new[:12]

"""Wire fields consumed from an input or emitted to an output.

('num', nbytes, value, endian)     integer
('flt', nbytes, value, endian)     float, value is a Sym or bits
('fstr', opt)                      string; opt = ('some', term) | ('none',) | ('opt', key)
('bytes', n, term)                 raw bytes
('nt', key, hdr, info)             a nested value read by a recursive reader
('ntw', key, hdr)                  a nested value written by a recursive writer
('loop', L, alts)                  alts = ((label, facts, fields), ...)
('phi', L, slot)                   whatever came before the current loop iteration
('zlib', id, fields)               compressed data
"""
from vals import *
from state import State, mk_sum, str_size


def size(fields):
    n = 0
    for f in fields:
        n = add(n, field_size(f))
    return n


def field_size(f):
    k = f[0]
    if k in ("num", "flt"):
        return f[1]
    if k == "fstr":
        return opt_size(f[1])
    if k == "bytes":
        return f[1]
    if k == "nt":
        return atom(("nt", f[1], f[2]))
    if k == "ntw":
        return atom(("ntw", f[1], f[2]))
    if k == "phi":
        return atom(("phisize", f[1], f[2]))
    if k == "loop":
        return mk_sum(f[1], tuple((j, alt_size(d, fs)) for j, d, fs in f[2]))
    if k == "zlib":
        return atom(("clen", f[1]))
    if k in ("lost", "seek"):
        return atom(("lost", f))
    raise KeyError(k)


def alt_size(d, fs):
    """Size of one iteration under what is known in it."""
    return under(d, size(fs))


def under(d, n):
    """A length under what is known in one iteration."""
    if isinstance(n, Lin) and d.d:
        st = State()
        st.facts.add(d)
        n = st.norm(n)
    return n


def opt_size(o):
    if o[0] == "none":
        return 4
    if o[0] == "opt":
        return atom(("fstrsz", o[1]))
    t = o[1]
    if isinstance(t, str):
        return str_size(t)
    return atom(("strsz", t))


def norm_opt(st, o):
    if o[0] == "opt":
        v = st.facts.var.get(o[1])
        if v == 0:
            return ("none",)
        if v == 1:
            return norm_opt(st, ("some", ("v", ("f", o[1], 1, 0))))
        return o
    if o[0] == "some":
        return ("some", st.str_norm(o[1]))
    return o


def norm_field(st, f):
    k = f[0]
    if k == "num":
        return ("num", f[1], wrap_to(st, st.norm(f[2]), f[1]), f[3])
    if k == "fstr":
        o = norm_opt(st, f[1])
        if o[0] == "none":
            return ("num", 4, 0, "le")
        return ("fstr", o)
    if k == "bytes":
        return ("bytes", st.norm(f[1]), f[2])
    return f


def byte_of(f):
    """(value, position, width) of a field that is one byte of a number."""
    if f[0] == "num" and f[1] == 1 and isinstance(f[2], Lin) and f[2].c == 0 and len(f[2].t) == 1:
        (a, k), = f[2].t.items()
        if k == 1 and a[0] == "rng" and isinstance(a[1], tuple) and a[1][0] == "byteof":
            return a[1][1:]
    return None


def joined(fs):
    """Fields with the consecutive bytes of a number put together again."""
    out, i, fs = [], 0, tuple(fs)
    while i < len(fs):
        b = byte_of(fs[i])
        if b is not None and b[2] > 1 and b[1] in (0, b[2] - 1):
            v, k, w = b
            step = 1 if k == 0 else -1
            if [byte_of(f) for f in fs[i:i + w]] == [(v, k + step * j, w) for j in range(w)]:
                out.append(("num", w, v, "le" if step == 1 else "be"))
                i += w
                continue
        f = fs[i]
        if f[0] == "loop" and any(byte_of(g) for _, _, gs in f[2] for g in gs):
            f = ("loop", f[1], tuple((j, d, joined(gs)) for j, d, gs in f[2]))
        out.append(f)
        i += 1
    return tuple(out)


def regroup(st, fs, i, n):
    """The fields with an n-byte number at position i, put together from constants or cut from a wider one where needed."""
    fs = list(fs)
    while i < len(fs) and fs[i][0] == "num" and fs[i][1] > n and fs[i][1] % 2 == 0:
        fs[i:i + 1] = split_num(st, fs[i])
    j, m, v = i, 0, 0
    while j < len(fs) and m < n and fs[j][0] == "num" and isinstance(fs[j][2], int):
        v |= int.from_bytes((fs[j][2] % (1 << 8 * fs[j][1])).to_bytes(fs[j][1], "big" if fs[j][3] == "be" else "little"), "little") << 8 * m
        m += fs[j][1]
        j += 1
    if m == n and j > i + 1:
        fs[i:j] = [("num", n, v, "le")]
    return fs


def wrap_to(st, v, nbytes):
    """Canonical form of an integer modulo 2^(8*nbytes)."""
    if not isinstance(v, Lin):
        return v % (1 << (8 * nbytes)) if isinstance(v, int) else v
    # peel conversions that do not change the low bits
    while len(v.t) == 1 and v.c == 0:
        (a, k), = v.t.items()
        if k == 1 and a[0] == "wrap" and a[2] >= 8 * nbytes:
            v = st.norm(a[1])
            if not isinstance(v, Lin):
                return v % (1 << (8 * nbytes))
        else:
            break
    return v


def split_num(st, f):
    """A wide little-endian number as two halves."""
    n = f[1] // 2
    v = f[2]
    bits = 8 * n
    if not isinstance(v, Lin):
        lo, hi = v % (1 << bits), (v >> bits) % (1 << bits)
    else:
        l, h = st.rng(v)
        if l is not None and h is not None and 0 <= l and h < (1 << bits):
            lo, hi = v, 0
        elif any(a[0] in ("n", "sum", "cnt", "strsz", "fstrsz", "nt", "ntw", "blen", "clen", "bytes") for a in v.t):
            lo, hi = v, 0  # sizes are assumed to fit
        else:
            lo, hi = atom(("lo", v, n)), atom(("hi", v, n))
    a, b = ("num", n, lo, f[3]), ("num", n, hi, f[3])
    return (a, b) if f[3] == "le" else (b, a)

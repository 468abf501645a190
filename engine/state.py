"""Path state: memory cells, call frames and the facts known on the path."""
from vals import *

BIG = 1 << 56  # sizes and lengths of data held in memory are below this
HUGE = 1 << 62


def int_range(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


# default ranges of atoms
def atom_range(a):
    k = a[0]
    if k == "v":
        return int_range(a[2], a[3])
    if k == "strsz":
        return 5, 1 << 20
    if k == "fstrsz":
        return 4, 1 << 20
    if k in ("blen", "u16len", "len", "n", "nt", "ntw", "phisize", "mapidx", "bytes", "clen", "nread", "cnt"):
        return 0, BIG
    if k == "sum":
        return sum_range(a)
    if k == "b2i":
        return 0, 1
    if k == "pos0":
        return 0, HUGE
    if k == "max0":
        return 0, BIG
    if k == "phi":
        return (None, None) if len(a) < 5 or a[3] is None else int_range(a[3], a[4])
    if k == "wrap":
        return int_range(a[2], a[3])
    if k == "rng":
        return a[2], a[3]
    if k == "cat":
        return 0, 256 ** len(a[1]) - 1
    return None, None


def sum_range(a):
    lo, hi = atom_range(a[3])
    return (0 if lo is not None and lo >= 0 else None), (None if hi is None else BIG * 4)


def plain_range(v):
    if not isinstance(v, Lin):
        return v, v
    lo = hi = v.c
    for a, k in v.t.items():
        l, h = atom_range(a)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


class Facts:
    """What is known on a path. Dictionaries are copied on fork."""

    __slots__ = ("sub", "rng", "bt", "var", "nvar", "seq", "sne", "ge0", "ne")
    NAMES = ("sub", "rng", "bt", "var", "nvar", "seq", "sne", "ge0", "ne")

    def __init__(self):
        self.sub = {}  # atom -> Lin
        self.rng = {}  # atom -> (lo, hi)
        self.bt = {}  # boolean term -> truth
        self.var = {}  # key of symbolic enum -> variant
        self.nvar = {}  # key -> excluded variants
        self.seq = {}  # string term -> constant
        self.sne = {}  # string term -> constants it differs from
        self.ge0 = {}  # Lin known to be >= 0
        self.ne = {}  # Lin known to be != 0

    def copy(self):
        f = Facts.__new__(Facts)
        for n in Facts.NAMES:
            setattr(f, n, dict(getattr(self, n)))
        return f

    def delta(self, base):
        """Facts in self that are not in base, as a plain dict of dicts."""
        d = {}
        for n in Facts.NAMES:
            b = getattr(base, n)
            x = {k: v for k, v in getattr(self, n).items() if k not in b or b[k] != v}
            if x:
                d[n] = x
        return Delta(d)

    def add(self, delta):
        for n, x in delta.d.items():
            mine = getattr(self, n)
            for k, v in x.items():
                if n in ("nvar", "sne") and k in mine:
                    v = mine[k] | v
                elif n == "rng" and k in mine:
                    v = meet(mine[k], v)
                mine[k] = v


class Delta:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Delta) and self.d == o.d

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Δ{self.d}" if self.d else "Δ"

    def merged(self, o):
        d = {n: dict(x) for n, x in self.d.items()}
        for n, x in o.d.items():
            d.setdefault(n, {}).update(x)
        return Delta(d)


NODELTA = Delta({})


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


class Frame:
    __slots__ = ("fid", "inst", "body", "bb", "dest", "target", "active", "sp", "final")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fid = self.fid
        f.inst = self.inst
        f.body = self.body
        f.bb = self.bb
        f.dest = self.dest
        f.target = self.target
        f.active = self.active
        f.sp = self.sp
        f.final = self.final
        return f


class State:
    __slots__ = ("cells", "frames", "facts", "n", "events", "notes", "ret", "depth", "failed", "dead", "vars")

    def __init__(self):
        self.cells = {}
        self.frames = []
        self.facts = Facts()
        self.n = 0
        self.events = ()
        self.notes = ()
        self.ret = None
        self.depth = 0
        self.failed = None
        self.dead = False
        self.vars = {}

    def clone(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.n = self.n
        s.events = self.events
        s.notes = self.notes
        s.ret = self.ret
        s.depth = self.depth
        s.failed = self.failed
        s.dead = self.dead
        s.vars = dict(self.vars)
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def event(self, *e):
        self.events = self.events + (e,)

    def note(self, *e):
        self.notes = self.notes + (e,)

    # ---- integers -------------------------------------------------------------------------
    def norm(self, v):
        """Apply the equalities known on this path."""
        if not isinstance(v, Lin):
            return v
        sub_ = self.facts.sub
        var = self.facts.var
        for _ in range(20):
            hit = None
            for a in v.t:
                if a in sub_:
                    hit = (a, sub_[a])
                    break
                k = a[0]
                if k == "disc" and a[1] in var:
                    hit = (a, a[2][var[a[1]]])
                    break
                if k == "b2i":
                    b = self.simp(a[1])
                    if isinstance(b, bool):
                        hit = (a, 1 if b else 0)
                        break
                elif k == "strsz" or k == "fstrsz":
                    n = self.norm_size_atom(a)
                    if n is not a:
                        hit = (a, n if not isinstance(n, tuple) else atom(n))
                        break
                elif k == "sum":
                    n = self.norm_sum(a)
                    if n is not None:
                        hit = (a, n)
                        break
                elif k in ("blen", "u16len", "len"):
                    t = a[1]
                    if isinstance(t, tuple):
                        c = self.str_norm(t)
                        if isinstance(c, str) and k == "blen":
                            hit = (a, len(c.encode()))
                            break
                        if c is not t and not isinstance(c, str):
                            hit = (a, atom((k, c)))
                            break
            if hit is None:
                return v
            a, by = hit
            k = v.t[a]
            t = dict(v.t)
            del t[a]
            v = add(simp(Lin(v.c, t)), scale(by, k))
            if not isinstance(v, Lin):
                return v
        return v

    def norm_sum(self, a):
        if a[2] != "*" and ("cnt", a[1], a[2]) in self.facts.sub and a not in getattr(self.facts.sub["cnt", a[1], a[2]], "t", ()):
            c = self.norm(atom(("cnt", a[1], a[2])))
            if c == 0:
                return 0
            if c == self.norm(atom(("n", a[1]))):
                return atom(("sum", a[1], "*", a[3]))
        if ("n", a[1]) in self.facts.sub and self.norm(atom(("n", a[1]))) == 0:
            return 0
        inner = atom(a[3])
        lf = self.vars.get(("lf", a[1], a[2]))
        if lf is not None and a[3][0] == "fstrsz" and a[3][1] in lf.d["var"]:
            t = self.clone()
            t.facts.add(lf)
            n = t.norm(inner)
        else:
            n = self.norm(inner)
        if n is inner or n == inner:
            return None
        if not isinstance(n, Lin):
            return scale(atom(("n", a[1]) if a[2] == "*" else ("cnt", a[1], a[2])), n)
        t = scale(atom(("n", a[1]) if a[2] == "*" else ("cnt", a[1], a[2])), n.c)
        for x, k in n.t.items():
            t = add(t, scale(atom(("sum", a[1], a[2], x)), k))
        return t

    def norm_size_atom(self, a):
        if a[0] == "strsz":
            c = self.str_norm(a[1])
            if isinstance(c, str):
                return str_size(c)
            if c is not a[1]:
                return ("strsz", c)
            return a
        v = self.facts.var.get(a[1])
        if v is None:
            return a
        if v == 0:
            return 4
        return ("strsz", ("v", ("f", a[1], 1, 0)))

    def rng(self, v):
        if not isinstance(v, Lin):
            return v, v
        v = self.norm(v)
        if not isinstance(v, Lin):
            return v, v
        lo, hi = self.rng0(v)
        if any(a[0] in ("cnt", "sum") and a[2] != "*" for a in v.t):
            # the iterations of one kind are at most all iterations
            l, _ = self.rng0(self.bound_counts(v, -1))
            _, h = self.rng0(self.bound_counts(v, 1))
            lo, hi = meet((lo, hi), (l, h))
        return lo, hi

    def bound_counts(self, v, sign):
        """Lower (-1) or upper (1) bound of v with per-kind counts replaced by totals."""
        worst = {}
        out = v
        for a, k in v.t.items():
            if a[0] in ("cnt", "sum") and a[2] != "*" and k * sign > 0:
                g = ("n", a[1]) if a[0] == "cnt" else ("sum", a[1], "*", a[3])
                if a[0] == "sum":
                    l, _ = self.arng(a[3])
                    if l is None or l < 0:
                        continue
                out = sub(out, scale(atom(a), k))
                w = worst.get(g, 0)
                worst[g] = max(w, k) if sign > 0 else min(w, k)
        for g, k in worst.items():
            out = add(out, scale(atom(g), k))
        return self.norm(out) if isinstance(out, Lin) else out

    def rng0(self, v):
        if not isinstance(v, Lin):
            return v, v
        lo = hi = v.c
        for a, k in v.t.items():
            l, h = self.arng(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def arng(self, a):
        r = atom_range(a)
        f = self.facts.rng.get(a)
        if f is not None:
            r = meet(r, f)
        if a[0] == "disc":
            vals = [d for i, d in enumerate(a[2]) if i not in self.facts.nvar.get(a[1], ())]
            if vals:
                r = meet(r, (min(vals), max(vals)))
        if a[0] == "op":
            r = meet(r, self.op_range(a))
        if a[0] == "wrap":
            l, h = self.rng(a[1])
            tl, th = int_range(a[2], a[3])
            if l is not None and h is not None and tl <= l and h <= th:
                r = meet(r, (l, h))
        return r

    def op_range(self, a):
        name = a[1]
        if name == "div":
            l, h = self.rng(a[2])
            l2, h2 = self.rng(a[3])
            if l is not None and l >= 0:
                if l2 is not None and l2 > 0 and h is not None:
                    return 0 if h2 is None else l // h2, h // l2
                return 0, h
        if name == "mul":
            l, h = self.rng(a[2])
            l2, h2 = self.rng(a[3])
            if None not in (l, h, l2, h2):
                p = [l * l2, l * h2, h * l2, h * h2]
                return min(p), max(p)
        if name == "rem":
            l, h = self.rng(a[2])
            l2, h2 = self.rng(a[3])
            if l is not None and l >= 0 and h2 is not None:
                return 0, h2 - 1
        if name == "and":
            for x in (a[2], a[3]):
                if isinstance(x, int) and x >= 0:
                    return 0, x
        if name == "shr":
            l, h = self.rng(a[2])
            if isinstance(a[3], int) and l is not None and l >= 0 and h is not None:
                return l >> a[3], h >> a[3]
        if name == "max":
            l, h = self.rng(a[2])
            l2, h2 = self.rng(a[3])
            if None not in (l, l2):
                return max(l, l2), None if h is None or h2 is None else max(h, h2)
        if name == "min":
            l, h = self.rng(a[2])
            l2, h2 = self.rng(a[3])
            lo = None if l is None or l2 is None else min(l, l2)
            hi = h2 if h is None else h if h2 is None else min(h, h2)
            return lo, hi
        return None, None

    def nonneg(self, v, strict=True):
        """True if v >= 0 is known."""
        lo, hi = self.rng(v)
        if lo is not None and lo >= 0:
            return True
        v = self.norm(v)
        for g in self.facts.ge0:
            d = sub(v, self.norm(g))
            l, _ = self.rng(d)
            if l is not None and l >= 0:
                return True
        if strict and isinstance(v, Lin):
            # v + 1 >= 0 and v + 1 != 0
            w = add(v, 1)
            if (w in self.facts.ne or neg(w) in self.facts.ne) and self.nonneg(w, False):
                return True
        return False

    # ---- strings --------------------------------------------------------------------------
    def str_norm(self, t):
        if isinstance(t, str):
            return t
        for _ in range(8):
            c = self.facts.seq.get(t)
            if c is None:
                break
            t = c
            if isinstance(t, str):
                break
        return t

    # ---- booleans -------------------------------------------------------------------------
    def simp(self, b):
        if isinstance(b, bool):
            return b
        k = b[0]
        if k == "not":
            x = self.simp(b[1])
            return (not x) if isinstance(x, bool) else ("not", x)
        if k in ("and", "or"):
            x = self.simp(b[1])
            y = self.simp(b[2])
            if k == "and":
                if x is False or y is False:
                    return False
                if x is True:
                    return y
                if y is True:
                    return x
            else:
                if x is True or y is True:
                    return True
                if x is False:
                    return y
                if y is False:
                    return x
            return (k, x, y)
        if k == "eq0":
            d = self.norm(b[1])
            if not isinstance(d, Lin):
                return d == 0
            lo, hi = self.rng(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if d in self.facts.ne or neg(d) in self.facts.ne:
                return False
            if self.nonneg(add(d, -1)) or self.nonneg(add(neg(d), -1)):
                return False
            if len(d.t) == 1:
                (a, c), = d.t.items()
                if a[0] == "disc":
                    vals = [x for i, x in enumerate(a[2]) if i not in self.facts.nvar.get(a[1], ())]
                    if not any(d.c + c * x == 0 for x in vals):
                        return False
            return ("eq0", d)
        if k == "lt0":
            d = self.norm(b[1])
            if not isinstance(d, Lin):
                return d < 0
            lo, hi = self.rng(d)
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            if self.nonneg(d):
                return False
            if self.nonneg(add(neg(d), -1)):
                return True
            return ("lt0", d)
        if k == "streq":
            x, y = self.str_norm(b[1]), self.str_norm(b[2])
            if x == y:
                return True
            if isinstance(x, str) and isinstance(y, str):
                return False
            if isinstance(x, str):
                x, y = y, x
            if isinstance(y, str) and (y in self.facts.sne.get(x, ()) or self.parts_differ(x, y)):
                return False
            t = ("streq", x, y)
            if t in self.facts.bt:
                return self.facts.bt[t]
            return t
        if k == "ovf":
            d = self.norm(b[1])
            lo, hi = self.rng(d)
            tl, th = int_range(b[2], b[3])
            up = hi is not None and hi <= th or self.nonneg(sub(th, d))
            dn = lo is not None and lo >= tl or self.nonneg(sub(d, tl))
            if up and dn:
                return False
            if lo is not None and lo > th or hi is not None and hi < tl:
                return True
            if up:
                return self.simp(("lt0", sub(d, tl)))
            if dn:
                return self.simp(("lt0", sub(th, d)))
            return ("ovf", d, b[2], b[3])
        if k == "isvar":  # enum symbol has variant
            v = self.facts.var.get(b[1])
            if v is not None:
                return v == b[2]
            if b[2] in self.facts.nvar.get(b[1], ()):
                return False
            return b
        if b in self.facts.bt:
            return self.facts.bt[b]
        return b

    def assume(self, b, truth):
        """Add a condition to the facts; False if it contradicts them."""
        b = self.simp(b)
        if isinstance(b, bool):
            return b == truth
        k = b[0]
        if k == "not":
            return self.assume(b[1], not truth)
        if k == "and" and truth:
            return self.assume(b[1], True) and self.assume(b[2], True)
        if k == "or" and not truth:
            return self.assume(b[1], False) and self.assume(b[2], False)
        if k == "eq0":
            d = b[1]
            return self.assume_eq0(d) if truth else self.assume_ne0(d)
        if k == "lt0":
            d = b[1]
            return self.assume_ge0(add(neg(d), -1)) if truth else self.assume_ge0(d)
        if k == "streq":
            x, y = b[1], b[2]
            if isinstance(y, str):
                if truth:
                    self.facts.seq[x] = y
                    if x[0] == "substr":
                        return self.assume_whole(x[1])
                else:
                    self.facts.sne[x] = self.facts.sne.get(x, frozenset()) | {y}
            else:
                self.facts.bt[b] = truth
            return True
        if k == "ovf":
            if not truth:
                tl, th = int_range(b[2], b[3])
                return self.assume_ge0(sub(th, b[1])) and self.assume_ge0(sub(b[1], tl))
            self.facts.bt[b] = True
            return True
        if k == "isvar":
            if truth:
                self.facts.var[b[1]] = b[2]
            else:
                ex = self.facts.nvar.get(b[1], frozenset()) | {b[2]}
                self.facts.nvar[b[1]] = ex
                left = [i for i in range(b[3]) if i not in ex]
                if not left:
                    return False
                if len(left) == 1:
                    self.facts.var[b[1]] = left[0]
            return True
        self.facts.bt[b] = truth
        return True

    def assume_ne0(self, d):
        if len(d.t) == 1:
            (a, c), = d.t.items()
            if abs(c) == 1:
                v = -d.c * c
                if a[0] == "disc":
                    i = [i for i, x in enumerate(a[2]) if x == v]
                    return self.assume(("isvar", a[1], i[0], len(a[2])), False) if i else True
                if a[0] == "b2i" and v in (0, 1):
                    return self.assume(a[1], v == 0)
                lo, hi = self.arng(a)
                if lo is not None and v == lo:
                    return self.assume_ge0(atom(a, -(v + 1)))
                if hi is not None and v == hi:
                    return self.assume_ge0(sub(v - 1, atom(a)))
        self.facts.ne[d] = True
        if len(d.t) > 1 and self.facts.ge0:
            if self.nonneg(d, False):
                return self.assume_ge0(add(d, -1))
            if self.nonneg(neg(d), False):
                return self.assume_ge0(add(neg(d), -1))
        return True

    def assume_ge0(self, d):
        d = self.norm(d)
        if not isinstance(d, Lin):
            return d >= 0
        lo, hi = self.rng(d)
        if hi is not None and hi < 0:
            return False
        if len(d.t) == 1:
            (a, c), = d.t.items()
            if c > 0:
                r = (-(d.c // c), None)  # a >= ceil(-d.c / c)
            else:
                r = (None, d.c // -c)
            r = meet(self.facts.rng.get(a, (None, None)), r)
            self.facts.rng[a] = r
            lo, hi = self.arng(a)
            if lo is not None and hi is not None:
                if lo > hi:
                    return False
                if lo == hi:
                    self.facts.sub[a] = lo
        elif hi == 0 or sub(0, d) in self.facts.ge0:
            return self.assume_eq0(d)
        else:
            self.facts.ge0[d] = True
        return True

    def parts_differ(self, x, y):
        """Does a part of a string known to be, or not to be, something tell it from a constant?"""
        b = y.encode()
        if x[0] == "v" and self.simp(("eq0", sub(atom(("blen", x)), len(b)))) is False:
            return True
        for table, same in ((self.facts.seq, False), (self.facts.sne, True)):
            for k, v in table.items():
                if k[0] == "substr" and k[1] == x and isinstance(k[2], int) and isinstance(k[3], int):
                    part = b[k[2]:k[3]]
                    if (part in {w.encode() for w in v}) if same else part != v.encode():
                        return True
        return False

    def assume_whole(self, x):
        """A string whose parts are all known is known."""
        n = self.norm(atom(("blen", x)))
        at, out = 0, ""
        parts = {k[2]: (k[3], v) for k, v in self.facts.seq.items() if k[0] == "substr" and k[1] == x}
        while at != n and at in parts:
            at, v = parts.pop(at)
            out += v
        if at != n:
            return True
        return self.assume(("streq", x, out), True)

    PRIORITY = {"n": 0, "v": 1, "phi": 2, "mapidx": 2, "disc": 1, "len": 3, "nread": 2}

    def assume_eq0(self, d):
        d = self.norm(d)
        if not isinstance(d, Lin):
            return d == 0
        if len(d.t) == 1:
            (a, c), = d.t.items()
            if d.c % c:
                return False
            v = -d.c // c
            if a[0] == "disc":
                i = [i for i, x in enumerate(a[2]) if x == v]
                if not i:
                    return False
                return self.assume(("isvar", a[1], i[0], len(a[2])), True)
            if a[0] == "b2i":
                return v in (0, 1) and self.assume(a[1], v == 1)
            lo, hi = self.arng(a)
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return False
            self.facts.sub[a] = v
            if a[0] == "cat":
                return all(self.assume_eq0(sub(b, v >> 8 * i & 255)) for i, b in enumerate(a[1]))
            return True
        best = None
        for a, c in d.t.items():
            if c in (1, -1):
                p = self.PRIORITY.get(a[0], 9)
                if best is None or p < best[0]:
                    if not any(occurs(a, b) or a[0] in ("n", "cnt") and sums_over(b, a[1]) for b in d.t if b != a):
                        best = (p, a, c)
        if best is None:
            self.facts.bt[("eq0", d)] = True
            return True
        _, a, c = best
        t = dict(d.t)
        del t[a]
        rest = simp(Lin(d.c, t))
        by = scale(rest, -c)
        # the other side inherits the range of the replaced atom
        lo, hi = self.arng(a)
        self.facts.sub[a] = by
        if lo is not None and not self.assume_ge0(sub(by, lo)):
            return False
        if hi is not None and not self.assume_ge0(sub(hi, by)):
            return False
        return True


def occurs(a, b):
    """Does atom a occur inside term b?"""
    if a == b:
        return True
    if isinstance(b, tuple):
        return any(occurs(a, x) for x in b)
    if isinstance(b, Lin):
        return any(occurs(a, x) for x in b.t)
    return False


def sums_over(b, loop):
    """Does term b contain a sum over the loop, whose form depends on its number of iterations?"""
    if isinstance(b, tuple):
        return b[:2] == ("sum", loop) or any(sums_over(x, loop) for x in b)
    return isinstance(b, Lin) and any(sums_over(x, loop) for x in b.t)


def str_size(c):
    """Encoded size of a constant string."""
    if c.isascii():
        return 4 + len(c) + 1
    return 4 + 2 * (len(c.encode("utf-16-le")) // 2 + 1)


def mk_sum(loop, alts):
    """Sum over the iterations of a loop of a per-alternative amount.

    Linear in the amounts: n(loop) counts the iterations, cnt(loop, j) those taking alternative j,
    sum(loop, *, a) adds up atom a over all of them and sum(loop, j, a) over those of kind j. One
    alternative serves as reference so that equal amounts always get the same form.
    """
    amounts = merge_splits(alts)
    ref = max(amounts, key=repr)
    total = 0
    atoms = {}
    for j, l in amounts.items():
        for a in (l.t if isinstance(l, Lin) else ()):
            atoms[a] = None

    def const(l):
        return l.c if isinstance(l, Lin) else l

    def coef(l, a):
        return l.t.get(a, 0) if isinstance(l, Lin) else 0
    r = amounts[ref]
    total = scale(atom(("n", loop)), const(r)) if const(r) else 0
    for j, l in amounts.items():
        if j != ref and const(l) != const(r):
            total = add(total, scale(atom(("cnt", loop, j)), const(l) - const(r)))
    for a in atoms:
        k = coef(r, a)
        if k:
            total = add(total, scale(sum_atom(loop, "*", a), k))
        for j, l in amounts.items():
            d = coef(l, a) - k
            if j != ref and d:
                total = add(total, scale(sum_atom(loop, j, a), d))
    return total


def unordered(loop):
    return loop[1] if loop[0] == "regroup" else loop


def sum_atom(loop, j, a):
    """Sum of an atom over a loop; iterating over groups and their members is iterating over all."""
    if loop[0] == "G" and j == "*":
        inner = ("GI", loop[1])
        if a[0] in ("n", "cnt", "sum") and a[1] == inner:
            return atom((a[0], unordered(loop[1])) + a[2:])
    loop = unordered(loop)
    return atom(("sum", loop, j, a))


def merge_splits(alts):
    """label -> amount, with the cases an alternative was split into merged when they agree."""
    m = {}
    for j, l in alts:
        m[j] = l
    while True:
        groups = {}
        for j in m:
            if isinstance(j, tuple) and j and j[0] == "s":
                groups.setdefault(j[1], []).append(j)
        done = True
        for b, js in groups.items():
            if len({m[j] for j in js}) == 1 and b not in m:
                v = m[js[0]]
                for j in js:
                    del m[j]
                m[b] = v
                done = False
        if done:
            return m

"""Abstract values: linear integer terms, strings, sequences, aggregates, references."""


class Lin:
    """const + sum(coef * atom); atoms are hashable tuples."""

    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, frozenset(self.t.items())))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = " + ".join((f"{k}*" if k != 1 else "") + fmt_atom(a) for a, k in self.t.items())
        return f"({s}{' + ' + str(self.c) if self.c else ''})"


def fmt_key(k):
    if isinstance(k, tuple):
        return ".".join(fmt_key(x) for x in k)
    return str(k)


def fmt_atom(a):
    if isinstance(a, tuple) and a:
        return f"{a[0]}[{', '.join(fmt_key(x) if not isinstance(x, Lin) else repr(x) for x in a[1:])}]"
    return str(a)


def atom(a, c=0):
    return Lin(c, {a: 1})


def is_int(v):
    return isinstance(v, Lin) or (isinstance(v, int) and not isinstance(v, bool))


def lin(v):
    return v if isinstance(v, Lin) else Lin(v, {})


def simp(l):
    return l if l.t else l.c


def add(a, b):
    if not isinstance(a, Lin):
        if not isinstance(b, Lin):
            return a + b
        return Lin(a + b.c, b.t) if a else b
    if not isinstance(b, Lin):
        return Lin(a.c + b, a.t) if b else a
    t = dict(a.t)
    for k, v in b.t.items():
        n = t.get(k, 0) + v
        if n:
            t[k] = n
        else:
            t.pop(k, None)
    return simp(Lin(a.c + b.c, t))


def scale(a, k):
    if not isinstance(a, Lin):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, {x: v * k for x, v in a.t.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


class Sym:
    """An unknown value of some type with a provenance key."""

    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key = key
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Sym) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"?{fmt_key(self.key)}"


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Agg) and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))

    def __repr__(self):
        return f"<{self.ty}#{self.var} {', '.join(map(repr, self.f))}>"


class Ref:
    """Reference, raw pointer or box: a path below a memory cell."""

    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return f"&{self.cell}{list(self.path) if self.path else ''}"


class Str:
    """String contents: a Python string or a term tuple."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Str) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"Str({self.t!r})" if isinstance(self.t, str) else f"Str({fmt_atom(self.t)})"


class Seq:
    """Vector, slice contents or ordered map: a tuple of parts.

    ('one', v)                one element (for maps v is an Agg of key and value)
    ('loop', L, alts)         elements appended by loop L; alts = ((j, parts), ...)
    ('gloop', L, alts)        map of vectors: entries grouped from (key, value) pairs of loop L
    ('sym', key, elemty)      unknown elements
    ('rep', v, n)             n copies of v
    ('bytes', term, n)        raw bytes
    ('fields', fields)        bytes emitted into a buffer
    ('phi', L, slot)          contents at the head of a loop
    """

    __slots__ = ("parts", "map")

    def __init__(self, parts=(), map=False):
        self.parts = parts
        self.map = map

    def __eq__(self, o):
        return isinstance(o, Seq) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return f"{'Map' if self.map else 'Seq'}{list(self.parts)!r}"


class FnV:
    __slots__ = ("inst", "ty")

    def __init__(self, inst, ty):
        self.inst = inst
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, FnV) and self.inst == o.inst

    def __hash__(self):
        return hash(self.inst)

    def __repr__(self):
        return f"fn#{self.inst}"


class Obj:
    """A library object with a native model (stream, iterator, encoder, ...)."""

    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, default=None):
        return self.d.get(k, default)

    def with_(self, **kw):
        o = Obj(self.kind)
        o.d = {**self.d, **kw}
        return o

    def __eq__(self, o):
        return isinstance(o, Obj) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash((self.kind, tuple(sorted((k, repr(v)) for k, v in self.d.items()))))

    def __repr__(self):
        return f"{self.kind}{self.d!r}"


class Top:
    """Value the analysis could not follow."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top) and self.why == o.why

    def __hash__(self):
        return hash(self.why)

    def __repr__(self):
        return f"Top({self.why})"


UNIT = Agg(None, 0, ())

"""Reader and writer runs over the entry points, and the comparison of what they consume and emit."""
import re

from fields import *
from interp import Abort, Interp
from mirdb import Db
from models import deref, stream
from state import *
from vals import *

PROPERTY_NEW = "gvas::properties::Property::new"
PROPERTY_WRITE = "<gvas::properties::Property as gvas::properties::PropertyTrait>::write"
PROPERTY_BODY = "<gvas::properties::Property as gvas::properties::PropertyTrait>::write_body"
FTEXT_READ = "gvas::properties::text_property::FText::read"
FTEXT_WRITE = "gvas::properties::text_property::FText::write"
MAX_INLINE = 3


class Engine:
    """One interpreter with the cut points of the recursive grammar installed."""

    def __init__(self, db):
        self.db = db
        self.ip = Interp(db)
        self.ip.nt = self.nt
        self.root_inst = None
        self.stats = {"runs": 0, "paths": 0, "steps": 0, "aborts": []}
        self.panics = []
        names = {i["def"] for i in db.insts}
        missing = [n for n in (PROPERTY_NEW, PROPERTY_WRITE, PROPERTY_BODY, FTEXT_READ, FTEXT_WRITE) if n not in names]
        if missing:
            raise LookupError("entry points not found: " + ", ".join(missing))
        self.own = True
        self._options = None
        self.find_zones()

    # ---- cut points -----------------------------------------------------------------------
    def find_zones(self):
        """Functions an entry point merely forwards to: same result, at least the same arguments."""
        self.zone = {}
        for i in self.db.insts:
            if i["def"] not in (PROPERTY_NEW, PROPERTY_WRITE, PROPERTY_BODY, FTEXT_READ, FTEXT_WRITE):
                continue
            sig = self.signature(i["id"])
            if sig is None:
                continue
            work = [i["id"]]
            while work:
                x = work.pop()
                if x in self.zone:
                    continue
                self.zone[x] = i["def"]
                if i["def"] not in (FTEXT_READ, FTEXT_WRITE):
                    continue
                for blk in self.db.body(x).blocks:
                    t = blk["t"]
                    y = t["call"].get("inst") if isinstance(t.get("call"), dict) else None
                    if y is None or self.db.insts[y]["crate"] != "gvas":
                        continue
                    g = self.signature(y)
                    if g is not None and g[0] == sig[0] and all(a in g[1] for a in sig[1]):
                        work.append(y)

    def zone_of(self, d):
        return [i for i, n in self.zone.items() if n == d]

    def signature(self, inst):
        b = self.db.body(inst)
        return (b.locals[0], b.locals[1:b.argc + 1]) if b is not None else None

    def nt(self, ip, st, c):
        d = self.zone.get(c.inst)
        if d is None or not self.below(st, c, d):
            return None
        if d == PROPERTY_NEW:
            return self.nt_property(ip, st, c)
        if d == FTEXT_READ:
            return self.nt_ftext(ip, st, c)
        v = deref(ip, st, c.args[0])
        if not isinstance(v, Sym):
            return None
        hdr = False
        if d == PROPERTY_WRITE:
            hdr = st.simp(c.args[2]) if isinstance(c.args[2], tuple) else c.args[2]
        return self.emit_nt(ip, st, c, v, hdr)

    def below(self, st, c, d):
        """Is the operation entered anew, other than by the root?"""
        if len(st.frames) == 1:
            return not self.own
        return self.zone.get(st.frames[-1].inst) != d

    def depth_of(self, st, inst):
        return sum(1 for f in st.frames if f.inst == inst)

    def nt_property(self, ip, st, c):
        t = c.args[1]
        t = deref(ip, st, t)
        term = st.str_norm(t.t) if isinstance(t, Str) else None
        if isinstance(term, str) and self.depth_of(st, c.inst) < MAX_INLINE:
            return None
        hdr = st.simp(c.args[2]) if isinstance(c.args[2], tuple) else c.args[2]
        from models import prim, consume, ok, ok_type, lost, replay

        def run(s):
            f = replay(ip, s, c.args[0], "ntw")
            if f:
                if f[2] is True or isinstance(f[2], tuple) and f[2] != term:
                    s.event("replay mismatch", "type of a record")
                return ok(c, Sym(f[1], ok_type(ip, c)))
            k = ("nt", s.fresh(), term, hdr)
            if not consume(ip, s, c.args[0], ("nt", k, hdr)):
                return lost(ip, s, c)
            ctx = self.context(ip, s, c)
            s.event("nested", k, term, hdr, ctx)
            s.event("descend", c.inst, self.measures(ip, s, c, ctx), ip.loc(s, c.sp), ip.crate_fn(s))
            return ok(c, Sym(k, ok_type(ip, c)))
        return prim(ip, st, c, run)

    def context(self, ip, st, c):
        """The options a nested value is read or written with: {field name: what it holds}."""
        b = self.db.body(c.inst)
        for i, a in enumerate(c.args):
            ty = b.locals[i + 1]
            if "PropertyOptions" not in self.db.types[ty]["text"]:
                continue
            v = deref(ip, st, a)
            ty = self.db.pointee(ty)
            out = []
            for j, n in enumerate(self.options_fields):
                out.append((n, self.content(ip, st, ip.proj(st, v, ("f", 0, j)))))
            return tuple(out)
        return None

    def measures(self, ip, st, c, ctx):
        """Quantities that may count how deep a nested operation is: (name, value, greatest possible value)."""
        out = []
        for i, a in enumerate(c.args):
            if is_int(a):
                out.append((("argument", i), a, st.rng(a)[1]))
        for n, parts in ctx or ():
            if is_int(parts):
                out.append((("option", n), parts, st.rng(parts)[1]))
            elif not parts or isinstance(parts[0], tuple):
                x = ip.parts_len(st, parts)
                if is_int(x):
                    out.append((("length of", n), x, st.rng(x)[1]))
        return tuple(out)

    def content(self, ip, st, x):
        """What a table or list holds, through references and wrappers."""
        for _ in range(8):
            x = deref(ip, st, x)
            if isinstance(x, Seq):
                return x.parts
            if is_int(x):
                return x
            if isinstance(x, Obj) and x.kind == "hashmap":
                return ("hashmap", x["key"])
            if isinstance(x, Agg) and len(x.f) == 1:
                x = x.f[0]
            elif isinstance(x, Sym) and len(ip.field_types(x.ty, 0) or ()) == 1:
                x = ip.proj(st, x, ("f", 0, 0))
            else:
                break
        return ("lost", repr(x)[:80])

    def nt_ftext(self, ip, st, c):
        from models import prim, consume, ok, ok_type, lost, replay

        def run(s):
            f = replay(ip, s, c.args[0], "ntw")
            if f:
                return ok(c, Sym(f[1], ok_type(ip, c)))
            k = ("nt", s.fresh(), "FText", False)
            if not consume(ip, s, c.args[0], ("nt", k, False)):
                return lost(ip, s, c)
            ctx = self.context(ip, s, c)
            s.event("nested", k, "FText", False, ctx)
            s.event("descend", c.inst, self.measures(ip, s, c, ctx), ip.loc(s, c.sp), ip.crate_fn(s))
            return ok(c, Sym(k, ok_type(ip, c)))
        return prim(ip, st, c, run)

    def emit_nt(self, ip, st, c, v, hdr):
        from models import prim, emit, ok, lost

        def run(s):
            fs = (("ntw", v.key, hdr),)
            if v.key[0] == "nt" and len(v.key) == 4:
                # read by the same grammar before: written as it was read
                fs = (("nt", v.key, hdr),)
                if hdr is True and v.key[3] is True:
                    fs = (("fstr", ("some", v.key[2])),) + fs
            if not emit(ip, s, c.args[1], fs):
                return lost(ip, s, c)
            s.event("nested write", v.key, hdr, self.context(ip, s, c))
            return ok(c, size(fs))
        return prim(ip, st, c, run)

    # ---- runs -----------------------------------------------------------------------------
    def fresh_state(self):
        st = State()
        st.cells[("in",)] = Obj("in", fields=(), pos0=atom(("pos0", "in")))
        st.cells[("out",)] = Obj("out", fields=(), pos0=atom(("pos0", "out")))
        st.cells[("fmt",)] = Obj("fmtr", p=())
        return st

    def args(self, st, root, given):
        """Arguments of a root function: given by position, streams, or unknown."""
        inst = self.db.root[root]
        b = self.db.body(inst)
        out = []
        for i in range(b.argc):
            if i in given:
                out.append(given[i])
                continue
            ty = b.locals[i + 1]
            txt = self.db.types[ty]["text"]
            if re.search(r"\bIn$", txt):
                out.append(Ref(("in",)))
            elif re.search(r"\bOut$", txt):
                out.append(Ref(("out",)))
            elif re.search(r"fmt::Formatter<", txt):
                out.append(Ref(("fmt",)))
            elif "PropertyOptions" in txt:
                key = ("options",)
                cell = ("sym", key)
                if cell not in st.cells:
                    st.cells[cell] = self.ip.mk(st, key, self.db.pointee(ty))
                    self.options_ty = self.db.pointee(ty)
                out.append(Ref(cell))
            else:
                out.append(self.ip.mk(st, ("arg", root, i), ty))
        return inst, out

    def fresh_options(self):
        """A state in which the options hold what they held on entering."""
        if self._options is None:
            st = self.fresh_state()
            self.args(st, "property_new", {})
            self._options = st
        return self._options

    def run(self, root, given=None, st=None, own=True, stable=True):
        """Run a root; reruns until the string partition is stable when starting fresh."""
        ip = self.ip
        self.own = own
        if st is not None:
            return self.run_once(root, given or {}, st)
        ip.field_locs.clear()
        for _ in range(12):
            ip.str_dirty = False
            np = len(ip.panics)
            outs = self.run_once(root, given or {}, self.fresh_state())
            if not ip.str_dirty:
                return outs
            del ip.panics[np:]
        raise Abort("string partition does not settle")

    def run_once(self, root, given, st):
        inst, args = self.args(st, root, given)
        # the root function only forwards; frames[0] is the root itself
        s0 = self.ip.steps
        try:
            outs = self.ip.run(st, inst, tuple(args))
        finally:
            self.stats["runs"] += 1
            self.stats["steps"] += self.ip.steps - s0
            self.ip.steps = 0
        self.stats["paths"] += len(outs)
        return outs


def is_ok(st):
    v = st.ret
    return isinstance(v, Agg) and v.var == 0


def is_err(st):
    v = st.ret
    return isinstance(v, Agg) and v.var == 1


# ---- comparison -------------------------------------------------------------------------------
class Mismatch:
    def __init__(self, what, a, b, path=()):
        self.what = what
        self.a = a
        self.b = b
        self.path = path

    def __repr__(self):
        return f"{self.what}: read {brief(self.a)}, written {brief(self.b)}" + (f" (in loop {len(self.path)} deep)" if self.path else "")


class Unknown(Mismatch):
    pass


def brief(f):
    if f is None:
        return "nothing"
    if f[0] == "num":
        return f"{f[1]}-byte number {f[2]!r}" + (" big-endian" if f[3] == "be" else "")
    if f[0] == "flt":
        return f"{f[1]}-byte float {f[2]!r}"
    if f[0] == "fstr":
        return f"string {f[1][1:]!r}"
    if f[0] == "bytes":
        return f"{f[1]!r} bytes {fmt_key(f[2])[:80]}"
    if f[0] in ("nt", "ntw"):
        return f"nested value {fmt_key(f[1])}" + (" with header" if f[2] else "")
    if f[0] == "loop":
        return f"sequence of {len(f[2])} kind(s) of element over {fmt_key(f[1])}"
    return repr(f)[:120]


def flatten(st, fields):
    """Normalised fields of a path."""
    out = []
    for f in fields:
        k = f[0]
        if k == "ntw":
            out.append(("ntw", f[1], st.simp(f[2]) if isinstance(f[2], tuple) else f[2]))
            continue
        if k == "nt":
            hdr = st.simp(f[2]) if isinstance(f[2], tuple) else f[2]
            out.append(("nt", f[1], hdr))
            continue
        if k == "bytes":
            inner = st.cells.get(("stream", f[2]))
            if isinstance(inner, Obj) and inner.kind == "in":
                # a buffer that was read as a stream of its own
                out += flatten(st, inner["fields"])
                out.append(("tail", f[2]))
                continue
            n = st.norm(f[1])
            if n == 0:
                continue
            c = const_bytes(st, f[2])
            if c is not None and len(c) == n:
                out += [("num", 1, x, "le") for x in c]
                continue
            out.append(("bytes", n, f[2]))
            continue
        if k == "loop":
            n = st.norm(atom(("n", f[1])))
            if n == 0:
                continue
            live = tuple(a for a in f[2] if st.norm(atom(("cnt", f[1], a[0]))) != 0)
            out.append(("loop", f[1], live) if live else f)
            continue
        out.append(norm_field(st, f))
    return out


def const_bytes(st, term):
    for b, v in st.facts.bt.items():
        if v and b[0] == "aeq" and b[1] == term and b[2][0] == "const":
            return b[2][1:]
    return None


def halves(st, f):
    if f[0] == "num" and f[1] > 1:
        return list(split_num(st, f))
    return None


def same_value(st, a, b):
    if a == b:
        return True
    if is_int(a) and is_int(b):
        d = st.norm(sub(a, b))
        return d == 0
    return False


def compare(st, A, B, path=()):
    """None if the two field lists are equal on this path, else the first difference."""
    A, B = flatten(st, joined(A)), flatten(st, joined(B))
    i = j = 0
    while i < len(A) or j < len(B):
        a = A[i] if i < len(A) else None
        b = B[j] if j < len(B) else None
        for f in (a, b):
            if f is not None and (f[0] in ("lost", "seek", "phi", "zrest") or f[0] in ("num", "flt") and isinstance(f[2], Top)):
                return Unknown("not followed", a, b, path)
        if a is None or b is None:
            return Mismatch("extra field" if a is None else "missing field", a, b, path)
        # a float against its bit pattern
        if a[0] == "flt" and (b[0] in ("num", "bytes") or from_bits(a)):
            a = A[i] = flt_num(a)
        if b[0] == "flt" and a[0] in ("num", "bytes"):
            b = B[j] = flt_num(b)
        if a[0] == "flt" and b[0] == "flt" and from_bits(b):
            a, b = A[i], B[j] = flt_num(a), flt_num(b)
        if a[0] == "num" and b[0] == "num":
            if a[1] == b[1]:
                if a[3] != b[3] and a[1] > 1 and not (isinstance(a[2], int) and a[2] == 0 == b[2]):
                    return Mismatch("byte order", a, b, path)
                x, y = wrap_to(st, st.norm(a[2]) if is_int(a[2]) else a[2], a[1]), wrap_to(st, st.norm(b[2]) if is_int(b[2]) else b[2], b[1])
                if not same_value(st, x, y):
                    return Mismatch("value", a, b, path)
                i += 1
                j += 1
                continue
            take = num_bytes if 1 in (a[1], b[1]) else halves
            if a[1] > b[1]:
                A[i:i + 1] = take(st, a)
            else:
                B[j:j + 1] = take(st, b)
            continue
        if a[0] == "num" and b[0] == "bytes" and isinstance(b[1], int) or b[0] == "num" and a[0] == "bytes" and isinstance(a[1], int):
            # bytes against numbers: take the bytes apart
            if a[0] == "bytes":
                A[i:i + 1] = bytes_nums(a)
            else:
                B[j:j + 1] = bytes_nums(b)
            a, b = A[i], B[j]
            if a[1] != b[1]:
                # the number must be made of the same consecutive bytes
                if a[1] > 1:
                    A[i:i + 1] = num_bytes(st, a)
                else:
                    B[j:j + 1] = num_bytes(st, b)
            continue
        if a[0] != b[0]:
            return Mismatch("kind of field", a, b, path)
        if a[0] == "flt":
            if a[1] != b[1] or a[2] != b[2] or a[3] != b[3]:
                return Mismatch("float", a, b, path)
        elif a[0] == "fstr":
            if norm_opt(st, a[1]) != norm_opt(st, b[1]):
                return Mismatch("string", a, b, path)
        elif a[0] == "bytes":
            if a[2] != b[2] or not same_value(st, a[1], b[1]):
                return Mismatch("bytes", a, b, path)
        elif a[0] == "nt":
            if a[1] != b[1] or a[2] != b[2]:
                return Mismatch("nested value", a, b, path)
        elif a[0] == "loop":
            m = compare_loops(st, a, b, path)
            if m is not None:
                return m
        elif a != b:
            return Unknown("not comparable", a, b, path)
        i += 1
        j += 1
    return None


def from_bits(f):
    return isinstance(f[2], Sym) and isinstance(f[2].key, tuple) and f[2].key[0] == "fbits"


def flt_num(f):
    v = f[2]
    if from_bits(f):
        v = v.key[1]
    elif isinstance(v, Sym):
        v = atom(("v", ("bits", v.key), 8 * f[1], False))
    elif isinstance(v, Obj) and v.kind == "fconst":
        v = v["bits"]
    return ("num", f[1], v, f[3])


def bytes_nums(f):
    return [("num", 1, atom(("v", ("f", f[2], "i", k), 8, False)), "le") for k in range(f[1])]


def num_bytes(st, f):
    """A number as its bytes, in the order of the stream."""
    v, n = f[2], f[1]
    if is_int(v):
        v = st.norm(v)
    if isinstance(v, int):
        bs = [(v >> (8 * k)) & 255 for k in range(n)]
    else:
        bs = None
        if len(v.t) == 1 and v.c == 0:
            (a, k), = v.t.items()
            if k == 1 and a[0] == "cat":
                bs = list(a[1])
        if bs is None:
            lo, hi = st.rng(v)
            if lo is not None and hi is not None and 0 <= lo and hi < 256:
                bs = [v] + [0] * (n - 1)
            else:
                bs = [Interp.byteof(v, k, n) for k in range(n)]
    if f[3] == "be":
        bs = bs[::-1]
    return [("num", 1, x, "le") for x in bs]


def base_label(lab, labels):
    while lab not in labels and isinstance(lab, tuple) and lab and lab[0] == "s":
        lab = lab[1]
    return lab


def compare_loops(st, a, b, path):
    if a[1] != b[1]:
        x, y = st.norm(atom(("n", a[1]))), st.norm(atom(("n", b[1])))
        if (b[1] == ("regroup", a[1]) or a[1] == ("regroup", b[1])) and not st.nonneg(sub(1, x)):
            return Mismatch("order or number of elements", a, b, path)
        return Mismatch("order or number of elements", a, b, path) if x != y else Unknown("different iterations", a, b, path)
    read = {lab: (d, fs) for lab, d, fs in a[2]}
    seen = set()
    for lab, d, fs in b[2]:
        k = base_label(lab, read)
        if k not in read:
            return Unknown("iteration kinds", a, b, path)
        seen.add(k)
        s = st.clone()
        s.facts.add(read[k][0])
        s.facts.add(d)
        s.facts.rng[("n", a[1])] = meet(s.facts.rng.get(("n", a[1]), (None, None)), (1, None))
        m = compare(s, read[k][1], fs, path + (a[1],))
        if m is not None:
            return m
    if len(seen) != len(read):
        return Unknown("element kinds without counterpart", a, b, path)
    return None

"""Models of library functions: streams, strings, collections, iterators, formatting."""
import re

from fields import size, opt_size, joined
from loops import NeedGeneric, summarise, iter_empty
from state import *
from vals import *

MODELS = []
NONE = object()


def model(*pats):
    def deco(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return deco


def install(ip):
    ip.models = MODELS
    ip.loop_stack = []
    ip.pcount = 0
    ip.cut = True


# ---- helpers ----------------------------------------------------------------------------------
def inline():
    from interp import INLINE
    return INLINE


def deref(ip, st, v):
    """Follow references to the value."""
    n = 0
    while isinstance(v, Ref):
        v = ip.load(st, v.cell, v.path)
        n += 1
        if n > 12:
            return Top("deref")
    return v


def last_ref(ip, st, v):
    """The innermost reference (the one pointing directly at the value)."""
    n = 0
    while isinstance(v, Ref):
        w = ip.load(st, v.cell, v.path)
        if not isinstance(w, Ref):
            return v
        v = w
        n += 1
        if n > 12:
            break
    return None


def tmp(ip, st, v, kind="tmp"):
    cell = (kind, st.fresh())
    st.cells[cell] = v
    return Ref(cell)


def some(c, v):
    return Agg(c.dt, 1, (v,))


def none(c):
    return Agg(c.dt, 0, ())


def ok(c, v=UNIT):
    return Agg(c.dt, 0, (v,))


def err(c, v):
    return Agg(c.dt, 1, (v,))


def ok_type(ip, c):
    """T of a Result<T, E> returned by the call."""
    return ip.db.types[c.dt]["args"][0]


def prim(ip, st, c, run):
    """A fallible primitive: the successful outcome, and the failing one when asked for."""
    outs = []
    if ip.fail and st.failed is None:
        s2 = st.clone()
        s2.failed = (re.sub(r"::<.*?>", "", c.trait), ip.loc(st, c.sp), ip.crate_fn(st))
        e = ip.db.types[c.dt]["args"][1]
        outs.append((s2, err(c, Sym(("ioerr", s2.fresh()), e))))
    r = run(st)
    outs = (r if isinstance(r, list) else [(st, r)]) + outs
    return outs if len(outs) > 1 else (r if isinstance(r, list) else outs[0][1])


def call_fn(ip, st, f, args, sp=None):
    """Call a closure or function value; returns [(state, value)]."""
    fr = f
    f = deref(ip, st, f)
    if isinstance(f, FnV):
        return invoke_value(ip, st, f.inst, args, sp)
    if isinstance(f, Agg) and f.ty is not None and ip.db.types[f.ty]["k"] == "closure":
        t = ip.db.types[f.ty]
        if t["kind"] == "FnOnce":
            selfv = f
        else:
            selfv = fr if isinstance(fr, Ref) else tmp(ip, st, f)
        return ip.call_sub(st, t["inst"], (selfv,) + tuple(args), sp)
    if isinstance(f, Agg) and f.ty is not None and ip.db.types[f.ty]["k"] == "fndef":
        return invoke_value(ip, st, ip.db.types[f.ty]["inst"], args, sp)
    ip.unmodelled.setdefault("indirect call of " + type(f).__name__, ip.loc(st, sp))
    st.event("unmodelled", "indirect call")
    return [(st, Top("indirect call"))]


@model(r"std::ops::(Fn|FnMut|FnOnce)::call(_once|_mut)?$")
def m_call_value(ip, st, c):
    """A function handed over by name is called: its arguments come as a tuple."""
    f = deref(ip, st, c.args[0])
    tup = c.args[1] if len(c.args) == 2 else None
    if isinstance(tup, Sym):
        tup = ip.expand(st, tup, 0)
    if not isinstance(tup, Agg) or not (isinstance(f, FnV) or isinstance(f, Agg) and f.ty is not None and ip.db.types[f.ty]["k"] == "fndef"):
        return inline()
    return call_fn(ip, st, c.args[0], tup.f, c.sp)


def invoke_value(ip, st, inst, args, sp):
    """Call an instance (with its model when it has one) and return its values."""
    if inst is None:
        return [(st, Top("no instance"))]
    i = ip.db.insts[inst]
    body = ip.db.body(inst)
    if body is not None:
        ats, dt = [body.locals[k + 1] for k in range(body.argc)], body.locals[0]
    else:
        ats, dt = [None] * len(args), None
    c = ip.make_call(inst, None, None, tuple(args), ats, dt, sp)
    m = ip.find_model(c)
    if ip.nt is not None:
        r = ip.nt(ip, st, c)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
    if m is not None:
        r = m(ip, st, c)
        if r is not inline():
            return r if isinstance(r, list) else [(st, r)]
    if body is not None:
        return ip.call_sub(st, inst, tuple(args), sp)
    # constructors without a body
    path = re.sub(r"::<.*>", "", i["def"])
    path = {"Some": "std::option::Option::Some", "Ok": "std::result::Result::Ok", "Err": "std::result::Result::Err"}.get(path.rsplit("::", 1)[-1], path) \
        if re.match(r"(std|core)::", path) else path
    for ty, t in ip.db.types.items():
        if t["k"] != "adt" or t["args"] != i["args"]:
            continue
        if t["kind"] == "struct" and t["name"] == path and len(t["vars"][0]["f"]) == len(args):
            return [(st, Agg(ty, 0, tuple(args)))]
        if t["kind"] == "enum" and t["name"].replace("core::", "std::", 1) == path.rsplit("::", 1)[0]:
            for k, x in enumerate(t["vars"]):
                if x["n"] == path.rsplit("::", 1)[1] and len(x["f"]) == len(args):
                    return [(st, Agg(ty, k, tuple(args)))]
    return [(st, Top(i["def"]))]


def as_str(ip, st, v):
    v = deref(ip, st, v)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = deref(ip, st, v.f[0])
    return v if isinstance(v, Str) else None


# ---- streams ----------------------------------------------------------------------------------
def stream(ip, st, v, via=None):
    """(reference to the stream object, the object) behind a reader or writer argument; buffers passed on the way in via."""
    n = 0
    while n < 20:
        n += 1
        if isinstance(v, Ref):
            w = ip.load(st, v.cell, v.path)
            if isinstance(w, Obj) and w.kind in ("in", "out", "zenc", "zdec", "take"):
                return v, w
            if isinstance(w, Obj) and w.kind == "cur":
                v = Ref(w["cell"])
                continue
            if isinstance(w, Obj) and w.kind in ("bufr", "bufw"):
                if via is not None:
                    via.append(w)
                v = w["inner"]
                continue
            if isinstance(w, Agg) and len(w.f) == 1:
                v = Ref(v.cell, v.path + (("f", w.var, 0),))
                continue
            if isinstance(w, Seq):
                return v, w
            if not isinstance(w, Ref):
                return None, w
            v = w
            continue
        if isinstance(v, Obj) and v.kind == "cur":
            v = Ref(v["cell"])
            continue
        break
    return None, v


def emit(ip, st, w, fs):
    """Append fields to an output; False if the object is not an output."""
    fs = joined(fs)
    via = []
    ref, o = stream(ip, st, w, via)
    if ref is None:
        return False
    for b in via:
        if b.kind == "bufw":
            st.event("buffered", b["id"], b["loc"], b["fn"])
    if isinstance(o, Obj) and o.get("away"):
        o = elsewhere(ip, st, ref, o)
    o2 = emit_to(ip, st, o, fs)
    if o2 is None:
        return False
    ip.store(st, ref.cell, ref.path, o2)
    for f in fs:
        note_field(ip, st, f)
    return True


def note_field(ip, st, f):
    """Remember where a field is read or written, for reports."""
    fr = st.frames[-1]
    sp = ip.db.body(fr.inst).blocks[fr.bb]["t"].get("sp")
    ls = ip.field_locs.setdefault(f, [])
    l = (ip.loc(st, sp), ip.crate_fn(st))
    if l not in ls and len(ls) < 6:
        ls.append(l)


def emit_to(ip, st, o, fs):
    """The output object with fields appended (outputs behind references are updated)."""
    if isinstance(o, Seq):
        ps = o.parts
        if ps and ps[-1][0] == "fields":
            return Seq(ps[:-1] + (("fields", ps[-1][1] + tuple(fs)),))
        return Seq(ps + (("fields", tuple(fs)),))
    if o.kind == "out":
        at = o.get("at")
        if at is None:
            return o.with_(fields=o["fields"] + tuple(fs))
        old, fs = o["fields"], tuple(fs)
        while fs:
            if at >= len(old):
                old, at, fs = old + fs, at + len(fs), ()
                continue
            # the shortest run of old fields that takes the place of a run of new ones
            i = j = 1
            while True:
                a, b = size(old[at:at + i]), size(fs[:j])
                if a == b or not (isinstance(a, int) and isinstance(b, int)):
                    break
                if a < b and at + i < len(old):
                    i += 1
                elif b < a and j < len(fs):
                    j += 1
                else:
                    break
            if a != b:
                st.event("overwritten output")
                return o.with_(fields=old + (("lost", "overwrite"),), at=None)
            old, at, fs = old[:at] + fs[:j] + old[at + i:], at + j, fs[j:]
        return o.with_(fields=old, at=None if at >= len(old) else at)
    if o.kind == "zenc":
        if o["done"]:
            st.event("write after finish")
        return o.with_(fields=o["fields"] + tuple(fs))
    return None


def consume(ip, st, r, field):
    via = []
    ref, o = stream(ip, st, r, via)
    if ref is None or not isinstance(o, Obj) or o.kind != "in":
        return False
    if o.get("away"):
        o = elsewhere(ip, st, ref, o)
    o = ahead(ip, st, ref, o, via)
    if o.get("again"):
        o = read_again(ip, st, o, field)
    if o.get("replay") is not None:
        st.event("replay mismatch", f"{field[0]} read in a way that is not followed")
        o = o.with_(replay=None)
    ip.store(st, ref.cell, ref.path, o.with_(fields=o["fields"] + (field,)))
    note_field(ip, st, field)
    return True


def ahead(ip, st, ref, o, via):
    """Reading through a buffer takes more from the stream below than is asked for."""
    b = next((b["id"] for b in reversed(via) if b.kind == "bufr"), None)
    had = o.get("ahead")
    if b == had:
        return o
    if had is not None:
        fr = st.frames[-1]
        st.event("read past a buffer", ip.loc(st, ip.db.body(fr.inst).blocks[fr.bb]["t"].get("sp")), ip.crate_fn(st))
        return o.with_(fields=o["fields"] + (("lost", "read past a buffer"),), ahead=None)
    w = next(w for w in via if w["id"] == b)
    st.event("read ahead", ref.cell, w["loc"], w["fn"])
    return o.with_(ahead=b)


def read_again(ip, st, o, field):
    """Bytes that were read before the stream was set back are read once more: same bytes, same value."""
    old, rest = o["again"][0], o["again"][1:]
    if old[0] == field[0] == "num" and old[1] == field[1] and old[3] == field[3]:
        x, y = old[2], field[2]
        if not (isinstance(x, Top) or isinstance(y, Top)):
            st.assume(("eq0", sub(x, y)), True)
            return o.with_(again=rest)
    st.event("stream lost", "read again in another form")
    return o.with_(again=())


NUM = {"u8": (1, False), "i8": (1, True), "u16": (2, False), "i16": (2, True), "u32": (4, False), "i32": (4, True),
       "u64": (8, False), "i64": (8, True), "u128": (16, False), "i128": (16, True)}


def endian(ip, c):
    for a in c.targs or []:
        if isinstance(a, int):
            t = ip.db.types[a]["text"]
            if "LittleEndian" in t:
                return "le"
            if "BigEndian" in t:
                return "be"
    return "le"


@model(r"byteorder::io::ReadBytesExt::read_(u8|i8|u16|i16|u32|i32|u64|i64|u128|i128)$")
def m_read_num(ip, st, c):
    k = c.trait.rsplit("read_", 1)[1]
    n, signed = NUM[k]

    def run(s):
        r = replay_num(ip, s, c, n, signed)
        if r is not None:
            return r
        v = atom(("v", ("r", s.fresh()), 8 * n, signed))
        if not consume(ip, s, c.args[0], ("num", n, v, endian(ip, c) if n > 1 else "le")):
            return lost(ip, s, c)
        return ok(c, v)
    return prim(ip, st, c, run)


@model(r"byteorder::io::ReadBytesExt::read_(f32|f64)$")
def m_read_flt(ip, st, c):
    n = 4 if c.trait.endswith("f32") else 8

    def run(s):
        v = replay_flt(ip, s, c, n, ok_type(ip, c))
        if v is not None:
            return ok(c, v)
        v = Sym(("r", s.fresh()), ok_type(ip, c))
        if not consume(ip, s, c.args[0], ("flt", n, v, endian(ip, c))):
            return lost(ip, s, c)
        return ok(c, v)
    return prim(ip, st, c, run)


@model(r"byteorder::io::ReadBytesExt::read_(u16|u32|u64|i16|i32|i64|f32|f64|u128|i128)_into$")
def m_read_into(ip, st, c):
    k = re.search(r"read_([uif]\d+)_into", c.trait).group(1)
    w = int(k[1:]) // 8

    def run(s):
        ref = last_ref(ip, s, c.args[1])
        buf = deref(ip, s, c.args[1])
        if isinstance(buf, Sym) and ip.db.types[buf.ty]["k"] == "array" and ip.db.types[buf.ty]["len"] <= 64:
            buf = Agg(buf.ty, 0, (None,) * ip.db.types[buf.ty]["len"])
        if ref is not None and isinstance(buf, Agg) and (buf.ty is None or ip.db.types[buf.ty]["k"] == "array"):
            vs = []
            for _ in buf.f:
                p = ip.db.types[ip.db.pointee(c.ats[1])]
                v = replay_flt(ip, s, c, w, p["t"]) if k[0] == "f" else replay_num(ip, s, c, w, k[0] == "i")
                if v is not None:
                    vs.append(v if k[0] == "f" else v.f[0])
                    continue
                if k[0] == "f":
                    v, what = Sym(("r", s.fresh()), p["t"]), "flt"
                else:
                    v, what = atom(("v", ("r", s.fresh()), 8 * w, k[0] == "i")), "num"
                if not consume(ip, s, c.args[0], (what, w, v, endian(ip, c))):
                    return lost(ip, s, c)
                vs.append(v)
            ip.store(s, ref.cell, ref.path, Agg(buf.ty, buf.var, tuple(vs)))
            return ok(c)
        if k[0] == "f":
            return lost(ip, s, c)
        if ref is None or not isinstance(buf, Seq):
            return lost(ip, s, c)
        n = ip.seq_len(s, buf)
        r = replay_bytes(ip, s, c.args[0], scale(n, w), "u16")
        if r is not None:
            term = r
        else:
            term = ("r", s.fresh())
            if not consume(ip, s, c.args[0], ("bytes", scale(n, w), term)):
                return lost(ip, s, c)
        if endian(ip, c) == "be":
            term = ("swapped", term)
        ip.store(s, ref.cell, ref.path, Seq((("u16" if w == 2 else "words", term, n),)))
        return ok(c)
    return prim(ip, st, c, run)


def lost(ip, st, c):
    st.event("unmodelled", c.defn)
    ip.unmodelled.setdefault("stream of " + c.trait, ip.loc(st, c.sp))
    return Agg(c.dt, 0, (ip.mk(st, ("lost", st.fresh()), ok_type(ip, c)),))


def replay_num(ip, st, c, n, signed):
    """Reading from a stream whose contents are given fields."""
    ref, o = stream(ip, st, c.args[0])
    if ref is None or not isinstance(o, Obj) or o.kind != "in" or o.get("replay") is None:
        return None
    rp = of_width(ip, st, without_empty(st, o["replay"]), n)
    if rp and rp[0][0] == "num" and rp[0][1] == n:
        v = rp[0][2]
        t = {"bits": 8 * n, "signed": signed}
        v = ip.fit(st, v, t) if is_int(v) else v
        if isinstance(v, Lin) and len(v.t) == 1:
            # a two's complement value read back in its own width
            (a, k), = v.t.items()
            if k == 1 and v.c == 0 and a[0] == "wrap" and a[2] == 8 * n:
                v = ip.fit(st, a[1], t)
        if rp[0][3] != (endian(ip, c) if n > 1 else "le"):
            st.event("replay mismatch", "byte order")
        ip.store(st, ref.cell, ref.path, o.with_(replay=rp[1:], fields=o["fields"] + (rp[0],)))
        return ok(c, v)
    st.event("replay mismatch", f"number of {n} bytes read, {rp[0][:2] if rp else 'nothing'} written")
    ip.store(st, ref.cell, ref.path, o.with_(replay=None))
    return None


def without_empty(st, fs):
    """Fields given, without leading lists known to be empty."""
    while fs and fs[0][0] == "loop" and st.norm(atom(("n", fs[0][1]))) == 0:
        fs = fs[1:]
    return fs


def of_width(ip, st, fs, n):
    """Fields beginning with a number of n bytes, made of narrower or parts of a wider one."""
    if fs and fs[0][0] == "flt" and fs[0][1] == n:
        return (("num", n, ip.float_bits(fs[0][2], n), fs[0][3]),) + fs[1:]
    if not fs or fs[0][0] != "num" or fs[0][1] == n or fs[0][3] != "le":
        return fs
    k, v, i = 0, 0, 0
    while k < n and i < len(fs) and fs[i][0] == "num" and fs[i][3] == "le" and is_int(fs[i][2]):
        x = ip.fit(st, st.norm(fs[i][2]), {"bits": 8 * fs[i][1], "signed": False})
        v = add(v, scale(x, 1 << 8 * k))
        k += fs[i][1]
        i += 1
    if k == n:
        return (("num", n, v, "le"),) + fs[i:]
    lo, hi = st.rng(v) if is_int(v) else (None, None)
    if i == 1 and k > n and lo is not None and hi is not None and 0 <= lo and (hi < 1 << 8 * n or lo == hi):
        a, b = (v, 0) if hi < 1 << 8 * n else (lo % (1 << 8 * n), lo >> 8 * n)
        return (("num", n, a, "le"), ("num", k - n, b, "le")) + fs[1:]
    return fs


def replay(ip, st, r, kind, n=None, order=None):
    """The next field of a stream whose contents are given; None: not such a stream, False: another field."""
    ref, o = stream(ip, st, r)
    if ref is None or not isinstance(o, Obj) or o.kind != "in" or o.get("replay") is None:
        return None
    rp = without_empty(st, o["replay"])
    if rp and rp[0][0] == kind and (n is None or rp[0][1] == n) and (order is None or rp[0][3] == order):
        ip.store(st, ref.cell, ref.path, o.with_(replay=rp[1:], fields=o["fields"] + (rp[0],)))
        return rp[0]
    st.event("replay mismatch", f"{kind} {n or ''} read, {rp[0][:2] if rp else 'nothing'} written")
    ip.store(st, ref.cell, ref.path, o.with_(replay=None))
    return False


def replay_flt(ip, st, c, n, ty):
    ref, o = stream(ip, st, c.args[0])
    if ref is not None and isinstance(o, Obj) and o.kind == "in" and o.get("replay"):
        rp = of_width(ip, st, without_empty(st, o["replay"]), n)
        if rp and rp[0][0] == "num" and rp[0][1] == n and is_int(rp[0][2]):
            v = st.norm(ip.fit(st, rp[0][2], {"bits": 8 * n, "signed": False}))
            ip.store(st, ref.cell, ref.path, o.with_(replay=(("flt", n, ip.float_of(v, ty), rp[0][3]),) + rp[1:]))
    f = replay(ip, st, c.args[0], "flt", n, endian(ip, c))
    return f[2] if f else None


def replay_type(ip, st, r):
    """The type name in front of a record that was written as a whole."""
    ref, o = stream(ip, st, r)
    if ref is None or not isinstance(o, Obj) or o.kind != "in" or not o.get("replay"):
        return None
    rp = without_empty(st, o["replay"])
    if not rp or rp[0][0] != "ntw" or rp[0][2] is not True:
        return None
    t = ("v", ("type of", rp[0][1]))
    ip.store(st, ref.cell, ref.path, o.with_(replay=(("ntw", rp[0][1], t),) + rp[1:]))
    return t


def replay_each(ip, st, r, n):
    """The next n bytes of a stream whose contents are given, where they are numbers."""
    ref, o = stream(ip, st, r)
    if ref is None or not isinstance(o, Obj) or o.kind != "in" or not o.get("replay"):
        return None
    rp = without_empty(st, o["replay"])
    out, i = [], 0
    while len(out) < n and i < len(rp) and rp[i][0] in ("num", "flt"):
        w = rp[i][1]
        v = ip.float_bits(rp[i][2], w) if rp[i][0] == "flt" else rp[i][2]
        if not is_int(v):
            return None
        v = ip.fit(st, v, {"bits": 8 * w, "signed": False})
        bs = [ip.byteof(v, k, w) for k in range(w)]
        out += bs[::-1] if rp[i][3] == "be" and w > 1 else bs
        i += 1
    if len(out) != n or not n:
        return None
    ip.store(st, ref.cell, ref.path, o.with_(replay=rp[i:], fields=o["fields"] + rp[:i]))
    return tuple(out)


def replay_bytes(ip, st, r, n, what):
    ref, o = stream(ip, st, r)
    if ref is None or not isinstance(o, Obj) or o.kind != "in" or o.get("replay") is None:
        return None
    rp = o["replay"]
    # consecutive byte fields making up n bytes
    if rp and rp[0][0] == "bytes":
        d = st.norm(sub(rp[0][1], n))
        if d == 0:
            ip.store(st, ref.cell, ref.path, o.with_(replay=rp[1:], fields=o["fields"] + (rp[0],)))
            return rp[0][2]
    if rp and rp[0][0] == "loop":
        d = st.norm(sub(size((rp[0],)), n))
        alts = rp[0][2]
        if d == 0 and len(alts) == 1 and len(alts[0][2]) == 1 and alts[0][2][0][0] == "num":
            v = alts[0][2][0][2]
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                (a, k), = v.t.items()
                if k == 1 and a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "byte" and a[1][2] == "*":
                    ip.store(st, ref.cell, ref.path, o.with_(replay=rp[1:], fields=o["fields"] + (rp[0],)))
                    return a[1][1]
    z = st.norm(n)
    if z == 0:
        return ("empty",)
    st.event("replay mismatch", f"{n!r} bytes read, {rp[0][:2] if rp else 'nothing'} written")
    ip.store(st, ref.cell, ref.path, o.with_(replay=None))
    return None


@model(r"byteorder::io::WriteBytesExt::write_(u8|i8|u16|i16|u32|i32|u64|i64|u128|i128)$")
def m_write_num(ip, st, c):
    k = c.trait.rsplit("write_", 1)[1]
    n, signed = NUM[k]

    def run(s):
        v = c.args[1]
        if not emit(ip, s, c.args[0], (("num", n, v, endian(ip, c) if n > 1 else "le"),)):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


@model(r"byteorder::io::WriteBytesExt::write_(f32|f64)$")
def m_write_flt(ip, st, c):
    n = 4 if c.trait.endswith("f32") else 8

    def run(s):
        if not emit(ip, s, c.args[0], (("flt", n, c.args[1], endian(ip, c)),)):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


def partition(ip, st, c, term, value):
    """Split the state on the constants the string read at this site is compared with."""
    site = (st.frames[-1].inst, c.sp, c.defn)
    ip.site_of[term] = site
    cs = ip.str_sites.get(site, ())
    outs = []
    for k in cs:
        s = st.clone()
        if s.assume(("streq", term, k), True):
            outs.append((s, value))
    for k in cs:
        if not st.assume(("streq", term, k), False):
            return outs
    outs.append((st, value))
    return outs


RX = r"(<.* as )?gvas::cursor_ext::ReadExt(>)?::"
WX = r"(<.* as )?gvas::cursor_ext::WriteExt(>)?::"


@model(RX + r"read_string$")
def m_read_string(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        t = replay_type(ip, s, c.args[0])
        if t is not None:
            return partition(ip, s, c, t, ok(c, Str(t)))
        f = replay(ip, s, c.args[0], "fstr")
        if f and f[1][0] == "some":
            return partition(ip, s, c, f[1][1], ok(c, Str(f[1][1]))) if not isinstance(f[1][1], str) else ok(c, Str(f[1][1]))
        if f:
            return lost(ip, s, c)
        t = ("v", ("r", s.fresh()))
        if not consume(ip, s, c.args[0], ("fstr", ("some", t))):
            return lost(ip, s, c)
        return partition(ip, s, c, t, ok(c, Str(t)))
    return prim(ip, st, c, run)


@model(RX + r"read_fstring$")
def m_read_fstring(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        f = replay(ip, s, c.args[0], "fstr")
        if f:
            x = f[1]
            return ok(c, Sym(x[1], ok_type(ip, c)) if x[0] == "opt" else
                      Agg(ok_type(ip, c), 0, ()) if x[0] == "none" else Agg(ok_type(ip, c), 1, (Str(x[1]),)))
        k = ("r", s.fresh())
        if not consume(ip, s, c.args[0], ("fstr", ("opt", k))):
            return lost(ip, s, c)
        t = ("v", ("f", k, 1, 0))
        site = (s.frames[-1].inst, c.sp, c.defn)
        ip.site_of[t] = site
        v = ok(c, Sym(k, ok_type(ip, c)))
        outs = []
        for x in ip.str_sites.get(site, ()):
            s2 = s.clone()
            if s2.assume(("isvar", k, 1, 2), True) and s2.assume(("streq", t, x), True):
                outs.append((s2, v))
        for x in ip.str_sites.get(site, ()):
            s.assume(("streq", t, x), False)
        outs.append((s, v))
        return outs
    return prim(ip, st, c, run)


@model(RX + r"read_guid$")
def m_read_guid(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        f = replay(ip, s, c.args[0], "bytes", 16)
        if f:
            ty = ok_type(ip, c)
            return ok(c, Agg(ty, 0, (Sym(f[2], ip.field_types(ty, 0)[0]),)))
        k = ("r", s.fresh())
        g = Sym(k, ok_type(ip, c))
        arr = ip.proj(s, g, ("f", 0, 0))
        if not isinstance(arr, Sym) or not consume(ip, s, c.args[0], ("bytes", 16, arr.key)):
            return lost(ip, s, c)
        return ok(c, g)
    return prim(ip, st, c, run)


@model(RX + r"read_(bool|b32)$")
def m_read_bool(ip, st, c):
    if not ip.cut:
        return inline()
    n = 1 if c.trait.endswith("bool") else 4

    def run(s):
        f = replay(ip, s, c.args[0], "num", n)
        if f:
            x = s.norm(f[2]) if is_int(f[2]) else None
            if isinstance(x, int) and x in (0, 1):
                return ok(c, x == 1)
            if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1:
                (a, k), = x.t.items()
                if k == 1 and a[0] == "b2i":
                    return ok(c, a[1])
            return lost(ip, s, c)
        b = ("bv", ("r", s.fresh()))
        if not consume(ip, s, c.args[0], ("num", n, atom(("b2i", b)), "le")):
            return lost(ip, s, c)
        return ok(c, b)
    return prim(ip, st, c, run)


@model(RX + r"read_enum$")
def m_read_enum(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        f = replay(ip, s, c.args[0], "num", 1)
        if f:
            ty = ok_type(ip, c)
            x = s.norm(f[2]) if is_int(f[2]) else None
            if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1:
                (a, k), = x.t.items()
                if k == 1 and a[0] == "disc" and a[2] == ip.discs(ty):
                    return ok(c, Sym(a[1], ty))
            elif isinstance(x, int) and x in ip.discs(ty):
                return ok(c, Agg(ty, ip.discs(ty).index(x), ()))
            return lost(ip, s, c)
        k = ("r", s.fresh())
        ty = ok_type(ip, c)
        if not consume(ip, s, c.args[0], ("num", 1, atom(("disc", k, ip.discs(ty))), "le")):
            return lost(ip, s, c)
        return ok(c, Sym(k, ty))
    return prim(ip, st, c, run)


@model(WX + r"write_string$")
def m_write_string(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        v = as_str(ip, s, c.args[1])
        if v is None:
            return lost(ip, s, c)
        o = ("some", v.t)
        if not emit(ip, s, c.args[0], (("fstr", o),)):
            return lost(ip, s, c)
        return ok(c, opt_size(o))
    return prim(ip, st, c, run)


@model(WX + r"write_fstring$")
def m_write_fstring(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        v = c.args[1]
        if isinstance(v, Sym):
            o = ("opt", v.key)
        elif isinstance(v, Agg) and v.var == 0:
            o = ("none",)
        elif isinstance(v, Agg):
            x = as_str(ip, s, v.f[0])
            if x is None:
                return lost(ip, s, c)
            o = ("some", x.t)
        else:
            return lost(ip, s, c)
        if not emit(ip, s, c.args[0], (("fstr", o),)):
            return lost(ip, s, c)
        return ok(c, opt_size(o))
    return prim(ip, st, c, run)


def guid_field(ip, st, v):
    v = deref(ip, st, v)
    if isinstance(v, (Sym, Agg)) and (not isinstance(v, Sym) or ip.db.types[v.ty]["k"] != "array"):
        v = ip.proj(st, v, ("f", 0, 0))
    return array_fields(ip, st, v)


def array_fields(ip, st, v):
    """Fields for the bytes of an array, slice, vector or string."""
    if isinstance(v, Sym) and ip.db.types[v.ty]["k"] == "array":
        return (("bytes", ip.db.types[v.ty]["len"], v.key),)
    if isinstance(v, Agg):
        ks = [is_byte_of(x) for x in v.f]
        if ks and ks[0] is not None and all(k is not None and k[0] == ks[0][0] and k[1] == i for i, k in enumerate(ks)):
            return (("bytes", len(v.f), ks[0][0]),)
        return tuple(("num", 1, x, "le") for x in v.f)
    if isinstance(v, Str):
        if isinstance(v.t, str):
            return tuple(("num", 1, b, "le") for b in v.t.encode())
        return (("bytes", atom(("blen", v.t)), ("utf8", v.t)),)
    if isinstance(v, Seq):
        out = ()
        for p in v.parts:
            if p[0] == "one":
                out += (("num", 1, p[1], "le"),)
            elif p[0] == "fields":
                out += p[1]
            elif p[0] == "bytes":
                out += (("bytes", p[2], p[1]),)
            elif p[0] == "sym":
                out += (("bytes", atom(("n", ("S", p[1]))), p[1]),)
            elif p[0] == "rep" and isinstance(p[2], int) and p[2] <= 64:
                out += (("num", 1, p[1], "le"),) * p[2]
            elif p[0] == "loop":
                alts = []
                for j, d, ps in p[2]:
                    fs = array_fields(ip, st, Seq(ps))
                    if fs is None:
                        return None
                    alts.append((j, d, fs))
                out += (("loop", p[1], tuple(alts)),)
            else:
                return None
        return out
    return None


def is_byte_of(x):
    """(array key, index) if x is an element of a symbolic byte array."""
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1:
        (a, k), = x.t.items()
        if k == 1 and a[0] == "v" and isinstance(a[1], tuple) and a[1][0] == "f" and a[1][2] == "i":
            return a[1][1], a[1][3]
    return None


@model(WX + r"write_guid$")
def m_write_guid(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        fs = guid_field(ip, s, c.args[1])
        if fs is None or not emit(ip, s, c.args[0], fs):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


@model(WX + r"write_(bool|b32)$")
def m_write_bool(ip, st, c):
    if not ip.cut:
        return inline()
    n = 1 if c.trait.endswith("bool") else 4

    def run(s):
        v = s.simp(c.args[1]) if isinstance(c.args[1], (bool, tuple)) else c.args[1]
        x = (1 if v else 0) if isinstance(v, bool) else atom(("b2i", v)) if isinstance(v, tuple) else v
        if not emit(ip, s, c.args[0], (("num", n, x, "le"),)):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


@model(WX + r"write_enum$")
def m_write_enum(ip, st, c):
    if not ip.cut:
        return inline()

    def run(s):
        v = deref(ip, s, c.args[1])
        d = ip.discriminant(s, v, c.ats[1]) if isinstance(v, (Agg, Sym)) else v
        if not emit(ip, s, c.args[0], (("num", 1, d, "le"),)):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


@model(r"std::io::Write::write_all$", r".*(std::io::Write for|as std::io::Write>::write_all).*")
def m_write_all(ip, st, c):
    if not c.trait.endswith("write_all"):
        return inline()

    def run(s):
        fs = array_fields(ip, s, deref(ip, s, c.args[1]))
        if fs is None or not emit(ip, s, c.args[0], fs):
            return lost(ip, s, c)
        return ok(c)
    return prim(ip, st, c, run)


@model(r"std::io::Write::write$")
def m_write(ip, st, c):
    """A plain write may be short: the number of bytes taken is not known."""
    def run(s):
        buf = deref(ip, s, c.args[1])
        n = ip.seq_len(s, buf) if isinstance(buf, (Seq, Agg, Sym, Str)) else None
        w = atom(("nwrite", s.fresh()))
        k = ("short", s.n)
        if not emit(ip, s, c.args[0], (("bytes", w, k),)):
            return lost(ip, s, c)
        s.event("short write", w, n, ip.loc(s, c.sp), ip.crate_fn(s))
        return ok(c, w)
    return prim(ip, st, c, run)


@model(r"std::io::Write::flush$")
def m_flush(ip, st, c):
    def run(s):
        flushed(ip, s, c.args[0])
        return ok(c)
    return prim(ip, st, c, run)


def flushed(ip, s, w):
    via = []
    stream(ip, s, w, via)
    for b in via:
        if b.kind == "bufw":
            s.event("flushed", b["id"])


@model(r"std::io::(BufReader|BufWriter|LineWriter)::<.>::(new|with_capacity)$")
def m_buffer(ip, st, c):
    v = c.args[-1]
    if isinstance(v, Obj) and v.kind != "cur":
        v = tmp(ip, st, v)
    if not isinstance(v, (Ref, Obj)):
        return Top("buffer over an unknown stream")
    return Obj("bufr" if "BufReader" in c.trait else "bufw", inner=v, id=st.fresh(), loc=ip.loc(st, c.sp), fn=ip.crate_fn(st))


@model(r"std::io::(BufReader|BufWriter|LineWriter)::<.>::(get_ref|get_mut|into_inner)$")
def m_buffer_inner(ip, st, c):
    v = deref(ip, st, c.args[0])
    if not isinstance(v, Obj) or v.kind not in ("bufr", "bufw"):
        return lost(ip, st, c)
    inner = v["inner"]
    if not c.trait.endswith("into_inner"):
        return inner if isinstance(inner, Ref) else tmp(ip, st, inner)
    if isinstance(inner, Ref) and inner.cell[0] == "tmp":
        inner = ip.load(st, inner.cell, inner.path)
    if v.kind == "bufr":
        return inner

    def run(s):
        s.event("flushed", v["id"])
        return ok(c, inner)
    return prim(ip, st, c, run)


def of_bytes(ip, buf):
    """Is this a buffer of bytes, not other numbers looked at as bytes?"""
    if isinstance(buf, Seq):
        return not any(p[0] in ("u16", "words") or p[0] == "one" and not is_int(p[1]) for p in buf.parts)
    if buf.ty is None:
        return all(is_int(x) for x in buf.f)
    t = ip.db.types[buf.ty]
    return t["k"] not in ("array", "slice") or ip.db.types[t["t"]]["k"] == "int" and ip.db.types[t["t"]]["bits"] == 8


@model(r"std::io::(Write|Read)::by_ref$")
def m_by_ref(ip, st, c):
    return c.args[0]


@model(r"std::io::Read::read_exact$")
def m_read_exact(ip, st, c):
    def run(s):
        ref = last_ref(ip, s, c.args[1])
        buf = deref(ip, s, c.args[1])
        if ref is None or not isinstance(buf, (Seq, Agg, Sym)) or not of_bytes(ip, buf):
            return lost(ip, s, c)
        n = ip.seq_len(s, buf)
        bs = replay_each(ip, s, c.args[0], n) if isinstance(n, int) else None
        if bs is not None:
            v = Seq(tuple(("one", b) for b in bs)) if isinstance(buf, Seq) else Agg(buf.ty, 0, bs)
            ip.store(s, ref.cell, ref.path, v)
            return ok(c)
        r = replay_bytes(ip, s, c.args[0], n, "u8")
        if r is not None:
            term = r
        else:
            term = ("r", s.fresh())
            if not consume(ip, s, c.args[0], ("bytes", n, term)):
                return lost(ip, s, c)
        if isinstance(buf, Seq):
            v = Seq((("bytes", term, n),))
        else:
            v = Sym(term, buf.ty)
        ip.store(s, ref.cell, ref.path, v)
        return ok(c)
    return prim(ip, st, c, run)


@model(r"std::io::Read::read$")
def m_read(ip, st, c):
    """A plain read may be short."""
    def run(s):
        ref = last_ref(ip, s, c.args[1])
        buf = deref(ip, s, c.args[1])
        if ref is None:
            return lost(ip, s, c)
        n = atom(("nread", s.fresh()))
        term = ("r", s.n)
        consume(ip, s, c.args[0], ("bytes", n, term))
        s.event("short read", n, ip.seq_len(s, buf) if isinstance(buf, (Seq, Agg, Sym)) else None, ip.loc(s, c.sp), ip.crate_fn(s))
        if isinstance(buf, Seq):
            ip.store(s, ref.cell, ref.path, Seq((("bytes", term, ip.seq_len(s, buf)),)))
        elif isinstance(buf, (Agg, Sym)):
            ip.store(s, ref.cell, ref.path, Sym(term, buf.ty))
        return ok(c, n)
    return prim(ip, st, c, run)


@model(r"std::io::Read::take$")
def m_take(ip, st, c):
    v = c.args[0]
    if isinstance(v, Obj) and v.kind == "zdec":
        v = tmp(ip, st, v)
    return Obj("take", inner=v, limit=c.args[1])


@model(r"std::io::Read::read_to_end$")
def m_read_to_end(ip, st, c):
    def run(s):
        ref = last_ref(ip, s, c.args[1])
        buf = deref(ip, s, c.args[1])
        sref, o = stream(ip, s, c.args[0])
        limit = None
        if isinstance(o, Obj) and o.kind == "take":
            limit = o["limit"]
            sref, o = stream(ip, s, o["inner"])
        layers = 0
        while isinstance(o, Obj) and o.kind == "zdec":
            layers += 1
            sref, o = stream(ip, s, o["inner"])
        if ref is None or sref is None or not isinstance(o, Obj) or o.kind != "in" or not isinstance(buf, Seq):
            return lost(ip, s, c)
        k = s.fresh()
        if o.get("replay") is not None and limit is None and not layers and not buf.parts:
            # all that is given goes into a buffer
            rp = o["replay"]
            s.vars[("given", k)] = rp
            ip.store(s, sref.cell, sref.path, o.with_(replay=(), fields=o["fields"] + rp))
            n = size(rp)
            ip.store(s, ref.cell, ref.path, Seq((("bytes", ("given", k), n),)))
            return ok(c, n)
        term = ("z", layers, k) if layers else ("rest", k) if limit is None else ("r", k)
        n = atom(("nread", k))
        if limit is not None:
            s.facts.rng[("nread", k)] = (0, s.rng(limit)[1])
            s.assume_ge0(sub(limit, n))
            s.event("limited read", n, limit, ip.loc(s, c.sp), ip.crate_fn(s))
        f = ("bytes", n, term) if not layers else ("zrest", layers, term, n)
        ip.store(s, sref.cell, sref.path, o.with_(fields=o["fields"] + (f,)))
        s.event("grow", ip.loc(s, c.sp), "read_to_end")
        ip.store(s, ref.cell, ref.path, Seq(buf.parts + (("bytes", term, n),)))
        return ok(c, n)
    return prim(ip, st, c, run)


@model(r"std::io::Seek::(stream_position)$")
def m_position(ip, st, c):
    def run(s):
        ref, o = stream(ip, s, c.args[0])
        if ref is None or not isinstance(o, Obj) or o.kind not in ("in", "out"):
            return lost(ip, s, c)
        p = None if o.get("away") else position(o)
        flushed(ip, s, c.args[0])
        return ok(c, p if p is not None else atom(("rng", ("pos", s.fresh()), 0, HUGE)))
    return prim(ip, st, c, run)


@model(r"std::io::Seek::(seek|seek_relative|rewind)$")
def m_seek(ip, st, c):
    how = c.trait.rsplit("::", 1)[1]

    def run(s):
        ref, o = stream(ip, s, c.args[0])
        if ref is None or not isinstance(o, Obj) or o.kind not in ("in", "out"):
            return lost(ip, s, c)
        flushed(ip, s, c.args[0])
        here = None if o.get("away") else position(o)
        to = None
        if how == "rewind":
            to = 0
        elif how == "seek_relative":
            to = add(here, c.args[1]) if here is not None and is_int(c.args[1]) else None
        elif isinstance(c.args[1], Agg) and is_int(c.args[1].f[0]):
            v = c.args[1]
            to = v.f[0] if v.var == 0 else add(here, v.f[0]) if v.var == 2 and here is not None else None
        here = position(o)
        if to is not None and here is not None:
            o2 = move(ip, s, o, s.norm(sub(to, here)), c)
            if o2 is not None:
                ip.store(s, ref.cell, ref.path, o2.with_(away=None))
                s.event("moved", ref.cell, ip.loc(s, c.sp))
                return ok(c, to if how == "seek" else UNIT)
        ip.store(s, ref.cell, ref.path, away(ip, s, o, c, to, "End" if how == "seek" and isinstance(c.args[1], Agg) and c.args[1].var == 1
                                             else None))
        if to is None and here is not None and how == "seek" and isinstance(c.args[1], Agg) and c.args[1].var == 1 and c.args[1].f[0] == 0:
            to = add(here, atom(("rng", ("left", s.fresh()), 0, HUGE)))
        if to is None:
            to = atom(("rng", ("pos", s.fresh()), 0, HUGE))
        return ok(c, to if how == "seek" else UNIT)
    return prim(ip, st, c, run)


def away(ip, s, o, c, to, end=None):
    """The stream set to a place that is not between two of its fields: (where, function, place, start, place behind the last field)."""
    ip.unmodelled.setdefault("seek", ip.loc(s, c.sp))
    try:
        last = add(o.get("pos0", 0), size(o["fields"]))
    except KeyError:
        last = None
    return o.with_(away=(ip.loc(s, c.sp), ip.crate_fn(s), end or to, last))


def elsewhere(ip, st, ref, o):
    """The stream is used after it was set to a place not known."""
    st.event("elsewhere", ref.cell, *o["away"])
    return o.with_(fields=o["fields"] + (("lost" if o.kind == "out" else "seek", st.fresh()),), away=None, again=None,
                   **({"at": None} if o.kind == "out" else {}))


@model(r"std::io::Cursor::<T>::set_position$")
def m_cursor_set(ip, st, c):
    ref, o = stream(ip, st, c.args[0])
    if ref is None or not isinstance(o, Obj) or o.kind not in ("in", "out"):
        return inline()
    to, here = c.args[1], position(o)
    o2 = move(ip, st, o, st.norm(sub(to, here)), c) if is_int(to) and here is not None else None
    if o2 is not None:
        ip.store(st, ref.cell, ref.path, o2.with_(away=None))
    else:
        ip.store(st, ref.cell, ref.path, away(ip, st, o, c, to if is_int(to) else None))
    return UNIT


def position(o):
    fs = o["fields"]
    if o.kind == "out" and o.get("at") is not None:
        fs = fs[:o["at"]]
    try:
        return add(o.get("pos0", 0), size(fs))
    except KeyError:
        return None


def move(ip, s, o, by, c):
    """The stream moved by a number of bytes, if that ends between two fields; bytes jumped over are not looked at."""
    if by == 0:
        return o
    fs = o["fields"]
    if o.kind == "out":
        at = len(fs) if o.get("at") is None else o["at"]
        here, n = size(fs[:at]), 0
        for i in range(len(fs) + 1):
            if s.norm(sub(sub(n, here), by)) == 0:
                return o.with_(at=None if i == len(fs) else i)
            if i < len(fs):
                n = add(n, size((fs[i],)))
        return None
    n = 0
    for i in range(len(fs) - 1, -1, -1):
        if fs[i][0] in ("phi", "seek", "lost"):
            break
        n = add(n, size((fs[i],)))
        if s.norm(add(n, by)) == 0:
            if o.get("replay") is not None:
                return o.with_(fields=fs[:i], replay=fs[i:] + tuple(o["replay"]))
            return o.with_(fields=fs[:i], again=fs[i:] + tuple(o.get("again") or ()))
    if s.rng(by)[0] < 0:
        return None
    if o.get("replay") is not None:
        n = 0
        for i, f in enumerate(o["replay"]):
            n = add(n, size((f,)))
            if s.norm(sub(n, by)) == 0:
                return o.with_(fields=fs + o["replay"][:i + 1], replay=o["replay"][i + 1:])
        return None
    n, again = 0, tuple(o.get("again") or ())
    for i, f in enumerate(again):
        n = add(n, size((f,)))
        if s.norm(sub(n, by)) == 0:
            return o.with_(fields=fs + again[:i + 1], again=again[i + 1:])
    if again:
        return None
    f = ("bytes", by, ("skip", s.fresh()))
    note_field(ip, s, f)
    s.event("skipped", by, ip.loc(s, c.sp), ip.crate_fn(s))
    return o.with_(fields=fs + (f,))


@model(r"std::io::Cursor::<T>::new$")
def m_cursor_new(ip, st, c):
    v = c.args[0]
    x = deref(ip, st, v)
    if isinstance(x, Seq):
        if not x.parts:
            return Obj("out", fields=(), mem=True, pos0=0)
        if len(x.parts) == 1 and x.parts[0][0] == "bytes":
            p = x.parts[0]
            cell = ("stream", p[1])
            if cell not in st.cells:
                st.cells[cell] = Obj("in", fields=(), pos0=0, src=p, replay=st.vars.get(p[1]))
            return Obj("cur", cell=cell)
    if isinstance(x, Sym):
        cell = ("stream", x.key)
        st.cells[cell] = Obj("in", fields=(), pos0=0, src=("bytes", x.key, ip.seq_len(st, x)))
        return Obj("cur", cell=cell)
    return Top("cursor")


@model(r"std::io::Cursor::<T>::(get_ref|into_inner|get_mut)$")
def m_cursor_inner(ip, st, c):
    ref, o = stream(ip, st, c.args[0])
    if o is None or ref is None:
        o = c.args[0] if isinstance(c.args[0], Obj) else o
    if isinstance(o, Obj) and o.kind == "out":
        v = Seq((("fields", o["fields"]),) if o["fields"] else ())
        return v if c.trait.endswith("into_inner") else tmp(ip, st, v)
    if isinstance(o, Obj) and o.kind == "in" and o.get("src"):
        v = Seq((o["src"],))
        return v if c.trait.endswith("into_inner") else tmp(ip, st, v)
    return Top("cursor contents")


@model(r"std::io::Cursor::<T>::position$")
def m_cursor_pos(ip, st, c):
    ref, o = stream(ip, st, c.args[0])
    if isinstance(o, Obj) and o.kind in ("in", "out") and not o.get("away"):
        p = position(o)
        if p is not None:
            return p
    return atom(("rng", ("pos", st.fresh()), 0, HUGE))


# compression
@model(r"flate2::.*ZlibDecoder::<R>::new$")
def m_zdec(ip, st, c):
    v = c.args[0]
    if isinstance(v, Obj):
        v = tmp(ip, st, v)
    return Obj("zdec", inner=v)


@model(r"flate2::.*(Deflate|Gz)(Decoder|Encoder)::<.>::new$")
def m_otherz(ip, st, c):
    return Top("other compression format")


@model(r"flate2::.*ZlibEncoder::<W>::new$")
def m_zenc(ip, st, c):
    return Obj("zenc", inner=c.args[0], fields=(), id=st.fresh(), done=False)


def zflush(ip, st, o):
    """Finish an encoder: its fields go compressed into the inner writer."""
    if o["done"]:
        return o
    f = ("zlib", o["id"], o["fields"])
    inner = o["inner"]
    if isinstance(inner, Seq) or isinstance(inner, Obj) and inner.kind in ("out", "zenc"):
        inner = emit_to(ip, st, inner, (f,))
    elif not emit(ip, st, inner, (f,)):
        st.event("unmodelled", "compressed data")
    return o.with_(inner=inner, done=True)


@model(r"flate2::.*ZlibEncoder::<W>::(try_finish|finish|flush_finish)$")
def m_zfinish(ip, st, c):
    def run(s):
        if c.trait.endswith("try_finish"):
            ref, o = stream(ip, s, c.args[0])
            if ref is None or not isinstance(o, Obj) or o.kind != "zenc":
                return lost(ip, s, c)
            ip.store(s, ref.cell, ref.path, zflush(ip, s, o))
            s.event("finished encoder", ip.loc(s, c.sp))
            return ok(c)
        o = c.args[0]
        if not isinstance(o, Obj) or o.kind != "zenc":
            return lost(ip, s, c)
        o = zflush(ip, s, o)
        s.event("finished encoder", ip.loc(s, c.sp))
        return ok(c, o["inner"])
    return prim(ip, st, c, run)


@model(r"flate2::.*ZlibEncoder::<W>::(total_out|total_in)$")
def m_ztotal(ip, st, c):
    ref, o = stream(ip, st, c.args[0])
    if not isinstance(o, Obj) or o.kind != "zenc":
        return Top("total")
    if c.trait.endswith("total_in"):
        return size(o["fields"])
    return atom(("clen" if o["done"] else "clen part", o["id"]))


def zenc_dropped(ip, st, ref, v, sp):
    """Dropping an unfinished encoder finishes it but ignores errors."""
    o = zflush(ip, st, v)
    st.event("unfinished encoder", ip.loc(st, sp), ip.crate_fn(st))
    if isinstance(o["inner"], Obj) and o["inner"].kind == "zenc" and not o["inner"]["done"]:
        zflush(ip, st, o["inner"])


@model(r"flate2::Compression::.*", r"<flate2::Compression as .*>::default")
def m_level(ip, st, c):
    return Obj("level", l=c.args[0] if c.args else None)


# ---- results and options ----------------------------------------------------------------------
@model(r"<std::result::Result<T, E> as std::ops::Try>::branch$")
def m_branch(ip, st, c):
    v = c.args[0]
    if isinstance(v, Agg):
        if v.var == 0:
            return Agg(c.dt, 0, (v.f[0],))
        return Agg(c.dt, 1, (Agg(None, 1, (v.f[0],)),))
    if isinstance(v, Sym):
        out = []
        for s, b in ip.decide(st, ("isvar", v.key, 0, 2)):
            out.append((s, Agg(c.dt, 0 if b else 1, (ip.proj(s, v, ("f", 0, 0)) if b else
                                                     Agg(None, 1, (ip.proj(s, v, ("f", 1, 0)),)),))))
        return out
    return inline()


@model(r"<std::option::Option<T> as std::ops::Try>::branch$")
def m_obranch(ip, st, c):
    v = c.args[0]
    if isinstance(v, Agg):
        return Agg(c.dt, 0, (v.f[0],)) if v.var == 1 else Agg(c.dt, 1, (Agg(None, 0, ()),))
    return inline()


@model(r"std::option::Option::<T>::(as_deref|as_ref|as_mut|as_deref_mut)$")
def m_as_deref(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if isinstance(v, Sym):
        t = ip.db.types[v.ty]
        inner = ip.db.types[t["args"][0]] if t["k"] == "adt" and t["args"] else None
        if inner is not None and (inner["text"].endswith("string::String") or inner["k"] == "str"):
            return Sym(v.key, c.dt)
    if isinstance(v, Agg):
        if v.var == 0:
            return none(c)
        x = v.f[0]
        if isinstance(x, (Str, Ref)) and c.trait.endswith("as_deref"):
            return some(c, x)
        if ref is not None:
            return some(c, Ref(ref.cell, ref.path + (("f", 1, 0),)))
        return some(c, tmp(ip, st, x))
    return inline()


@model(r"std::option::Option::<T>::is_(some|none)$")
def m_is_some(ip, st, c):
    v = deref(ip, st, c.args[0])
    want = c.trait.endswith("some")
    if isinstance(v, Agg):
        return (v.var == 1) == want
    if isinstance(v, Sym):
        b = st.simp(("isvar", v.key, 1, 2))
        return b if want else st.simp(("not", b))
    return inline()


# ---- strings ----------------------------------------------------------------------------------
@model(r"<std::string::String as std::ops::Deref(Mut)?>::deref", r"std::string::String::(as_str|into_boxed_str|as_mut_str|into_bytes_not)$",
       r"<std::string::String as std::convert::(AsRef|From)<.*", r"<std::boxed::Box<str> as .*", r"<.*str as .*ToOwned>::to_owned",
       r"std::str::<impl .*for str>::to_owned", r"core::str::<impl str>::(as_str|to_owned)",
       r"std::str::<impl str>::(to_owned|into_string|into_boxed_str)", r"<std::string::String as std::borrow::Borrow<str>>::borrow",
       r".*impl std::convert::AsRef<str> for str.*", r"<str as std::convert::AsRef.*", r"<std::string::String as std::str::FromStr>::nothing")
def m_str_id(ip, st, c):
    v = as_str(ip, st, c.args[0])
    return v if v is not None else inline()


@model(r"std::convert::(From::from|Into::into|AsRef::as_ref)$", r".*std::convert::(From<&str>|From<std::string::String>) for.*")
def m_convert(ip, st, c):
    """Conversions between string types keep the text."""
    if c.info is not None and c.info["crate"] in ("gvas", "vroots"):
        return inline()
    v = as_str(ip, st, c.args[0])
    t = ip.db.types[c.dt] if c.dt is not None else None
    if v is None or t is None:
        return inline()
    if t["k"] == "ref":
        t = ip.db.types[t["t"]]
    if t["k"] == "str" or t["k"] == "adt" and (t["name"].endswith("string::String") or t["box"] and
                                               ip.db.types[t["args"][0]]["k"] == "str"):
        return v
    return inline()


@model(r"std::borrow::ToOwned::to_owned$")
def m_to_owned(ip, st, c):
    return deref1(ip, st, c.args[0])


def deref1(ip, st, v):
    """One level of dereferencing, keeping strings."""
    if isinstance(v, Ref):
        return ip.load(st, v.cell, v.path)
    return v


@model(r"std::string::ToString::to_string$", r".*std::string::(ToString|SpecToString)>?::.*to_string$")
def m_to_string(ip, st, c):
    v = as_str(ip, st, c.args[0])
    if v is not None:
        return v
    x = deref(ip, st, c.args[0])
    return Str(("tostr", hashed(x)))


def hashed(x):
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


@model(r"std::string::String::new$")
def m_string_new(ip, st, c):
    return Str("")


@model(r"<std::string::String as std::default::Default>::default$")
def m_string_default(ip, st, c):
    return Str("")


@model(r"core::str::<impl str>::len$", r"std::string::String::len$")
def m_str_len(ip, st, c):
    v = as_str(ip, st, c.args[0])
    return ip.seq_len(st, v) if v is not None else inline()


@model(r"core::str::<impl str>::is_empty$", r"std::string::String::is_empty$")
def m_str_empty(ip, st, c):
    v = as_str(ip, st, c.args[0])
    return st.simp(("streq", v.t, "")) if v is not None else inline()


@model(r"core::str::<impl str>::is_ascii$")
def m_is_ascii(ip, st, c):
    v = as_str(ip, st, c.args[0])
    if v is None:
        return inline()
    if isinstance(v.t, str):
        return v.t.isascii()
    return st.simp(("ascii", v.t))


@model(r"core::str::<impl str>::(as_bytes)$", r"std::string::String::(as_bytes|into_bytes)$")
def m_as_bytes(ip, st, c):
    v = as_str(ip, st, c.args[0])
    if v is None:
        return inline()
    if isinstance(v.t, str):
        s = Seq(tuple(("one", b) for b in v.t.encode()))
    else:
        s = Seq((("bytes", ("utf8", v.t), atom(("blen", v.t))),))
    return s if c.trait.endswith("into_bytes") else tmp(ip, st, s)


@model(r"core::str::<impl str>::encode_utf16$")
def m_utf16(ip, st, c):
    v = as_str(ip, st, c.args[0])
    if v is None or isinstance(v.t, str):
        if v is not None:
            b = v.t.encode("utf-16-le")
            return Obj("iter", base=("seq", tuple(("one", b[i] + 256 * b[i + 1]) for i in range(0, len(b), 2)), "val"), ops=())
        return inline()
    return Obj("iter", base=("seq", (("u16", ("utf16", v.t), atom(("u16len", v.t))),), "val"), ops=())


@model(r"std::string::String::from_utf(8|16)(_lossy)?$")
def m_from_utf(ip, st, c):
    v = deref(ip, st, c.args[0])
    w = "utf16" if "from_utf16" in c.trait else "utf8"
    if not isinstance(v, Seq):
        return inline()
    if not v.parts:
        return ok(c, Str(""))
    if len(v.parts) != 1 or v.parts[0][0] not in ("bytes", "u16"):
        return inline()
    term = v.parts[0][1]
    if term == ("empty",):
        return ok(c, Str(""))
    if isinstance(term, tuple) and term[0] in ("utf8", "utf16") and len(term) == 2:
        if term[0] == w:
            return ok(c, Str(term[1]))
        if term[0] == "utf8" and w == "utf16":
            st.event("replay mismatch", "encoding")
    if c.trait.endswith("lossy"):
        st.event("lossy", "from_utf lossy")
        return Str(("lossy", term))
    b = ("valid" + w, term)
    outs = []
    s2 = st.clone()
    if st.assume(b, True):
        outs.append((st, ok(c, Str(("dec", w, term)))))
    if s2.assume(b, False):
        outs.append((s2, err(c, Sym(("decerr", s2.fresh()), ip.db.types[c.dt]["args"][1]))))
    return outs


@model(r"std::string::String::from_utf16$")
def m_unused(ip, st, c):
    return inline()


@model(r"core::str::<impl str>::(trim|strip_prefix|strip_suffix|replace|to_lowercase|to_uppercase|trim_.*|to_ascii_.*case)$",
       r"std::str::<impl str>::(replace|to_lowercase|to_uppercase|to_ascii_.*|repeat|replacen)$")
def m_str_ops(ip, st, c):
    vs = [as_str(ip, st, a) for a in c.args]
    v = vs[0]
    if v is None:
        return inline()
    name = c.trait.rsplit("::", 1)[1]
    rest = []
    for a, s in zip(c.args[1:], vs[1:]):
        a = deref(ip, st, a)
        if s is not None and isinstance(s.t, str):
            rest.append(s.t)
        elif isinstance(a, int) and c.ats and ip.db.types[c.ats[1]]["k"] == "char" and a is c.args[1]:
            rest.append(chr(a))
        else:
            rest.append(None)
    if isinstance(v.t, str) and None not in rest:
        x = v.t
        if name == "trim":
            return Str(x.strip())
        if name == "replace" and len(rest) == 2:
            return Str(x.replace(rest[0], rest[1]))
        if name == "strip_prefix":
            return some(c, Str(x[len(rest[0]):])) if x.startswith(rest[0]) else none(c)
        if name == "strip_suffix":
            return some(c, Str(x[:-len(rest[0])])) if x.endswith(rest[0]) else none(c)
        if name == "to_lowercase":
            return Str(x.lower())
        if name == "to_uppercase":
            return Str(x.upper())
    t = ("sop", name, v.t, tuple(repr(a) for a in rest))
    if name.startswith("strip_"):
        k = ("sopt", t)
        return Sym(k, c.dt)
    return Str(t)


@model(r"std::slice::<impl \[T\]>::(join|concat)$", r"<\[.\] as std::slice::Join<.*>::join$")
def m_join(ip, st, c):
    v = deref(ip, st, c.args[0])
    sep = as_str(ip, st, c.args[1]) if len(c.args) > 1 else Str("")
    if isinstance(v, Agg):
        v = Seq(tuple(("one", x) for x in v.f))
    if isinstance(v, Seq) and sep is not None:
        ps = []
        for p in v.parts:
            if p[0] == "one":
                s = as_str(ip, st, p[1])
                ps.append(("one", s.t if s is not None else "?"))
            else:
                ps.append(p)
        return Str(("join", tuple(ps), sep.t))
    return Str(("v", ("join", st.fresh())))


@model(r"<std::string::String as std::clone::Clone>::clone$")
def m_str_clone(ip, st, c):
    return as_str(ip, st, c.args[0]) or inline()


# comparison
def str_eq(ip, st, c, a, b, ne=False):
    x, y = as_str(ip, st, a), as_str(ip, st, b)
    if x is None or y is None:
        return None
    r = st.simp(("streq", x.t, y.t)) if x.t != y.t else True
    if ne:
        return (not r) if isinstance(r, bool) else ("not", r)
    return r


@model(r"core::str::<impl str>::eq_ignore_ascii_case$")
def m_str_eq_ic(ip, st, c):
    x, y = as_str(ip, st, c.args[0]), as_str(ip, st, c.args[1])
    if x is None or y is None:
        return inline()
    a, b = st.str_norm(x.t), st.str_norm(y.t)
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower() if a.isascii() and b.isascii() else ("app", "streqic", a, b)
    return True if a == b else ("streqic", a, b)


@model(r"std::cmp::PartialEq::(eq|ne)$")
def m_eq(ip, st, c):
    ne = c.trait.endswith("::ne")
    r = str_eq(ip, st, c, c.args[0], c.args[1], ne)
    if r is not None:
        return r
    a, b = deref(ip, st, c.args[0]), deref(ip, st, c.args[1])
    if ip.eq_cut and not (is_int(a) and is_int(b)):
        r = ("eqv", hashed(a), hashed(b), ip.db.types[c.ats[0]]["text"] if c.ats else "?")
        return ("not", r) if ne else r
    if c.info is not None and c.info["crate"] in ("gvas", "vroots"):
        kinds = {x.key[0] for x in (a, b) if isinstance(x, Sym) and isinstance(x.key, tuple)}
        if not kinds & {"nt", "old"}:
            return inline()
        # values whose parts are not known
        r = a == b or (() if "old" in kinds else ("app",)) + ("eqv", hashed(a), hashed(b), ip.db.types[a.ty]["text"] if isinstance(a, Sym) else "?")
        return (not r if r is True else ("not", r)) if ne else r
    r = generic_eq(ip, st, a, b)
    if r is None:
        return inline()
    if ne:
        return (not r) if isinstance(r, bool) else st.simp(("not", r))
    return r


def arr_term(ip, st, v):
    """Key of a symbolic array or the bytes of a constant one."""
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Agg) and all(isinstance(x, int) for x in v.f):
        return ("const",) + tuple(v.f)
    if isinstance(v, Agg):
        ks = [is_byte_of(x) for x in v.f]
        if ks and ks[0] is not None and all(k is not None and k[0] == ks[0][0] and k[1] == i for i, k in enumerate(ks)):
            return ks[0][0]
    return None


def generic_eq(ip, st, a, b):
    if is_int(a) and is_int(b):
        return ip.compare(st, "Eq", a, b)
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        return ip.compare(st, "Eq", a, b)

    def arrayish(v):
        if isinstance(v, Sym):
            return ip.db.types[v.ty]["k"] == "array"
        if isinstance(v, Agg):
            return v.ty is None or ip.db.types[v.ty]["k"] == "array"
        return False
    if arrayish(a) and arrayish(b):
        x, y = arr_term(ip, st, a), arr_term(ip, st, b)
        if x is not None and y is not None:
            return arr_eq(st, x, y)
    return None


def arr_eq(st, x, y):
    if x == y:
        return True
    cx, cy = x[0] == "const", y[0] == "const"
    if cx and cy:
        return False
    if cx:
        x, y = y, x
    return st.simp(("aeq", x, y))


@model(r"std::intrinsics::raw_eq$")
def m_raw_eq(ip, st, c):
    r = generic_eq(ip, st, deref(ip, st, c.args[0]), deref(ip, st, c.args[1]))
    return r if r is not None else ("app", "raw_eq", st.fresh())


# ---- formatting -------------------------------------------------------------------------------
@model(r"core::fmt::rt::Argument::<'_>::new_(\w+)$")
def m_fmt_arg(ip, st, c):
    v = c.args[0]
    x = deref(ip, st, v)
    return Obj("fmtarg", fk=c.trait.rsplit("new_", 1)[1], v=x, ty=c.ats[0] if c.ats else None)


@model(r"std::fmt::Arguments::<'a>::(new|new_const|new_v1|new_v1_formatted)$")
def m_fmt_new(ip, st, c):
    t = deref(ip, st, c.args[0])
    a = deref(ip, st, c.args[1]) if len(c.args) > 1 else Agg(None, 0, ())
    if isinstance(t, Agg) and isinstance(a, Agg):
        return Obj("fmtargs", t=bytes(x for x in t.f if isinstance(x, int)), a=a.f)
    return Obj("fmtargs", t=b"", a=())


@model(r"std::fmt::Arguments::<'a>::from_str(_nonconst)?$")
def m_fmt_str(ip, st, c):
    v = as_str(ip, st, c.args[0])
    return Obj("fmtargs", t=v.t if v is not None else "?", a=())


def decode_template(t):
    """[('lit', str) | ('arg', flags/width description)] of a format template."""
    out = []
    i = 0
    auto = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", t[i:i + b].decode("utf-8", "replace")))
            i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            out.append(("lit", t[i:i + n].decode("utf-8", "replace")))
            i += n
        else:
            d = {}
            if b & 1:
                d["flags"] = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if b & 2:
                d["width"] = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if b & 4:
                d["prec"] = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if b & 8:
                d["arg"] = int.from_bytes(t[i:i + 2], "little")
                i += 2
            n = d.get("arg", auto)
            auto = n + 1
            out.append(("arg", n, tuple(sorted(d.items()))))
    return out


def pieces(ip, st, fa):
    """Pieces of formatted text: strings and ('arg', kind, options, value)."""
    if isinstance(fa["t"], str) or isinstance(fa["t"], tuple):
        return (("s", fa["t"]),)
    out = []
    for p in decode_template(fa["t"]):
        if p[0] == "lit":
            out.append(("s", p[1]))
        else:
            a = fa["a"][p[1]] if p[1] < len(fa["a"]) else None
            if isinstance(a, Obj) and a.kind == "fmtarg":
                v = a["v"]
                opts = tuple(x for x in p[2] if x[0] != "arg")
                if isinstance(v, Str) and a["fk"] == "display" and not opts:
                    out.append(("s", v.t))
                else:
                    out.append(("a", a["fk"], opts, hashed(v), a["ty"]))
            else:
                out.append(("a", "?", (), None, None))
    return tuple(out)


@model(r"std::fmt::format$")
def m_format(ip, st, c):
    fa = c.args[0]
    if not isinstance(fa, Obj) or fa.kind != "fmtargs":
        return Str(("v", ("fmt", st.fresh())))
    ps = pieces(ip, st, fa)
    if all(p[0] == "s" and isinstance(p[1], str) for p in ps):
        return Str("".join(p[1] for p in ps))
    if len(ps) == 1 and ps[0][0] == "s":
        return Str(ps[0][1])
    return Str(("fmt", ps))


@model(r"std::fmt::Formatter::<'a>::(write_fmt|write_str|write_char)$", r"std::fmt::Write::(write_fmt|write_str|write_char)$")
def m_fmt_write(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    o = deref(ip, st, c.args[0])
    a = c.args[1]
    if isinstance(a, Obj) and a.kind == "fmtargs":
        ps = pieces(ip, st, a)
    elif isinstance(a, Str):
        ps = (("s", a.t),)
    elif isinstance(a, int):
        ps = (("s", chr(a)),)
    else:
        ps = (("a", "?", (), None, None),)
    if isinstance(o, Obj) and o.kind == "fmtr" and ref is not None:
        ip.store(st, ref.cell, ref.path, o.with_(p=o["p"] + ps))
        return ok(c)
    return inline()


@model(r"std::hint::must_use$", r"std::hint::black_box$", r"std::convert::identity$")
def m_must_use(ip, st, c):
    return c.args[0]


@model(r"std::any::type_name$")
def m_type_name(ip, st, c):
    return Str(("tn", ip.db.types[c.targs[0]]["text"] if c.targs and isinstance(c.targs[0], int) else "?"))


# ---- conversions ------------------------------------------------------------------------------
@model(r"<std::io::Error as std::convert::From<std::io::ErrorKind>>::from$", r"^(std::io::Error|.*<impl std::io::Error>)::(new|other)$")
def m_io_error(ip, st, c):
    return Sym(("ioerror", st.fresh()), c.dt)


@model(r"^(std::io::Error|.*<impl std::io::Error>)::kind$")
def m_io_kind(ip, st, c):
    e = deref(ip, st, c.args[0])
    if not isinstance(e, Sym):
        return inline()
    return ip.mk(st, ("ekind", e.key), c.dt)


@model(r"<ordered_float::OrderedFloat<T> as std::convert::From<T>>::from$")
def m_of(ip, st, c):
    return Agg(c.dt, 0, (c.args[0],))


@model(r"ordered_float::OrderedFloat::<T>::into_inner$")
def m_of_inner(ip, st, c):
    v = c.args[0]
    return ip.proj(st, v, ("f", 0, 0))


@model(r"num_enum::TryFromPrimitiveError::<Enum>::new$")
def m_num_enum(ip, st, c):
    return Agg(c.dt, 0, (c.args[0],))


FLOAT = r"(?:core|std)::(?:f32|f64|num)::<impl f(?:32|64)>::"


@model(FLOAT + r"to_bits$")
def m_to_bits(ip, st, c):
    v = deref(ip, st, c.args[0])
    return ip.float_bits(v, ip.db.types[c.dt]["bits"] // 8) if ip.is_float(v) else inline()


@model(FLOAT + r"from_bits$")
def m_from_bits(ip, st, c):
    v = deref(ip, st, c.args[0])
    return ip.float_of(st.norm(v), c.dt) if is_int(v) else inline()


@model(FLOAT + r"to_(le|be|ne)_bytes$")
def m_float_to_bytes(ip, st, c):
    v = deref(ip, st, c.args[0])
    if not ip.is_float(v):
        return inline()
    n = ip.db.types[c.dt]["len"]
    bs = ip.int_bytes(st, ip.float_bits(v, n), n)
    return Agg(c.dt, 0, tuple(bs if "_be_" not in c.trait else bs[::-1]))


@model(FLOAT + r"from_(le|be|ne)_bytes$")
def m_float_from_bytes(ip, st, c):
    v = deref(ip, st, c.args[0])
    n = ip.db.types[c.dt]["bits"] // 8
    bs = [ip.elem(st, v, i) for i in range(n)]
    if any(isinstance(b, Top) for b in bs):
        return inline()
    return ip.float_of(ip.from_bytes(st, bs if "_be_" not in c.trait else bs[::-1], {"bits": 8 * n, "signed": False, "k": "int"}), c.dt)


@model(FLOAT + r"(is_nan|is_finite|is_infinite|is_normal|is_subnormal|is_sign_positive|is_sign_negative)$")
def m_float_is(ip, st, c):
    v = deref(ip, st, c.args[0])
    return st.simp(("fcmp", c.trait.rsplit("::", 1)[1], v)) if ip.is_float(v) else inline()


@model(FLOAT + r"(clamp|abs|min|max|minimum|maximum|round|round_ties_even|floor|ceil|trunc|fract|signum|mul_add|sqrt|cbrt|copysign|"
       r"powi|powf|rem_euclid|div_euclid|to_degrees|to_radians|recip|sin|cos|tan|exp|ln|exp2|log2|log10|hypot|next_up|next_down)$")
def m_float_fn(ip, st, c):
    return ip.float_op(c.trait.rsplit("::", 1)[1], tuple(deref(ip, st, a) for a in c.args), c.dt)


@model(r"core::num::<impl u\d+>::(from_le|to_le)$", r"core::num::<impl i\d+>::(from_le|to_le)$")
def m_le(ip, st, c):
    return c.args[0]


@model(r"core::num::<impl [ui](\d+|size)>::(from_be|to_be|swap_bytes)$")
def m_be(ip, st, c):
    v = c.args[0]
    t = ip.db.types[c.dt]
    bs = ip.int_bytes(st, v, t["bits"] // 8)
    return ip.from_bytes(st, bs[::-1], t)


@model(r"core::num::<impl [ui](\d+|size)>::from_(le|be|ne)_bytes$")
def m_from_bytes(ip, st, c):
    v = deref(ip, st, c.args[0])
    t = ip.db.types[c.dt]
    n = t["bits"] // 8
    bs = [ip.elem(st, v, i) for i in range(n)]
    if any(isinstance(b, Top) for b in bs):
        return inline()
    return ip.from_bytes(st, bs if "_be_" not in c.trait else bs[::-1], t)


@model(r"core::num::<impl [ui](\d+|size)>::to_(le|be|ne)_bytes$")
def m_to_bytes(ip, st, c):
    v = c.args[0]
    if not is_int(v):
        return inline()
    t = ip.db.types[c.dt]
    bs = ip.int_bytes(st, st.norm(v), t["len"])
    return Agg(c.dt, 0, tuple(bs if "_be_" not in c.trait else bs[::-1]))


@model(r"core::num::<impl [ui](\d+|size)>::(checked_div|checked_rem|checked_add|checked_sub|checked_mul)$")
def m_checked(ip, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return inline()
    op = c.trait.rsplit("_", 1)[1]
    t = ip.db.types[c.ats[0]]
    outs = []
    if op in ("div", "rem"):
        for s, z in ip.decide(st, ("eq0", sub(b, 0)) if isinstance(b, Lin) else b == 0):
            if z:
                outs.append((s, none(c)))
            else:
                r = ip.binop(s, "Div" if op == "div" else "Rem", a, b, c.ats[0])
                outs.append((s, some(c, r)))
        return outs
    r = ip.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[op], a, b)
    if isinstance(r, Top):
        return inline()
    for s, o in ip.decide(st, ("ovf", r, t["bits"], t["signed"])):
        outs.append((s, none(c) if o else some(c, r)))
    return outs


@model(r"core::num::<impl [ui](\d+|size)>::(saturating_add|saturating_sub|saturating_mul)$", r"std::intrinsics::saturating_(add|sub)$")
def m_saturating(ip, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return inline()
    op = c.trait.rsplit("_", 1)[1]
    t = ip.db.types[c.dt]
    r = ip.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[op], a, b)
    if isinstance(r, Top):
        return inline()
    lo, hi = int_range(t["bits"], t["signed"])
    outs = []
    for s, o in ip.decide(st, ("ovf", r, t["bits"], t["signed"])):
        if not o:
            outs.append((s, r))
        elif op == "sub" and not t["signed"]:
            outs.append((s, lo))
        elif op in ("add", "mul") and not t["signed"]:
            outs.append((s, hi))
        else:
            outs.append((s, atom(("rng", ("sat", s.fresh()), lo, hi))))
    return outs


@model(r"core::num::<impl [ui](\d+|size)>::(wrapping_add|wrapping_sub|wrapping_mul|unchecked_add|unchecked_sub)$")
def m_wrapping(ip, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return inline()
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.trait.rsplit("_", 1)[1]]
    r = ip.arith(st, op, a, b)
    return ip.fit(st, r, ip.db.types[c.dt]) if not isinstance(r, Top) else r


@model(r"core::num::<impl [ui](\d+|size)>::(overflowing_add|overflowing_sub|overflowing_mul)$")
def m_overflowing(ip, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return inline()
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.trait.rsplit("_", 1)[1]]
    r = ip.arith(st, op, a, b)
    t = ip.db.types[c.ats[0]]
    return Agg(c.dt, 0, (ip.fit(st, r, t), st.simp(("ovf", r, t["bits"], t["signed"]))))


@model(r"core::num::<impl [ui](\d+|size)>::(unsigned_abs|abs)$")
def m_abs(ip, st, c):
    a = c.args[0]
    if not is_int(a):
        return inline()
    outs = []
    for s, n in ip.decide(st, ("lt0", a) if isinstance(a, Lin) else a < 0):
        v = neg(a) if n else a
        t = ip.db.types[c.ats[0]]
        if n and c.trait.endswith("::abs"):
            lo, _ = int_range(t["bits"], True)
            for s2, m in ip.decide(s, ("eq0", sub(a, lo)) if isinstance(a, Lin) else a == lo):
                if m:
                    ip.panic(s2, "assert overflow Neg", c.sp)
                else:
                    outs.append((s2, v))
        else:
            outs.append((s, v))
    return outs


@model(r"core::num::<impl u8>::(is_ascii_hexdigit|is_ascii\w*)$", r"std::char::methods::<impl char>::is_\w+$")
def m_is_hex(ip, st, c):
    v = deref(ip, st, c.args[0])
    name = c.trait.rsplit("::", 1)[1]
    if isinstance(v, int):
        ch = chr(v)
        tests = {"is_ascii_hexdigit": ch in "0123456789abcdefABCDEF", "is_ascii_digit": ch in "0123456789",
                 "is_ascii_alphanumeric": ch.isascii() and ch.isalnum(), "is_ascii": v < 128}
        if name in tests:
            return tests[name]
        return inline()
    return ("app", name, v)


@model(r"std::cmp::(Ord|PartialOrd)::(max|min)$", r"std::cmp::(max|min)$")
def m_minmax(ip, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return inline()
    outs = []
    mx = c.trait.endswith("max")
    d = sub(a, b)
    for s, lt in ip.decide(st, ("lt0", d) if isinstance(d, Lin) else d < 0):
        outs.append((s, b if lt == mx else a))
    return outs


@model(r"std::cmp::PartialOrd::(lt|le|gt|ge)$")
def m_ord(ip, st, c):
    a, b = deref(ip, st, c.args[0]), deref(ip, st, c.args[1])
    if is_int(a) and is_int(b):
        return ip.compare(st, c.trait.rsplit("::", 1)[1].capitalize(), a, b)
    return inline()


@model(r"std::ops::(RangeInclusive|Range|RangeFrom|RangeTo|RangeToInclusive)::<Idx>::contains$")
def m_contains(ip, st, c):
    r = deref(ip, st, c.args[0])
    v = deref(ip, st, c.args[1])
    kind = c.trait.split("::")[2]
    if not is_int(v) or not isinstance(r, Agg):
        return inline()
    lo = hi = None
    if kind in ("RangeInclusive", "Range"):
        lo, hi = r.f[0], r.f[1]
    elif kind == "RangeFrom":
        lo = r.f[0]
    else:
        hi = r.f[0]
    b = True
    if lo is not None:
        b = ip.compare(st, "Ge", v, lo)
    if hi is not None:
        b = st.simp(("and", b, ip.compare(st, "Le" if kind.endswith("Inclusive") else "Lt", v, hi)))
    return b


@model(r"std::ops::RangeInclusive::<Idx>::new$")
def m_ri_new(ip, st, c):
    return Agg(c.dt, 0, (c.args[0], c.args[1], False))


# ---- memory -----------------------------------------------------------------------------------
@model(r"std::boxed::Box::<T>::(new|pin)$")
def m_box_new(ip, st, c):
    return tmp(ip, st, c.args[0], "box")


@model(r"std::boxed::Box::<T>::new_uninit$")
def m_box_uninit(ip, st, c):
    """Room for a value that is written later (also how a list of given values is made)."""
    return tmp(ip, st, Agg(None, 0, (UNIT, Agg(None, 0, (Top("uninitialised"),)))), "box")


@model(r"std::boxed::box_assume_init_into_vec_unsafe$")
def m_box_into_vec(ip, st, c):
    v = deref(ip, st, c.args[0])
    while isinstance(v, Agg) and (v.ty is None or ip.db.types[v.ty]["k"] != "array") and v.f:
        v = v.f[-1]
    es = ip.elements(st, v)
    return Seq(tuple(("one", x) for x in es)) if es is not None else inline()


@model(r"std::mem::(drop|forget)$")
def m_drop(ip, st, c):
    v = c.args[0]
    ty = c.ats[0]
    if c.trait.endswith("drop") and ty is not None and ip.drop_glue(ty):
        r = tmp(ip, st, v)
        out = ip.drop_value(st, r, ty, c.sp)
        if out is not None:
            return [(s, UNIT) for s in out]
    return UNIT


@model(r"std::mem::(replace|take|swap)$")
def m_replace(ip, st, c):
    ref = last_ref_shallow(ip, st, c.args[0])
    if ref is None:
        return inline()
    old = ip.load(st, ref.cell, ref.path)
    name = c.trait.rsplit("::", 1)[1]
    if name == "replace":
        ip.store(st, ref.cell, ref.path, c.args[1])
        return old
    if name == "swap":
        r2 = last_ref_shallow(ip, st, c.args[1])
        if r2 is None:
            return inline()
        b = ip.load(st, r2.cell, r2.path)
        ip.store(st, ref.cell, ref.path, b)
        ip.store(st, r2.cell, r2.path, old)
        return UNIT
    if isinstance(old, Seq):
        ip.store(st, ref.cell, ref.path, Seq((), old.map))
        return old
    if isinstance(old, Str):
        ip.store(st, ref.cell, ref.path, Str(""))
        return old
    return inline()


def last_ref_shallow(ip, st, v):
    return v if isinstance(v, Ref) else None


@model(r"std::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(as_mut|as_ref)$")
def m_ptr_as(ip, st, c):
    if isinstance(c.args[0], Ref):
        return some(c, c.args[0])
    return inline()


@model(r"<std::boxed::Box<T, A> as std::clone::Clone>::clone$")
def m_box_clone(ip, st, c):
    v = deref1(ip, st, c.args[0])
    if isinstance(v, Ref):
        return tmp(ip, st, ip.load(st, v.cell, v.path), "box")
    return v if isinstance(v, Str) else inline()


@model(r"std::clone::Clone::clone$")
def m_clone(ip, st, c):
    """Cloning: derived and library implementations copy the value."""
    if c.info is not None and c.info["crate"] in ("gvas", "vroots") and not c.info["derived"]:
        return inline()
    v = c.args[0]
    if isinstance(v, Ref):
        return ip.load(st, v.cell, v.path)
    return v


@model(r"std::option::Option::<&(mut )?T>::(copied|cloned)$")
def m_copied(ip, st, c):
    v = c.args[0]
    if isinstance(v, Agg):
        return none(c) if v.var == 0 else some(c, deref1(ip, st, v.f[0]))
    return inline()


# ---- vectors ----------------------------------------------------------------------------------
@model(r"std::vec::Vec::<T>::new$", r"indexmap::map::IndexMap::<K, V>::new$")
def m_vec_new(ip, st, c):
    return Seq((), "IndexMap" in c.trait)


@model(r"<std::vec::Vec<T> as std::default::Default>::default$", r"<indexmap::map::IndexMap<.*> as std::default::Default>::default$")
def m_vec_default(ip, st, c):
    return Seq((), "IndexMap" in c.defn)


@model(r"std::vec::Vec::<T>::with_capacity$", r"indexmap::map::IndexMap::<K, V>::with_capacity$",
       r"std::string::String::with_capacity$", r"indexmap::map::IndexMap::<K, V, S>::with_capacity_and_hasher$",
       r"std::vec::Vec::<T, A>::(with_capacity_in)$")
def m_with_capacity(ip, st, c):
    esz = 1
    if "String" not in c.trait:
        t = ip.db.types[c.dt] if c.dt is not None else None
        if t is not None and t["k"] == "adt" and t["args"] and isinstance(t["args"][0], int):
            esz = max(1, ip.sizeof(t["args"][0]))
    alloc(ip, st, c, c.args[0], esz)
    if "String" in c.trait:
        return Str("")
    return Seq((), "IndexMap" in c.trait)


def alloc(ip, st, c, n, esz):
    """Record an allocation sized by a value."""
    st.event("alloc", ip.loc(st, c.sp), ip.crate_fn(st), st.norm(n) if is_int(n) else n, esz,
             st.rng(n) if is_int(n) else (None, None), read_so_far(st))


def read_so_far(st):
    """The loops that have been consumed from input streams."""
    return tuple(f for v in st.cells.values() if isinstance(v, Obj) and v.kind == "in" for f in v["fields"] if f[0] == "loop")


@model(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|try_reserve|try_reserve_exact)$", r"std::string::String::reserve(_exact)?$",
       r"indexmap::map::IndexMap::<K, V, S>::(try_)?reserve(_exact)?$")
def m_reserve(ip, st, c):
    esz = 1
    if c.targs and isinstance(c.targs[0], int):
        esz = max(1, ip.sizeof(c.targs[0]))
    alloc(ip, st, c, c.args[1], esz)
    if "try_" in c.trait:
        full = st.clone()
        e = ip.mk(full, ("full", full.fresh()), ip.db.types[c.dt]["args"][1])
        return [(st, ok(c)), (full, err(c, e))]
    return UNIT


@model(r"std::vec::from_elem$")
def m_from_elem(ip, st, c):
    v, n = c.args
    esz = max(1, ip.sizeof(c.ats[0])) if c.ats[0] is not None else 1
    alloc(ip, st, c, n, esz)
    n = st.norm(n) if is_int(n) else n
    if isinstance(n, int) and n <= 64:
        return Seq((("one", v),) * n)
    return Seq((("rep", v, n),))


@model(r"std::vec::Vec::<T, A>::resize$")
def m_resize(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    n = st.norm(sub(c.args[1], ip.seq_len(st, v)))
    alloc(ip, st, c, c.args[1], max(1, ip.sizeof(c.ats[2])) if c.ats[2] is not None else 1)
    ip.store(st, ref.cell, ref.path, Seq(v.parts + ((("rep", c.args[2], n),) if n != 0 else ())))
    return UNIT


def is_vec(v):
    return isinstance(v, Seq)


@model(r"std::vec::Vec::<T, A>::(push|push_within_capacity)$")
def m_push(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    parts = v.parts
    x = c.args[1]
    if parts and parts[-1][0] == "fields":
        parts = parts[:-1] + (("fields", parts[-1][1] + (("num", 1, x, "le"),)),)
    else:
        parts = parts + (("one", x),)
    ip.store(st, ref.cell, ref.path, Seq(parts, v.map))
    return UNIT


@model(r"std::vec::Vec::<T, A>::pop$")
def m_pop(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    if not v.parts:
        return none(c)
    p = v.parts[-1]
    if p[0] == "one":
        ip.store(st, ref.cell, ref.path, Seq(v.parts[:-1], v.map))
        return some(c, p[1])
    s2 = st.clone()
    n = ip.seq_len(st, v)
    outs = []
    if isinstance(n, Top) or s2.assume(("eq0", n) if isinstance(n, Lin) else n == 0, True):
        outs.append((s2, none(c)))
    st.event("popped", repr(p)[:80])
    ip.store(st, ref.cell, ref.path, Seq(v.parts[:-1] + (("popped", p),), v.map))
    outs.append((st, Agg(c.dt, 1, (Top("popped element"),))))
    return outs


SLICE = r"(?:core|std|alloc)::slice::<impl \[T\]>::"


@model(SLICE + r"chunks(_exact)?$")
def m_chunks(ip, st, c):
    """The consecutive pieces of a list."""
    w = st.norm(c.args[1]) if is_int(c.args[1]) else None
    v = deref(ip, st, c.args[0])
    if not isinstance(w, int) or not 1 <= w <= 16:
        return inline()
    exact = c.trait.endswith("exact")
    if isinstance(v, Seq) and all(p[0] == "one" for p in v.parts):
        v = Agg(None, 0, tuple(p[1] for p in v.parts))
    if isinstance(v, Sym) and ip.db.types[v.ty]["k"] == "array" and ip.db.types[v.ty]["len"] <= 64:
        v = Agg(None, 0, tuple(ip.elem(st, v, i) for i in range(ip.db.types[v.ty]["len"])))
    if isinstance(v, Agg) and (v.ty is None or ip.db.types[v.ty]["k"] in ("array", "slice")):
        n = len(v.f) // w * w if exact else len(v.f)
        return Obj("iter", base=("seq", tuple(("one", Agg(None, 0, v.f[i:min(i + w, n)])) for i in range(0, n, w)), "ref"), ops=())
    if isinstance(v, Seq) and len(v.parts) == 1 and v.parts[0][0] == "bytes":
        n = st.norm(v.parts[0][2])
        if isinstance(n, Lin) and n.c % w == 0 and all(k % w == 0 for k in n.t.values()):
            n = Lin(n.c // w, {a: k // w for a, k in n.t.items()})
            return Obj("iter", base=("seq", (("chunks", v.parts[0][1], n, w),), "ref"), ops=())
    return inline()


SAME_LENGTH = re.compile(r"^(reverse|sort.*|rotate_.*|swap|fill.*|select_.*|copy_within)$")


@model(r"std::vec::Vec::<T, A>::(remove|swap_remove|insert|dedup|dedup_by|dedup_by_key|retain|retain_mut|split_off|drain|splice|extract_if)$",
       SLICE + r"(reverse|sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|rotate_left|"
       r"rotate_right|swap|fill|fill_with|copy_within)$",
       r"indexmap::map::IndexMap::<K, V, S>::(reverse|sort_.*|retain.*|shift_remove.*|swap_remove.*|move_index|swap_indices|truncate|"
       r"split_off|drain|pop)$")
def m_edit(ip, st, c):
    """Rearranging or removing elements: the list becomes another one, derived from what it held."""
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    op = c.trait.rsplit("::", 1)[1]
    n = ip.seq_len(st, v)
    if isinstance(n, Top) or n == 0 and SAME_LENGTH.match(op):
        return inline() if isinstance(n, Top) else UNIT
    at = c.args[1] if len(c.args) > 1 and is_int(c.args[1]) else None
    if at is not None and op in ("remove", "swap_remove", "insert"):
        k = 0
        for i in range(len(v.parts) + 1):
            if st.norm(sub(k, at)) == 0:
                if op == "insert":
                    ip.store(st, ref.cell, ref.path, Seq(v.parts[:i] + (("one", c.args[2]),) + v.parts[i:], v.map))
                    return UNIT
                if i < len(v.parts) and v.parts[i][0] == "one" and (op == "remove" or i == len(v.parts) - 1):
                    ip.store(st, ref.cell, ref.path, Seq(v.parts[:i] + v.parts[i + 1:], v.map))
                    return v.parts[i][1]
            if i < len(v.parts):
                k = add(k, ip.parts_len(st, (v.parts[i],)))
                if isinstance(k, Top):
                    break
    key = ("edited", op, at if at is not None else (), v.parts)
    for p in v.parts:
        if p[0] == "sym":
            et = p[2]
            break
    else:
        t = ip.db.types[ip.db.pointee(c.ats[0])]
        if t["k"] not in ("adt", "slice", "array"):
            return inline()
        if v.map:
            et = tuple(t["args"][:2]) if len(t.get("args", ())) >= 2 else None
        else:
            et = t["t"] if t["k"] in ("slice", "array") and "t" in t else t.get("args", [None])[0]
    if et is None:
        return inline()
    w = Seq((("sym", key, et),), v.map)
    ip.store(st, ref.cell, ref.path, w)
    st.note("edited", op, ip.loc(st, c.sp))
    m = ip.seq_len(st, w)
    if SAME_LENGTH.match(op) or op in ("move_index", "swap_indices"):
        st.assume_eq0(sub(m, n))
    elif op in ("remove", "swap_remove"):
        st.assume_eq0(sub(add(m, 1), n))
    elif op == "insert":
        st.assume_eq0(sub(m, add(n, 1)))
    elif is_int(m) and is_int(n):
        st.assume_ge0(sub(n, m))
    if ip.db.text(c.dt) == "()":
        return UNIT
    return ip.mk(st, ("editret",) + key[1:], c.dt)


@model(r"std::vec::Vec::<T, A>::(truncate|clear)$")
def m_truncate(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    if c.trait.endswith("clear"):
        ip.store(st, ref.cell, ref.path, Seq((), v.map))
        return UNIT
    n = st.norm(c.args[1])
    k = 0
    for i in range(len(v.parts) + 1):
        if st.norm(sub(k, n)) == 0:
            ip.store(st, ref.cell, ref.path, Seq(v.parts[:i], v.map))
            return UNIT
        if i < len(v.parts):
            k = add(k, ip.parts_len(st, (v.parts[i],)))
    st.event("unmodelled", "truncate")
    ip.store(st, ref.cell, ref.path, Seq((("truncated", v.parts),), v.map))
    return UNIT


@model(r"std::vec::Vec::<T, A>::(extend_from_slice|append)$", r"<std::vec::Vec<T, A> as std::iter::Extend<.*>::extend$")
def m_extend(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    w = deref(ip, st, c.args[1])
    if ref is None or not isinstance(v, Seq):
        return inline()
    if isinstance(w, Agg) and (w.ty is None or ip.db.types[w.ty]["k"] == "array"):
        w = Seq(tuple(("one", x) for x in w.f))
    if isinstance(w, Seq):
        ip.store(st, ref.cell, ref.path, Seq(v.parts + w.parts, v.map))
        if c.trait.endswith("append"):
            r2 = last_ref(ip, st, c.args[1])
            ip.store(st, r2.cell, r2.path, Seq(()))
        return UNIT
    if isinstance(w, Obj) and w.kind == "iter":
        outs = collect_seq(ip, st, w, c.sp)
        res = []
        for s, q in outs:
            v = ip.load(s, ref.cell, ref.path)
            ip.store(s, ref.cell, ref.path, Seq(v.parts + q.parts, v.map))
            res.append((s, UNIT))
        return res
    return inline()


@model(r"std::vec::Vec::<T, A>::len$", r"indexmap::map::IndexMap::<K, V, S>::len$", r"core::slice::<impl \[T\]>::len$")
def m_len(ip, st, c):
    v = deref(ip, st, c.args[0])
    if isinstance(v, (Seq, Agg, Sym, Str)):
        n = ip.seq_len(st, v)
        return n
    return inline()


@model(r"std::vec::Vec::<T, A>::is_empty$", r"indexmap::map::IndexMap::<K, V, S>::is_empty$", r"core::slice::<impl \[T\]>::is_empty$")
def m_is_empty(ip, st, c):
    v = deref(ip, st, c.args[0])
    if isinstance(v, (Seq, Agg, Sym)):
        n = ip.seq_len(st, v)
        if is_int(n):
            return ip.compare(st, "Eq", n, 0)
    return inline()


@model(r"<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref", r"std::vec::Vec::<T, A>::as_(mut_)?slice$",
       r"<std::vec::Vec<T, A> as std::convert::AsRef<.*", r"<std::vec::Vec<T, A> as std::borrow::Borrow.*",
       r"core::array::<impl \[T; N\]>::as_slice$", r"std::vec::Vec::<T, A>::(into_boxed_slice)$", r"std::slice::<impl \[T\]>::(to_vec|into_vec)$",
       r"std::array::<impl .*>::as_ref$")
def m_vec_id(ip, st, c):
    if c.trait.endswith(("to_vec",)):
        v = deref(ip, st, c.args[0])
        if isinstance(v, Agg):
            return Seq(tuple(("one", x) for x in v.f))
        return v
    return c.args[0]


@model(r"<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index", r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index",
       r"core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index", r"std::array::<impl std::ops::Index.*")
def m_index(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    i = c.args[1]
    if ref is None:
        return inline()
    if is_int(i):
        n = ip.seq_len(st, v)
        if is_int(n):
            outs = []
            for s, b in ip.decide(st, ip.compare(st, "Lt", i, n)):
                if b:
                    outs.append((s, Ref(ref.cell, ref.path + (("i", s.norm(i)),))))
                else:
                    ip.panic(s, "assert BoundsCheck", c.sp, (i, n))
            return outs
        return Ref(ref.cell, ref.path + (("i", i),))
    if isinstance(i, Agg):
        text = ip.db.types[c.ats[1]]["text"] if c.ats[1] is not None else ""
        n = ip.seq_len(st, v)
        if "RangeFull" in text:
            return ref
        if is_int(n) and isinstance(v, (Seq, Agg, Sym)):
            return slice_of(ip, st, c, v, n, i, text, ref, "IndexMut" in c.trait)
    return inline()


def slice_of(ip, st, c, v, n, i, text, ref, mut):
    lo, hi = 0, n
    if "RangeToInclusive" in text:
        hi = add(i.f[0], 1)
    elif "RangeTo<" in text:
        hi = i.f[0]
    elif "RangeFrom" in text:
        lo = i.f[0]
    elif "RangeInclusive" in text:
        lo, hi = i.f[0], add(i.f[1], 1)
    else:
        lo, hi = i.f[0], i.f[1]
    outs = []
    okc = st.simp(("and", ip.compare(st, "Le", lo, hi), ip.compare(st, "Le", hi, n)))
    for s, b in ip.decide(st, okc):
        if not b:
            ip.panic(s, "slice index", c.sp, (lo, hi, n))
            continue
        l, h = s.norm(lo), s.norm(hi)
        if l == 0 and s.norm(sub(h, n)) == 0:
            outs.append((s, ref))
        elif isinstance(l, int) and isinstance(h, int) and ip.elements(s, v) is not None:
            outs.append((s, Ref(ref.cell, ref.path + (("s", l, h),))))
        else:
            if mut:
                ip.store(s, ref.cell, ref.path, Top("slice of unknown extent modified"))
            outs.append((s, tmp(ip, s, Seq((("bytes", ("slice", repr(v)[:200], repr(l), repr(h)), sub(h, l)),)))))
    return outs


@model(r"core::str::traits::<impl std::ops::Index<I> for str>::index$", r"<std::string::String as std::ops::Index<I>>::index$")
def m_str_index(ip, st, c):
    v = as_str(ip, st, c.args[0])
    i = c.args[1]
    if v is None or not isinstance(i, Agg):
        return inline()
    text = ip.db.types[c.ats[1]]["text"] if c.ats[1] is not None else ""
    n = ip.seq_len(st, v)
    lo, hi = 0, n
    if "RangeFrom" in text:
        lo = i.f[0]
    elif "RangeTo<" in text:
        hi = i.f[0]
    elif len(i.f) == 2:
        lo, hi = i.f[0], i.f[1]
    outs = []
    okc = st.simp(("and", ip.compare(st, "Le", lo, hi), ip.compare(st, "Le", hi, n)))
    for s, b in ip.decide(st, okc):
        if not b:
            ip.panic(s, "str slice out of range", c.sp, (lo, hi, n))
            continue
        ascii = s.simp(("ascii", v.t)) if not isinstance(v.t, str) else v.t.isascii()
        if ascii is not True and not s.facts.bt.get(("allhex", v.t)):
            s2 = s.clone()
            ip.panic(s2, "str slice not on a character boundary", c.sp, v)
        l, h = s.norm(lo), s.norm(hi)
        if isinstance(v.t, str) and isinstance(l, int) and isinstance(h, int):
            outs.append((s, Str(v.t[l:h])))
        else:
            outs.append((s, Str(("substr", v.t, l, h))))
    return outs


@model(r"core::num::<impl (u8|u16|u32|u64|u128|usize)>::from_str_radix$")
def m_from_str_radix(ip, st, c):
    v = as_str(ip, st, c.args[0])
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}[re.search(r"<impl (\w+)>", c.trait).group(1)]
    if v is None or not isinstance(c.args[1], int):
        return Sym(("call", c.trait, st.fresh()), c.dt)
    if isinstance(v.t, str):
        # the sign is allowed by the library
        try:
            x = int(v.t, c.args[1]) if re.fullmatch(r"\+?[0-9A-Za-z]+", v.t) else None
        except ValueError:
            x = None
        return ok(c, x) if x is not None and x < 1 << bits else Sym(("call", c.trait, st.fresh()), c.dt)
    whole, lo, hi = v.t, 0, None
    while whole[0] == "substr":
        whole, lo, hi = whole[1], whole[2], whole[3]
    n = ip.seq_len(st, v)
    n = st.norm(n) if is_int(n) else n
    val = atom(("v", ("parse", c.args[1], v.t), bits, False))
    if c.args[1] == 16 and st.facts.bt.get(("allhex", whole)) and isinstance(n, int) and 0 < n <= bits // 4:
        return ok(c, val)
    s2 = st.clone()
    st.facts.var[("parsed", c.args[1], v.t)] = 0
    s2.facts.var[("parsed", c.args[1], v.t)] = 1
    return [(st, ok(c, val)), (s2, Agg(c.dt, 1, (Top("parse error"),)))]


@model(r"core::slice::<impl \[T\]>::(first|last)$")
def m_first_last(ip, st, c):
    v = deref(ip, st, c.args[0])
    last = c.trait.endswith("last")
    if isinstance(v, Agg):
        v = Seq(tuple(("one", x) for x in v.f))
    if not isinstance(v, Seq):
        return inline()
    if not v.parts:
        return none(c)
    p = v.parts[-1 if last else 0]
    if p[0] == "one":
        return some(c, tmp(ip, st, p[1]))
    return Sym(("edge", last, st.fresh()), c.dt)


@model(r"core::slice::<impl \[T\]>::(get|get_mut)$")
def m_slice_get(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    i = c.args[1]
    if ref is None or not is_int(i):
        return inline()
    n = ip.seq_len(st, v)
    if not is_int(n):
        return inline()
    outs = []
    for s, b in ip.decide(st, ip.compare(st, "Lt", i, n)):
        if b and not isinstance(s.norm(i), int) and isinstance(v, Agg) and len(v.f) <= 64 and not any(is_int(x) for x in v.f):
            for k in range(len(v.f)):
                x = s.clone()
                if x.assume(("eq0", sub(i, k)), True):
                    outs.append((x, some(c, Ref(ref.cell, ref.path + (("i", k),)))))
            continue
        outs.append((s, some(c, Ref(ref.cell, ref.path + (("i", s.norm(i)),))) if b else none(c)))
    return outs


# ---- maps -------------------------------------------------------------------------------------
MAP = r"indexmap::map::IndexMap::<K, V, S>::"


def keyval(ip, st, v):
    """Hashable form of a map key."""
    v = deref(ip, st, v)
    if isinstance(v, Str):
        return v
    if isinstance(v, Agg) and len(v.f) == 1:
        t = arr_term(ip, st, v.f[0])
        if t is not None:
            return t
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Agg):
        return hashed(v)
    return hashed(v)


def open_map(v):
    """Does the map contain entries that are not known individually?"""
    return any(p[0] != "one" for p in v.parts)


def key_shape(ip, st, v, have):
    """Form of a key with the leaves that occur in the other key left out."""
    if isinstance(v, Sym) and ("sym", v.key) not in have and st.facts.var.get(v.key) is not None:
        v = ip.expand(st, v, st.facts.var[v.key])
    elif isinstance(v, Sym) and ("sym", v.key) not in have and ip.db.types[v.ty].get("kind") == "struct":
        v = ip.expand(st, v, 0)
    if isinstance(v, Agg):
        return (v.var,) + tuple(key_shape(ip, st, x, have) for x in v.f)
    if isinstance(v, Str):
        return "*" if ("str", v.t) in have else ("str", v.t)
    if isinstance(v, Lin):
        n = st.norm(v)
        return n if isinstance(n, int) else "*" if ("lin", n) in have else ("?", repr(v))
    if isinstance(v, Sym):
        return "*" if ("sym", v.key) in have else ("?", repr(v))
    if isinstance(v, Ref):
        return ("?", repr(v))
    if v is None or isinstance(v, (int, bool)):
        return v
    return "*" if ("raw", v) in have else ("?", repr(v))


def key_leaves(st, v, out):
    if isinstance(v, Agg):
        for x in v.f:
            key_leaves(st, x, out)
    elif isinstance(v, Str):
        out.add(("str", v.t))
    elif isinstance(v, Lin):
        out.add(("lin", st.norm(v)))
    elif isinstance(v, Sym):
        out.add(("sym", v.key))
    elif isinstance(v, tuple):
        out.add(("raw", v))
        out.add(("sym", v))


def undetermined(x):
    if isinstance(x, tuple):
        return x[:1] == ("?",) or any(undetermined(y) for y in x)
    return False


def fresh_key(ip, st, phi, key):
    """Entries so far come from earlier elements of a map with distinct keys, and this key
    determines the key of the current element: it cannot be there yet."""
    L = phi[1]
    src = st.vars.get(("src", L))
    if src is None or phi not in ip.empty_phis:
        return False
    have = set()
    key_leaves(st, key, have)
    shape = key_shape(ip, st, src, have)
    if undetermined(shape):
        return False
    shapes = ip.key_shapes.setdefault(phi, set())
    shapes.add(shape)
    return len(shapes) == 1


def map_query(ip, st, ref, v, key, c):
    """[(state, None | index)] for a key of a map: absent or present at some index."""
    if not v.parts:
        return [(st, None)]
    if len(v.parts) == 1 and v.parts[0][0] == "phi" and fresh_key(ip, st, v.parts[0], key):
        return [(st, None)]
    q = ("mapq", ref.cell, ref.path, key)
    if q in st.vars:
        return [(st, st.vars[q])]
    at_end = st.simp(("streq", last_key(ref, v), key.t)) if isinstance(key, Str) else None
    if at_end is True:
        return [(st, sub(ip.seq_len(st, v), 1))]
    stable = all(p[0] in ("sym", "loop", "gloop", "one") for p in v.parts)
    if stable:
        ident = hashed(v.parts)
        k = ("mget", ident, key)
        outs = []
        for s, b in ip.decide(st, ("isvar", k, 1, 2)):
            outs.append((s, atom(("mapidx", k)) if b else None))
        return outs
    s2 = st.clone()
    idx = atom(("mapidx", s2.fresh()))
    n = ip.seq_len(s2, v)
    st.vars[q] = None
    s2.vars[q] = idx
    if is_int(n):
        fewest = add(n, -1 if at_end is not False else -2)
        if not s2.assume_ge0(fewest) or not s2.assume_ge0(sub(fewest, idx)):
            return [(st, None)]
    return [(st, None), (s2, idx)]


def last_key(ref, v):
    """Term for the key of the last entry."""
    return ("lastkey", ref.cell, ref.path, hashed(v.parts))


@model(MAP + r"last(_mut)?$")
def m_map_last(ip, st, c):
    """The last entry: known by its key once that is compared."""
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    n = ip.seq_len(st, v)
    if n == 0:
        return none(c)
    p = v.parts[-1]
    pt = ip.db.types[ip.db.types[c.dt]["args"][0]]
    kt = ip.db.types[ip.db.pointee(pt["ts"][0])]
    if not is_int(n) or p[0] != "one" and not kt["text"].endswith("String"):
        return inline()
    outs = []
    for s, empty in ip.decide(st, ("eq0", n) if isinstance(n, Lin) else n == 0):
        if empty:
            outs.append((s, none(c)))
            continue
        if p[0] == "one" and isinstance(p[1], Agg) and len(p[1].f) == 2:
            key, val = p[1].f
        else:
            t = last_key(ref, v)
            same = [x for b, y in s.facts.bt.items() if y is True and b[0] == "streq" and t in b[1:] for x in b[1:] if x != t]
            key, val = Str(same[0] if same else s.str_norm(t)), None
        if c.trait.endswith("mut"):
            r = Ref(ref.cell, ref.path + (("mv", key, "last"),))
        else:
            r = tmp(ip, s, val if val is not None else Top("last entry"))
        outs.append((s, some(c, Agg(None, 0, (tmp(ip, s, key), r)))))
    return outs


def forget_queries(st, ref):
    for q in [q for q in st.vars if q[0] == "mapq" and q[1] == ref.cell and q[2] == ref.path]:
        del st.vars[q]


@model(MAP + r"(get_index_of)$")
def m_map_index_of(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    key = keyval(ip, st, c.args[1])
    return [(s, none(c) if i is None else some(c, i)) for s, i in map_query(ip, st, ref, v, key, c)]


@model(MAP + r"contains_key$")
def m_map_contains(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    key = keyval(ip, st, c.args[1])
    return [(s, i is not None) for s, i in map_query(ip, st, ref, v, key, c)]


@model(MAP + r"(get|get_mut)$")
def m_map_get(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    key = keyval(ip, st, c.args[1])
    outs = []
    for s, i in map_query(ip, st, ref, v, key, c):
        if i is None:
            outs.append((s, none(c)))
            continue
        if c.trait.endswith("get_mut"):
            outs += [(x, some(c, Ref(ref.cell, ref.path + (("mv", key, b),)))) for x, b in split_mode(ip, s, ref, i, key)]
            continue
        # value found under this key
        hit = [p[1].f[1] for p in v.parts if p[0] == "one" and isinstance(p[1], Agg) and keyval(ip, s, p[1].f[0]) == key]
        if hit:
            outs.append((s, some(c, tmp(ip, s, hit[-1]))))
            continue
        vt = ip.db.pointee(ip.db.types[c.dt]["args"][0])
        cell = ("sym", ("mgetv", hashed(v.parts), key))
        if cell not in s.cells:
            s.cells[cell] = ip.mk(s, ("mgetv", hashed(v.parts), key), vt)
        s.event("version lookup", key)
        outs.append((s, some(c, Ref(cell))))
    return outs


def slot_mode(ip, st, v, i):
    """Is the entry found at index i the last one?"""
    n = ip.seq_len(st, v)
    if not is_int(n):
        return "any"
    d = sub(sub(n, 1), i)
    b = st.simp(("eq0", d)) if isinstance(d, Lin) else d == 0
    return "last" if b is True else "mid" if b is False else "any"


@model(r"<indexmap::map::IndexMap<K, V, S> as std::ops::IndexMut<usize>>::index_mut$", MAP + r"get_index_mut$")
def m_map_index_mut(ip, st, c):
    """The entry at an index that was looked up before is known by its key."""
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    i = c.args[1]
    if ref is None or not isinstance(v, Seq) or not is_int(i):
        return inline()
    key = next((q[3] for q, x in st.vars.items() if q[0] == "mapq" and q[1:3] == (ref.cell, ref.path)
                and x is not None and st.norm(sub(x, i)) == 0), None)
    n = ip.seq_len(st, v)
    if key is None and is_int(n) and st.norm(sub(sub(n, 1), i)) == 0:
        t = last_key(ref, v)
        key = next((Str(x) for b, y in st.facts.bt.items() if y is True and b[0] == "streq" and t in b[1:]
                    for x in b[1:] if x != t), None)
    if key is None:
        return inline()
    outs = []
    for s, b in split_mode(ip, st, ref, i, key):
        r = Ref(ref.cell, ref.path + (("mv", key, b),))
        outs.append((s, some(c, Agg(None, 0, (tmp(ip, s, key), r))) if c.trait.endswith("get_index_mut") else r))
    return outs


@model(MAP + r"(insert|insert_full)$")
def m_map_insert(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    full = c.trait.endswith("full")
    key = keyval(ip, st, c.args[1])
    pair = Agg(None, 0, (c.args[1], c.args[2]))
    outs = []
    qs = map_query(ip, st, ref, v, key, c) if v.parts else [(st, None)]
    ot = ip.db.types[c.dt]["ts"][1] if full else c.dt
    for s, i in qs:
        forget_queries(s, ref)
        n = ip.seq_len(s, v)
        if i is None:
            ip.store(s, ref.cell, ref.path, Seq(v.parts + (("one", pair),), True))
            r = Agg(ot, 0, ())
            i = n
        else:
            ip.store(s, ref.cell, ref.path, Seq(v.parts + (("over", key, c.args[2]),), True))
            r = Agg(ot, 1, (ip.mk(s, ("old", s.fresh()), ip.db.types[ot]["args"][0]),))
        outs.append((s, Agg(c.dt, 0, (i, r)) if full else r))
    return outs


@model(MAP + r"entry$")
def m_map_entry(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    v = deref(ip, st, c.args[0])
    if ref is None or not isinstance(v, Seq):
        return inline()
    key = keyval(ip, st, c.args[1])
    outs = []
    for s, i in map_query(ip, st, ref, v, key, c):
        outs.append((s, Agg(c.dt, 1 if i is None else 0, (Obj("entry", ref=ref, key=key, kv=c.args[1], idx=i),))))
    return outs


def entry_of(ip, st, v):
    """The entry object behind an entry of a map, vacant or occupied."""
    v = deref(ip, st, v)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v if isinstance(v, Obj) and v.kind == "entry" else None


@model(r"indexmap::(?:map|inner)::entry::(Vacant|Occupied)Entry::<'a, K, V>::(insert|insert_entry|into_mut|get_mut|get|key|index)$",
       r"indexmap::map::entry::Entry::<'a, K, V>::(key|index)$")
def m_entry_parts(ip, st, c):
    e = entry_of(ip, st, c.args[0])
    if e is None:
        return inline()
    op = c.trait.rsplit("::", 1)[1]
    ref = e["ref"]
    v = ip.load(st, ref.cell, ref.path)
    if op == "key":
        return tmp(ip, st, e["kv"])
    if op == "index":
        return e["idx"] if e["idx"] is not None else ip.seq_len(st, v)
    if op in ("into_mut", "get_mut"):
        return [(s, Ref(ref.cell, ref.path + (("mv", e["kv"], b),))) for s, b in split_mode(ip, st, ref, e["idx"], e["key"])]
    if op != "insert" or not isinstance(v, Seq):
        return inline()
    forget_queries(st, ref)
    if e["idx"] is None:
        ip.store(st, ref.cell, ref.path, Seq(v.parts + (("one", Agg(None, 0, (e["kv"], c.args[1]))),), True))
        return Ref(ref.cell, ref.path + (("mv", e["kv"], "made"),))
    ip.store(st, ref.cell, ref.path, Seq(v.parts + (("over", e["key"], c.args[1]),), True))
    return Top("replaced value")


@model(r"indexmap::map::entry::Entry::<'a, K, V>::(or_default|or_insert|or_insert_with)$")
def m_entry_or(ip, st, c):
    e = entry_of(ip, st, c.args[0])
    if e is None:
        return inline()
    ref = e["ref"]
    outs = []
    if e["idx"] is None:
        if c.trait.endswith("or_insert"):
            vals = [(st, c.args[1])]
        elif c.trait.endswith("with"):
            vals = call_fn(ip, st, c.args[1], (), c.sp)
        else:
            vals = [(st, Seq(()))]
        for s, d in vals:
            if isinstance(d, Seq) and not d.parts:
                outs.append((s, Ref(ref.cell, ref.path + (("mv", e["kv"], "new"),))))
            else:
                v = ip.load(s, ref.cell, ref.path)
                forget_queries(s, ref)
                ip.store(s, ref.cell, ref.path, Seq(v.parts + (("one", Agg(None, 0, (e["kv"], d))),), True))
                outs.append((s, Ref(ref.cell, ref.path + (("mv", e["kv"], "made"),))))
        return outs
    for s, b in split_mode(ip, st, ref, e["idx"], e["key"]):
        outs.append((s, Ref(ref.cell, ref.path + (("mv", e["kv"], b),))))
    return outs


def split_mode(ip, st, ref, idx, key):
    """Is the entry with this key the last one of the map?"""
    v = ip.load(st, ref.cell, ref.path)
    t = last_key(ref, v)
    at_end = st.simp(("streq", t, key.t)) if isinstance(key, Str) else None
    if isinstance(at_end, bool):
        return [(st, "last" if at_end else "mid")]
    m = slot_mode(ip, st, v, idx)
    if m != "any":
        return [(st, m)]
    n = ip.seq_len(st, v)
    if not is_int(n):
        return [(st, "mid")]
    out = []
    asked = sum(1 for tab in st.facts.NAMES for k in getattr(st.facts, tab) if about(k, idx, t)) > 1
    for s, b in ip.decide(st, ("eq0", sub(sub(n, 1), idx))):
        if not b and asked:
            s.event("lost write", "an entry whose place was asked for")
        out.append((s, "last" if b else "mid"))
    return out


def about(k, idx, t):
    """Does a fact mention the index of an entry or the key of the last one?"""
    if isinstance(k, Lin):
        return any(about(a, idx, t) for a in k.t)
    if k == t or isinstance(idx, Lin) and k in idx.t:
        return True
    return isinstance(k, tuple) and any(about(x, idx, t) for x in k)


def map_slot(ip, st, v, key):
    return Seq((("slot", key),))


def map_update(ip, st, v, step, path, val):
    """Store through a reference to a map value."""
    _, key, mode = step
    if path or not isinstance(v, Seq) or not isinstance(val, Seq) or not val.parts or val.parts[0] != ("slot", key):
        return Seq((v.parts if isinstance(v, Seq) else ()) + (("over", key, val),), True)
    parts = v.parts
    for p in val.parts[1:]:
        if p[0] != "one":
            return Seq(parts + (("over", key, val),), True)
        parts = parts + (("gpush", key, mode, p[1]),)
        mode = "last"
    return Seq(parts, True)


@model(MAP + r"(iter|keys|values|into_keys|into_values|iter_mut|values_mut)$",
       r"indexmap::map::iter::<impl std::iter::IntoIterator for .*indexmap::map::IndexMap<K, V, S>>::into_iter$")
def m_map_iter(ip, st, c):
    v = deref(ip, st, c.args[0])
    if not isinstance(v, Seq):
        return inline()
    name = c.trait.rsplit("::", 1)[1]
    kind = {"keys": "mapk", "values": "mapv", "values_mut": "mapv"}.get(name, "mapref")
    t = ip.db.types[c.ats[0]] if c.ats and c.ats[0] is not None else {}
    if t.get("k") == "ref" and t.get("mut"):
        ref = last_ref(ip, st, c.args[0])
        if ref is None:
            return inline()
        ip.store(st, ref.cell, ref.path, Top("iterated mutably"))
    if name == "into_iter" and not isinstance(c.args[0], Ref):
        kind = "mapval"
    return Obj("iter", base=("seq", v.parts, kind), ops=())


@model(r"std::ptr::(const_ptr|mut_ptr)::<impl .*>::read(_unaligned|_volatile)?$", r"std::ptr::read(_unaligned|_volatile)?$")
def m_ptr_read(ip, st, c):
    v = c.args[0]
    if not isinstance(v, Ref):
        return inline()
    return ip.load(st, v.cell, v.path)


@model(r"std::mem::transmute_copy$")
def m_transmute_copy(ip, st, c):
    v = c.args[0]
    a = ip.db.pointee(c.ats[0]) if c.ats and c.ats[0] is not None else None
    if not isinstance(v, Ref) or a is None:
        return inline()
    return ip.transmute(st, ip.load(st, v.cell, v.path), a, c.dt)


@model(r"std::collections::HashMap::<K, V>::new$", r"<std::collections::HashMap<.*> as std::default::Default>::default$")
def m_hash_new(ip, st, c):
    return Obj("hashmap", key=None, ty=c.dt)


@model(r"std::collections::HashMap::<K, V, S(, A)?>::(get|contains_key|is_empty|len)$")
def m_hash_get(ip, st, c):
    h = deref(ip, st, c.args[0])
    name = c.trait.rsplit("::", 1)[1]
    if not isinstance(h, Obj) or h.kind != "hashmap":
        return inline()
    n = 0 if h["key"] is None else atom(("len", ("hm", h["key"])))
    if name == "len":
        return n
    if name == "is_empty":
        return True if n == 0 else ("eq0", n)
    key = as_str(ip, st, c.args[1])
    if name == "get":
        st.event("hint", key.t if key is not None else None, ip.loc(st, c.sp), h["key"])
    if h["key"] is None:
        return none(c) if name == "get" else False
    k = ("hget", h["key"], key.t if key is not None else ("?", st.fresh()))
    outs = []
    for s, b in ip.decide(st, ("isvar", k, 1, 2)):
        if b and not s.assume(("lt0", sub(n, 1)), False):
            continue
        if name != "get":
            outs.append((s, b))
        elif not b:
            outs.append((s, none(c)))
        else:
            cell = ("sym", ("hval", k))
            s.cells[cell] = Str(("v", ("hval", k)))
            outs.append((s, some(c, Ref(cell))))
    return outs


# ---- iterators --------------------------------------------------------------------------------
def to_iter(ip, st, v, ty=None):
    """Iterator object for a value passed to into_iter."""
    if isinstance(v, Obj) and v.kind == "iter":
        return v
    if isinstance(v, Ref):
        w = deref(ip, st, v)
        if isinstance(w, Obj) and w.kind == "iter":
            return None  # iterator by reference
        if isinstance(w, Seq):
            return Obj("iter", base=("seq", w.parts, "mapref" if w.map else "ref"), ops=())
        if isinstance(w, Agg) and (w.ty is None or ip.db.types[w.ty]["k"] in ("array", "slice")):
            return Obj("iter", base=("seq", tuple(("one", x) for x in w.f), "ref"), ops=())
        if isinstance(w, Sym) and ip.db.types[w.ty]["k"] == "array" and ip.db.types[w.ty]["len"] <= 64:
            n = ip.db.types[w.ty]["len"]
            return Obj("iter", base=("seq", tuple(("one", ip.elem(st, w, i)) for i in range(n)), "ref"), ops=())
        return None
    if isinstance(v, Seq):
        return Obj("iter", base=("seq", v.parts, "mapval" if v.map else "val"), ops=())
    if isinstance(v, Sym) and ip.db.types[v.ty]["k"] == "array" and ip.db.types[v.ty]["len"] <= 64:
        n = ip.db.types[v.ty]["len"]
        return Obj("iter", base=("seq", tuple(("one", ip.elem(st, v, i)) for i in range(n)), "val"), ops=())
    if isinstance(v, Agg) and v.ty is not None:
        t = ip.db.types[v.ty]
        if t["k"] == "array":
            return Obj("iter", base=("seq", tuple(("one", x) for x in v.f), "val"), ops=())
        if t["k"] == "adt" and t["name"] in ("std::ops::Range", "core::ops::Range"):
            return Obj("iter", base=("range", v.f[0], v.f[1]), ops=())
        if t["k"] == "adt" and t["name"] in ("std::ops::RangeInclusive", "core::ops::RangeInclusive"):
            return Obj("iter", base=("range", v.f[0], add(v.f[1], 1)), ops=())
        if t["k"] == "adt" and t["name"] in ("std::option::Option", "core::option::Option"):
            return Obj("iter", base=("seq", (("one", v.f[0]),) if v.var == 1 else (), "val"), ops=())
    return None


def iter_mut(ip, st, c):
    """Iterator over places: the elements can be assigned to."""
    t = ip.db.types[c.ats[0]] if c.ats and c.ats[0] is not None else {}
    if t.get("k") != "ref" or not t.get("mut"):
        return None
    ref, w = last_ref(ip, st, c.args[0]), deref(ip, st, c.args[0])
    if ref is None:
        return None
    n = None
    if isinstance(w, Agg) and (w.ty is None or ip.db.types[w.ty]["k"] in ("array", "slice")):
        n = len(w.f)
    elif isinstance(w, Sym) and ip.db.types[w.ty]["k"] == "array" and ip.db.types[w.ty]["len"] <= 64:
        n = ip.db.types[w.ty]["len"]
    elif isinstance(w, Seq) and not w.map and all(p[0] == "one" for p in w.parts):
        n = len(w.parts)
    if n is not None:
        return Obj("iter", base=("seq", tuple(("one", Ref(ref.cell, ref.path + (("i", k),))) for k in range(n)), "val"), ops=())
    if isinstance(w, Seq):
        ip.store(st, ref.cell, ref.path, Top("iterated mutably"))
        return Obj("iter", base=("seq", w.parts, "mapref" if w.map else "ref"), ops=())
    return None


@model(r"std::iter::IntoIterator::into_iter$", r"core::slice::<impl \[T\]>::(iter|iter_mut)$")
def m_into_iter(ip, st, c):
    if c.info is not None and c.info["crate"] in ("gvas", "vroots"):
        return inline()
    it = iter_mut(ip, st, c)
    if it is None:
        it = to_iter(ip, st, c.args[0])
    if it is not None:
        return it
    v = deref(ip, st, c.args[0])
    if isinstance(v, Obj) and v.kind == "iter":
        return c.args[0]
    if isinstance(v, (Ref, Agg)) or c.trait.endswith("into_iter"):
        return c.args[0] if isinstance(v, Agg) else inline()
    return inline()


@model(r"core::str::<impl str>::(bytes|chars|char_indices|split|lines)$")
def m_str_iter(ip, st, c):
    v = as_str(ip, st, c.args[0])
    if v is None:
        return inline()
    if isinstance(v.t, str) and c.trait.endswith("bytes"):
        return Obj("iter", base=("seq", tuple(("one", b) for b in v.t.encode()), "val"), ops=())
    if c.trait.endswith("bytes"):
        return Obj("iter", base=("seq", (("bytes", ("utf8", v.t), atom(("blen", v.t))),), "val"), ops=())
    return Obj("iter", base=("seq", (("opaque", v.t) + (("chars",) if c.trait.endswith("chars") else ()),), "val"), ops=())


ADAPT = {"map": "map", "filter": "filter", "enumerate": "enumerate", "cloned": "cloned", "copied": "cloned",
         "inspect": "inspect", "by_ref": None, "fuse": None, "peekable": None, "rev": "rev", "take": "take",
         "skip": "skip", "zip": "zip", "chain": "chain", "filter_map": "filter_map", "flatten": None}


@model(r"std::iter::Iterator::(map|filter|enumerate|cloned|copied|inspect|rev|take|skip|zip|chain|filter_map|by_ref|fuse|flat_map|flatten)$",
       r"std::iter::DoubleEndedIterator::rev$")
def m_adapter(ip, st, c):
    name = c.trait.rsplit("::", 1)[1]
    it = c.args[0]
    if name == "by_ref":
        return it
    if isinstance(it, Ref):
        it = deref(ip, st, it)
    if not (isinstance(it, Obj) and it.kind == "iter"):
        it2 = to_iter(ip, st, it)
        if it2 is None:
            return inline()
        it = it2
    if name == "fuse":
        return it
    if it["base"][0] == "flat" and name not in ("cloned", "copied", "map", "inspect"):
        return inline()
    if name in ("flat_map", "flatten"):
        return Obj("iter", base=("flat", it, c.args[1] if name == "flat_map" else None), ops=())
    if name in ("cloned", "copied"):
        return it.with_(ops=it["ops"] + (("cloned",),))
    if name == "enumerate":
        return it.with_(ops=it["ops"] + (("enumerate", 0),))
    if name in ("map", "filter", "inspect", "filter_map"):
        return it.with_(ops=it["ops"] + ((name, c.args[1]),))
    if name == "zip":
        o = to_iter(ip, st, c.args[1])
        if o is None or o["base"][0] == "flat":
            return inline()
        return Obj("iter", base=("zip", it, o), ops=())
    if name == "chain":
        o = to_iter(ip, st, c.args[1])
        if o is None or o["base"][0] == "flat":
            return inline()
        a, b = it["base"], o["base"]
        if a[0] == b[0] == "seq" and a[2] == b[2] and it["ops"] == o["ops"] and all(x[0] == "cloned" for x in it["ops"]):
            return it.with_(base=("seq", a[1] + b[1], a[2]))
        return Obj("iter", base=("chain", it, o), ops=())
    if name == "rev" and it["base"][0] == "seq" and not it["ops"]:
        ps = it["base"][1]
        if all(p[0] == "one" for p in ps):
            return it.with_(base=("seq", ps[::-1], it["base"][2]))
        for p in ps:
            if p[0] == "loop" and p[1][0] != "regroup":
                # as many iterations of each kind, in another order
                st.facts.sub[("n", ("regroup", p[1]))] = atom(("n", p[1]))
                for j, _, _ in p[2]:
                    st.facts.sub[("cnt", ("regroup", p[1]), j)] = atom(("cnt", p[1], j))
        return it.with_(base=("seq", tuple(rev_part(p) for p in ps[::-1]), it["base"][2]))
    if name == "rev" and it["base"][0] == "range" and not it["ops"]:
        lo, hi = st.norm(it["base"][1]), st.norm(it["base"][2])
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            return it.with_(base=("seq", tuple(("one", i) for i in range(hi - 1, lo - 1, -1)), "val"))
    if name in ("take", "skip"):
        n = st.norm(c.args[1])
        if it["base"][0] == "seq" and not it["ops"] and isinstance(n, int):
            ps = it["base"][1]
            if all(p[0] == "one" for p in ps[:n]) and (len(ps) >= n or all(p[0] == "one" for p in ps)):
                return it.with_(base=("seq", ps[:n] if name == "take" else ps[n:], it["base"][2]))
        one = all(o[0] in ("map", "gen", "cloned", "enumerate", "inspect") for o in it["ops"])
        if it["base"][0] == "forever" and name == "take":
            return it.with_(base=("range", 0, n)) if one else inline()
        if it["base"][0] == "range" and one and name == "take":
            end = add(it["base"][1], n)
            if st.nonneg(sub(it["base"][2], end)):
                return it.with_(base=("range", it["base"][1], end))
            if st.nonneg(sub(end, it["base"][2])):
                return it
        if it["base"][0] == "range" and not it["ops"] and name == "skip":
            return it.with_(base=("range", add(it["base"][1], c.args[1]), it["base"][2]))
    return inline()


@model(r"std::iter::repeat_with$")
def m_repeat_with(ip, st, c):
    return Obj("iter", base=("forever",), ops=(("gen", c.args[0]),))


@model(r"std::iter::(once|empty)$")
def m_once(ip, st, c):
    return Obj("iter", base=("seq", (("one", c.args[0]),) if c.args else (), "val"), ops=())


@model(r"std::iter::repeat_n$")
def m_repeat_n(ip, st, c):
    return Obj("iter", base=("seq", (("rep", c.args[0], c.args[1]),), "val"), ops=())


def rev_part(p):
    if p[0] == "one":
        return p
    if p[0] == "sym":
        return ("sym", ("rev", p[1]), p[2])
    if p[0] == "loop":
        alts = tuple((j, d, tuple(rev_part(q) for q in ps[::-1])) for j, d, ps in p[2])
        return ("loop", p[1][1] if p[1][0] == "regroup" else ("regroup", p[1]), alts)
    return ("opaque", ("rev", p))


def wrap_elem(ip, st, v, kind):
    if kind in ("val", "mapval"):
        return v
    if kind == "ref":
        return tmp(ip, st, v)
    if kind in ("mapref", "mapk", "mapv"):
        k, x = v.f if isinstance(v, Agg) else (Top("key"), Top("value"))
        rk = tmp(ip, st, k)
        rv = tmp(ip, st, x)
        return rk if kind == "mapk" else rv if kind == "mapv" else Agg(None, 0, (rk, rv))
    return v


def base_next(ip, st, b, ref):
    """(element or NONE, new base) of an undecorated iterator; raises when not decided."""
    if b[0] == "range":
        lo, hi = st.norm(b[1]), st.norm(b[2])
        d = sub(hi, lo)
        r = st.simp(("lt0", neg(d))) if isinstance(d, Lin) else d > 0
        if r is False:
            return NONE, b
        if isinstance(lo, int) and isinstance(hi, int):
            return lo, ("range", lo + 1, hi)
        raise NeedGeneric(ref.cell, ref.path)
    if b[0] == "seq":
        ps = b[1]
        if not ps:
            return NONE, b
        if ps[0][0] == "one":
            return wrap_elem(ip, st, ps[0][1], b[2]), ("seq", ps[1:], b[2])
        if ps[0][0] in ("rep", "bytes", "u16", "chunks") and is_int(ps[0][2]):
            n = st.norm(ps[0][2])
            if n == 0:
                return base_next(ip, st, ("seq", ps[1:], b[2]), ref)
            if isinstance(n, int) and n <= 64 and ps[0][0] == "rep":
                return wrap_elem(ip, st, ps[0][1], b[2]), ("seq", (("rep", ps[0][1], n - 1),) + ps[1:], b[2])
        if ps[0][0] in ("sym", "loop"):
            L = ("S", ps[0][1]) if ps[0][0] == "sym" else ps[0][1]
            if st.norm(atom(("n", L))) == 0:
                return base_next(ip, st, ("seq", ps[1:], b[2]), ref)
        if ps[0][0] in ("over", "gpush"):
            st.event("lossy", ps[0][0])
        raise NeedGeneric(ref.cell, ref.path)
    raise KeyError(b[0])


def iter_next(ip, st, ref):
    """[(state, element | NONE)] and the iterator advanced in place."""
    it = ip.load(st, ref.cell, ref.path)
    outs = []
    b = it["base"]
    if b[0] in ("zip", "chain"):
        ra = tmp(ip, st, b[1])
        rb = tmp(ip, st, b[2])
        try:
            xs = iter_next(ip, st, ra)
            first = []
            for s, x in xs:
                if b[0] == "chain":
                    if x is NONE:
                        for s2, y in iter_next(ip, s, rb):
                            first.append((s2, y))
                    else:
                        first.append((s, x))
                elif x is NONE:
                    first.append((s, NONE))
                else:
                    for s2, y in iter_next(ip, s, rb):
                        first.append((s2, NONE if y is NONE else Agg(None, 0, (x, y))))
        except NeedGeneric:
            raise NeedGeneric(ref.cell, ref.path)
        res = []
        for s, x in first:
            cur = ip.load(s, ref.cell, ref.path)
            ip.store(s, ref.cell, ref.path, cur.with_(base=(b[0], ip.load(s, ra.cell, ra.path), ip.load(s, rb.cell, rb.path))))
            res.append((s, x))
    else:
        x, nb = base_next(ip, st, b, ref)
        ip.store(st, ref.cell, ref.path, it.with_(base=nb))
        res = [(st, x)]
    st.note("conc", ref.cell)
    for s, x in res:
        if s is not st:
            s.note("conc", ref.cell)
        outs += run_ops(ip, s, ref, x, 0)
    return outs


def run_ops(ip, st, ref, x, i):
    it = ip.load(st, ref.cell, ref.path)
    if x is NONE:
        return [(st, NONE)]
    ops = it["ops"]
    while i < len(ops):
        o = ops[i]
        if o[0] == "cloned":
            x = deref1(ip, st, x)
        elif o[0] == "enumerate":
            x = Agg(None, 0, (o[1], x))
            ops = ops[:i] + (("enumerate", add(o[1], 1)),) + ops[i + 1:]
            ip.store(st, ref.cell, ref.path, it.with_(ops=ops))
            it = ip.load(st, ref.cell, ref.path)
        elif o[0] in ("map", "gen"):
            out = []
            for s, y in call_fn(ip, st, o[1], (x,) if o[0] == "map" else ()):
                out += run_ops(ip, s, ref, y, i + 1)
            return out
        elif o[0] == "inspect":
            out = []
            for s, y in call_fn(ip, st, o[1], (tmp(ip, st, x),)):
                out += run_ops(ip, s, ref, x, i + 1)
            return out
        elif o[0] == "filter":
            out = []
            for s, y in call_fn(ip, st, o[1], (tmp(ip, st, x),)):
                for s2, b in ip.decide(s, y if isinstance(y, (bool, tuple)) else ("app", "filter", s.fresh())):
                    if b:
                        out += run_ops(ip, s2, ref, x, i + 1)
                    else:
                        out += iter_skip(ip, s2, ref)
            return out
        elif o[0] == "filter_map":
            out = []
            for s, y in call_fn(ip, st, o[1], (x,)):
                if isinstance(y, Agg) and y.var == 1:
                    out += run_ops(ip, s, ref, y.f[0], i + 1)
                elif isinstance(y, Agg):
                    out += iter_skip(ip, s, ref)
                else:
                    out.append((s, Top("filter_map")))
            return out
        i += 1
    return [(st, x)]


SKIPPED = object()


def iter_skip(ip, st, ref):
    it = ip.load(st, ref.cell, ref.path)
    if iter_empty(it):
        return [(st, SKIPPED)]
    return iter_next(ip, st, ref)


@model(r"std::iter::Iterator::next$")
def m_next(ip, st, c):
    ref = last_ref(ip, st, c.args[0])
    if ref is None:
        return inline()
    it = ip.load(st, ref.cell, ref.path)
    if isinstance(it, Agg) and it.ty is not None:
        conv = to_iter(ip, st, it)
        if conv is None:
            return inline()
        it = conv
        ip.store(st, ref.cell, ref.path, it)
    if not isinstance(it, Obj) or it.kind != "iter" or it["base"][0] == "flat":
        return inline()
    try:
        outs = iter_next(ip, st, ref)
    except NeedGeneric:
        if ip.loop_stack and ref.cell in ip.loop_stack[-1]:
            raise
        outs = peek(ip, st, ref, it)
    res = []
    for s, x in outs:
        if x is SKIPPED:
            # a filtered element: the iterator is used up for this generic iteration
            x = NONE
        res.append((s, none(c) if x is NONE else some(c, x)))
    return res


def peek(ip, st, ref, it):
    """A single next() outside of a loop on a sequence of unknown length."""
    b = it["base"]
    if b[0] == "seq" and not it["ops"] and b[1][0][0] == "sym" and not isinstance(b[1][0][2], tuple):
        p = b[1][0]
        n = atom(("n", ("S", p[1])))
        outs = []
        for s, z in ip.decide(st, ("eq0", n)):
            if z:
                ip.store(s, ref.cell, ref.path, it.with_(base=("seq", b[1][1:], b[2])))
                outs.append((s, NONE))
            else:
                e = ip.mk(s, ("at", p[1], 0), p[2])
                ip.store(s, ref.cell, ref.path, it.with_(base=("seq", (("sym", ("tail", p[1]), p[2]),) + b[1][1:], b[2])))
                outs.append((s, wrap_elem(ip, s, e, b[2])))
        return outs
    if b[0] == "range" and not it["ops"]:
        outs = []
        d = sub(b[2], b[1])
        for s, z in ip.decide(st, ("lt0", neg(d)) if isinstance(d, Lin) else d > 0):
            if z:
                ip.store(s, ref.cell, ref.path, it.with_(base=("range", add(b[1], 1), b[2])))
                outs.append((s, b[1]))
            else:
                outs.append((s, NONE))
        return outs
    s2 = st.clone()
    ip.unmodelled.setdefault("single next()", ip.loc(st))
    ip.store(st, ref.cell, ref.path, Top("iterator"))
    ip.store(s2, ref.cell, ref.path, Top("iterator"))
    return [(st, Top("element")), (s2, NONE)]


def flattened(ip, it, body, sp, name):
    """(body, iterator) going through the iterators the outer one gives."""
    _, outer, f = it["base"]

    def each(s, x):
        pre = tmp(ip, s, it)
        out = []
        for s2, y in run_ops(ip, s, pre, x, 0):
            out += body(s2, y)
        return out

    def inner(s, x):
        outs = []
        for s2, y in (call_fn(ip, s, f, (x,), sp) if f is not None else [(s, x)]):
            j = to_iter(ip, s2, y)
            if j is None:
                s2.event("unmodelled", "flattened iterator")
                outs += each(s2, Top("flattened iterator"))
                continue
            if j["base"][0] == "seq" and not j["ops"] and all(p[0] == "one" for p in j["base"][1]):
                todo = [s2]
                for p in j["base"][1]:
                    nxt = []
                    for s3 in todo:
                        for tag, s4 in each(s3, wrap_elem(ip, s3, p[1], j["base"][2])):
                            if tag == "go":
                                nxt.append(s4)
                            else:
                                outs.append((tag, s4))
                    todo = nxt
                outs += [("go", s3) for s3 in todo]
            else:
                outs += [("go" if tag == "done" else tag, s3) for tag, s3 in native_loop(ip, s2, j, each, sp, name + "'")]
        return outs
    return inner, outer


def native_loop(ip, st, it, body, sp, name):
    """Run body(state, element) -> [(tag, state)] for every element; returns states after the loop.

    Tags: 'go' continue with the next element, anything else leaves the loop with that tag.
    """
    if it["base"][0] == "flat":
        body, it = flattened(ip, it, body, sp, name)
    ref = tmp(ip, st, it, "it")
    flag = ("exit", st.fresh())
    st.cells[flag] = 0

    def run_iter(s):
        out = []
        for s2, x in iter_next(ip, s, ref):
            if x is SKIPPED:
                out.append(("back", s2))
                continue
            if x is NONE:
                s2.cells[flag] = "done"
                out.append(("exit", s2))
                continue
            for tag, s3 in body(s2, x):
                if tag == "go":
                    out.append(("back", s3))
                else:
                    s3.cells[flag] = tag
                    out.append(("exit", s3))
        return out

    outs = summarise(ip, st, run_iter, name)
    res = []
    for s in outs:
        tag = s.cells.pop(flag)
        s.cells.pop(ref.cell, None)
        res.append((tag, s))
    return res


def reserve_for(ip, st, it, sp):
    """Collecting an iterator of known length reserves room for all of its items at once."""
    b = it["base"]
    if b[0] == "range" and all(o[0] in ("map", "gen", "enumerate", "inspect", "cloned") for o in it["ops"]):
        if is_int(b[1]) and is_int(b[2]):
            n = st.norm(sub(b[2], b[1]))
            st.event("alloc", ip.loc(st, sp), ip.crate_fn(st), n, 1, st.rng(n), read_so_far(st))


def collect_seq(ip, st, it, sp):
    """[(state, Seq)] of collecting an iterator."""
    reserve_for(ip, st, it, sp)
    acc = tmp(ip, st, Seq(()), "acc")

    def body(s, x):
        v = s.cells[acc.cell]
        s.cells[acc.cell] = Seq(v.parts + (("one", x),), v.map)
        return [("go", s)]
    out = []
    for tag, s in native_loop(ip, st, it, body, sp, "collect@" + ip.loc(st, sp)):
        out.append((s, s.cells.pop(acc.cell)))
    return out


def coll_kind(ip, ty):
    t = ip.db.types[ty]
    n = t["name"] if t["k"] == "adt" else ""
    if n.endswith("Vec"):
        return "vec"
    if n.endswith("IndexMap"):
        return "map"
    if n.endswith("::Result"):
        return "result"
    if n.endswith("::Option"):
        return "option"
    if n.endswith("::String"):
        return "string"
    if t["k"] == "adt" and t["box"]:
        return "vec"
    return None


@model(r"std::iter::Iterator::collect$", r"std::iter::FromIterator::from_iter$")
def m_collect(ip, st, c):
    it = c.args[0]
    if not (isinstance(it, Obj) and it.kind == "iter"):
        it = to_iter(ip, st, it)
        if it is None:
            return inline()
    kind = coll_kind(ip, c.dt)
    if kind == "vec":
        return collect_seq(ip, st, it, c.sp)
    if kind == "map":
        return collect_map(ip, st, it, c, c.dt)
    if kind in ("result", "option"):
        inner = ip.db.types[c.dt]["args"][0]
        ik = coll_kind(ip, inner)
        t = ip.db.types[inner]
        if ik not in ("vec", "map") and not (t["k"] == "tuple" and not t["ts"]):
            return inline()
        good = 0 if kind == "result" else 1
        acc = tmp(ip, st, Seq((), ik == "map"), "acc")
        bad = ("bad", st.fresh())
        st.cells[bad] = 0

        def body(s, x):
            if isinstance(x, Sym):
                outs = []
                for s2, b in ip.decide(s, ("isvar", x.key, good, 2)):
                    v = Agg(x.ty, good if b else 1 - good, (ip.proj(s2, x, ("f", good if b else 1 - good, 0)),) if b or kind == "result" else ())
                    outs += body(s2, v)
                return outs
            if not isinstance(x, Agg):
                s.event("unmodelled", "collect")
                s.cells[bad] = Top("collect")
                return [("bad", s)]
            if x.var != good:
                s.cells[bad] = x.f[0] if x.f else UNIT
                return [("bad", s)]
            if ik in ("vec", "map"):
                v = s.cells[acc.cell]
                if ik == "map":
                    y = x.f[0]
                    return [("go", s2) for s2, _ in map_put(ip, s, acc, y, c)]
                s.cells[acc.cell] = Seq(v.parts + (("one", x.f[0]),), v.map)
            return [("go", s)]
        out = []
        for tag, s in native_loop(ip, st, it, body, c.sp, "collect@" + ip.loc(st, c.sp)):
            v = s.cells.pop(acc.cell)
            e = s.cells.pop(bad)
            if tag == "done":
                if ik not in ("vec", "map"):
                    v = UNIT
                out.append((s, Agg(c.dt, good, (v,))))
            else:
                out.append((s, Agg(c.dt, 1 - good, (e,) if kind == "result" else ())))
        return out
    return inline()


def map_put(ip, st, acc, pair, c):
    """Insert a pair while collecting into a map: later duplicates overwrite."""
    v = st.cells[acc.cell]
    if isinstance(pair, Sym):
        pair = ip.expand(st, pair, 0)
    key = keyval(ip, st, pair.f[0]) if isinstance(pair, Agg) else ("?",)
    outs = []
    for s, i in (map_query(ip, st, acc, v, key, c) if v.parts else [(st, None)]):
        forget_queries(s, acc)
        p = ("one", pair) if i is None else ("over", key, pair.f[1] if isinstance(pair, Agg) else Top("pair"))
        s.cells[acc.cell] = Seq(v.parts + (p,), True)
        outs.append((s, None))
    return outs


def collect_map(ip, st, it, c, ty):
    reserve_for(ip, st, it, c.sp)
    acc = tmp(ip, st, Seq((), True), "acc")

    def body(s, x):
        return [("go", s2) for s2, _ in map_put(ip, s, acc, x, c)]
    out = []
    for tag, s in native_loop(ip, st, it, body, c.sp, "collect@" + ip.loc(st, c.sp)):
        out.append((s, s.cells.pop(acc.cell)))
    return out


@model(r"std::iter::Iterator::(for_each|try_for_each|fold|try_fold|all|any|sum|count|find|position|last|nth)$")
def m_consume(ip, st, c):
    name = c.trait.rsplit("::", 1)[1]
    it = c.args[0]
    by_ref = None
    if isinstance(it, Ref):
        by_ref = last_ref(ip, st, it)
        it = deref(ip, st, it)
    if not (isinstance(it, Obj) and it.kind == "iter"):
        it = to_iter(ip, st, it)
        if it is None:
            return inline()
    if it["base"][0] == "flat" and name in ("all", "any", "count", "find", "position", "last", "nth"):
        return inline()
    if name in ("count",) and it["base"][0] == "seq" and not any(o[0].startswith("filter") for o in it["ops"]):
        return ip.parts_len(st, it["base"][1])
    if name in ("all", "any"):
        return all_any(ip, st, c, it, name)
    if name == "for_each":
        def body(s, x):
            return [("go", s2) for s2, _ in call_fn(ip, s, c.args[1], (x,), c.sp)]
        return [(s, UNIT) for _, s in native_loop(ip, st, it, body, c.sp, "for_each@" + ip.loc(st, c.sp))]
    if name == "sum":
        acc = tmp(ip, st, 0, "acc")

        def body(s, x):
            v = deref(ip, s, x)
            a = s.cells[acc.cell]
            if is_int(v) and is_int(a):
                s.cells[acc.cell] = add(a, v)
            else:
                s.cells[acc.cell] = Top("sum")
            return [("go", s)]
        if c.dt is not None and ip.db.types[c.dt]["k"] == "int":
            return [(s, s.cells.pop(acc.cell)) for _, s in native_loop(ip, st, it, body, c.sp, "sum@" + ip.loc(st, c.sp))]
        return sum_result(ip, st, c, it)
    if name == "fold":
        acc = tmp(ip, st, c.args[1], "acc")

        def body(s, x):
            outs = []
            for s2, v in call_fn(ip, s, c.args[2], (s.cells[acc.cell], x), c.sp):
                s2.cells[acc.cell] = v
                outs.append(("go", s2))
            return outs
        return [(s, s.cells.pop(acc.cell)) for _, s in native_loop(ip, st, it, body, c.sp, "fold@" + ip.loc(st, c.sp))]
    if name in ("try_for_each", "try_fold"):
        t = ip.db.types[c.dt]
        if not (t["k"] == "adt" and t["name"].endswith("Result")):
            return inline()
        acc = tmp(ip, st, c.args[1] if name == "try_fold" else UNIT, "acc")
        bad = ("bad", st.fresh())
        st.cells[bad] = 0
        f = c.args[2] if name == "try_fold" else c.args[1]

        def body(s, x):
            outs = []
            a = (s.cells[acc.cell], x) if name == "try_fold" else (x,)
            for s2, v in call_fn(ip, s, f, a, c.sp):
                if isinstance(v, Agg) and v.var == 0:
                    s2.cells[acc.cell] = v.f[0]
                    outs.append(("go", s2))
                elif isinstance(v, Agg):
                    s2.cells[bad] = v.f[0]
                    outs.append(("bad", s2))
                else:
                    s2.event("unmodelled", name)
                    s2.cells[bad] = Top(name)
                    outs.append(("bad", s2))
            return outs
        out = []
        for tag, s in native_loop(ip, st, it, body, c.sp, name + "@" + ip.loc(st, c.sp)):
            a, e = s.cells.pop(acc.cell), s.cells.pop(bad)
            out.append((s, Agg(c.dt, 0, (a,)) if tag == "done" else Agg(c.dt, 1, (e,))))
        return out
    return inline()


def sum_result(ip, st, c, it):
    """Sum of an iterator of results."""
    t = ip.db.types[c.dt]
    if not (t["k"] == "adt" and t["name"].endswith("Result")):
        return inline()
    acc = tmp(ip, st, 0, "acc")
    bad = ("bad", st.fresh())
    st.cells[bad] = 0

    def body(s, x):
        if isinstance(x, Agg) and x.var == 0 and is_int(x.f[0]):
            s.cells[acc.cell] = add(s.cells[acc.cell], x.f[0])
            return [("go", s)]
        if isinstance(x, Agg) and x.var == 1:
            s.cells[bad] = x.f[0]
            return [("bad", s)]
        s.event("unmodelled", "sum")
        s.cells[bad] = Top("sum")
        return [("bad", s)]
    out = []
    for tag, s in native_loop(ip, st, it, body, c.sp, "sum@" + ip.loc(st, c.sp)):
        a, e = s.cells.pop(acc.cell), s.cells.pop(bad)
        out.append((s, Agg(c.dt, 0, (a,)) if tag == "done" else Agg(c.dt, 1, (e,))))
    return out


HEXDIGITS = frozenset(b"0123456789abcdefABCDEF")


def byte_set(ip, st, f, sp, name):
    """The bytes (or ASCII characters) a predicate accepts, or None; characters beyond are tried by one example each."""
    s0 = st.clone()
    ip.quiet += 1
    try:
        out = set()
        for x in range(256):
            s = s0.clone()
            outs = call_fn(ip, s, f, (x if name == "val" else tmp(ip, s, x),), sp)
            if len(outs) != 1 or not isinstance(outs[0][1], bool):
                return None
            if outs[0][1]:
                out.add(x)
        return frozenset(out)
    except Abort:
        return None
    finally:
        ip.quiet -= 1


def pointwise(ip, st, c, it):
    """all() over the pairs of two walks or over one walk, kept as a fact together with what the predicate establishes."""
    f = deref(ip, st, c.args[1])
    inst = f.inst if isinstance(f, FnV) else ip.db.types[f.ty].get("inst") if isinstance(f, Agg) and f.ty is not None else None
    b = ip.db.body(inst) if inst is not None else None
    if b is None or it["ops"]:
        return ("app", "all", st.fresh())
    s = st.clone()
    x = ip.mk(s, ("element", s.fresh()), b.locals[b.argc])
    ip.quiet += 1
    try:
        outs = call_fn(ip, s, c.args[1], (x,), c.sp)
    finally:
        ip.quiet -= 1
    base = it["base"]
    over = (hashed(base[1]), hashed(base[2])) if base[0] == "zip" else (hashed(it),)
    k = len(ip.preds)
    ip.preds.append((inst, x, b.locals[b.argc], outs))
    return ("pointwise", over, k)


def all_any(ip, st, c, it, name):
    b = it["base"]
    if ip.eq_cut:
        if name == "all" and b[0] in ("seq", "zip"):
            return pointwise(ip, st, c, it)
        return ("app", name, st.fresh())
    if b[0] == "seq" and len(b[1]) == 1 and not it["ops"] and (b[1][0][0] == "opaque" and b[1][0][2:] == ("chars",) or
                                                              b[1][0][0] == "bytes" and b[1][0][1][0] == "utf8"):
        term = b[1][0][1] if b[1][0][0] == "opaque" else b[1][0][1][1]
        acc = byte_set(ip, st, c.args[1], c.sp, b[2])
        if acc is not None:
            if name == "any":
                acc = frozenset(range(256)) - acc
            cond = ("allhex", term) if acc == HEXDIGITS else ("ascii", term) if acc == frozenset(range(128)) else ("allin", term, acc)
            return [(s2, r if name == "all" else not r) for s2, r in ip.decide(st, cond)]
    if b[0] == "seq" and len(b[1]) == 1 and b[1][0][0] == "bytes" and b[1][0][1][0] == "utf8":
        # a predicate over the bytes of a string
        x = atom(("v", ("byte", b[1][0][1], "*"), 8, False))
        s = st.clone()
        ip.quiet += 1
        try:
            outs = call_fn(ip, s, c.args[1], (x,), c.sp)
        finally:
            ip.quiet -= 1
        terms = tuple(sorted({repr(v) for _, v in outs}))
        term = b[1][0][1][1]
        pred = outs[0][1] if len(outs) == 1 else None
        if name == "all" and isinstance(pred, tuple) and pred[:2] == ("app", "is_ascii_hexdigit"):
            out = []
            for s2, r in ip.decide(st, ("allhex", term)):
                out.append((s2, r))
            return out
        if name == "any" and isinstance(pred, tuple) and pred[0] == "not" and pred[1][:2] == ("app", "is_ascii_hexdigit"):
            return [(s2, not r) for s2, r in ip.decide(st, ("allhex", term))]
        return ("all" if name == "all" else "any", term, terms)
    flag = name == "all"

    def body(s, x):
        outs = []
        for s2, v in call_fn(ip, s, c.args[1], (x,), c.sp):
            if not isinstance(v, (bool, tuple)):
                v = ("app", "pred", s2.fresh())
            for s3, r in ip.decide(s2, v):
                outs.append(("go" if r == flag else "stop", s3))
        return outs
    return [(s, flag if tag == "done" else not flag)
            for tag, s in native_loop(ip, st, it, body, c.sp, name + "@" + ip.loc(st, c.sp))]


@model(r"std::iter::Iterator::eq$")
def m_iter_eq(ip, st, c):
    if ip.eq_cut:
        return ("itereq", hashed(to_iter(ip, st, c.args[0]) or c.args[0]), hashed(to_iter(ip, st, c.args[1]) or c.args[1]))
    return ("app", "iter_eq", hashed(c.args[0]), hashed(c.args[1]))


@model(r"std::iter::(ExactSizeIterator::len|Iterator::size_hint)$")
def m_it_len(ip, st, c):
    it = deref(ip, st, c.args[0])
    if isinstance(it, Obj) and it.kind == "iter" and it["base"][0] == "seq" and c.trait.endswith("len"):
        return ip.parts_len(st, it["base"][1])
    return inline()


# ---- hashing ----------------------------------------------------------------------------------
@model(r"std::hash::Hash::hash$")
def m_hash(ip, st, c):
    if c.info is not None and c.info["crate"] in ("gvas", "vroots"):
        return inline()
    st.event("hash", ip.db.types[c.ats[0]]["text"] if c.ats else "?", hashed(deref(ip, st, c.args[0])))
    return UNIT


@model(r"std::intrinsics::(cold_path|assert_inhabited)$", r"core::panicking::.*precondition.*", r"core::ub_checks::.*")
def m_nop(ip, st, c):
    return UNIT


@model(r"std::mem::size_of_val$", r"std::intrinsics::size_of_val$")
def m_size_of_val(ip, st, c):
    p = ip.db.pointee(c.ats[0]) if c.ats and c.ats[0] is not None else None
    if p is None:
        return inline()
    t = ip.db.types[p]
    if t["k"] == "str":
        v = as_str(ip, st, c.args[0])
        return inline() if v is None else len(v.t.encode()) if isinstance(v.t, str) else atom(("blen", v.t))
    if t["k"] == "slice":
        v = deref(ip, st, c.args[0])
        n = len(v.f) if isinstance(v, Agg) else ip.seq_len(st, v) if isinstance(v, Seq) else None
        return scale(n, ip.sizeof(t["t"])) if is_int(n) else inline()
    if t["k"] == "array":
        return ip.sizeof(t["t"]) * t["len"]
    return ip.sizeof(p) if t["k"] in ("int", "float", "bool", "char") or "layout" in t else inline()


@model(r"std::intrinsics::discriminant_value$", r"core::intrinsics::discriminant_value$")
def m_disc(ip, st, c):
    v = deref(ip, st, c.args[0])
    return ip.discriminant(st, v, ip.db.pointee(c.ats[0]))

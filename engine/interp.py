"""Trace-partitioning abstract interpreter over the compiler's MIR."""
import re
import time
import sys

from fields import size, under
from mirdb import Db
from state import *
from vals import *

sys.setrecursionlimit(20000)

BOXY = {
    "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "core::ptr::unique::Unique",
    "core::ptr::Unique", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "core::mem::ManuallyDrop",
    "std::mem::MaybeDangling", "core::mem::MaybeDangling", "std::pin::Pin",
}


class Abort(Exception):
    """The analysis can not follow this path (bounded resources)."""


class ValPlace:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Call:
    """Everything a model needs to know about a call."""

    __slots__ = ("inst", "name", "defn", "trait", "targs", "args", "ats", "dt", "sp", "info")


class Interp:
    def __init__(self, db: Db):
        self.db = db
        self.consts = {}
        self.const_cache = {}
        self.models = []
        self.model_cache = {}
        self.panics = []
        self.checked = {}  # panic sites looked at
        self.unmodelled = {}
        self.steps = 0
        self.max_steps = 4_000_000
        self.end = time.monotonic() + 600  # time for the whole check
        self.until = self.end  # and for one entry point
        self.quiet = 0  # > 0 while a loop body is run on trial
        self.fail = False  # let primitive operations fail
        self.nt = None  # callback deciding on recursion cut points
        self.eq_cut = False  # keep comparisons of parts as facts instead of entering them
        self.preds = []  # predicates of pointwise facts
        self.drop_cache = {}
        self.str_sites = {}
        self.str_dirty = False
        self.site_of = {}
        self.max_states = 6000
        self.loc_cache = {}
        self.inlined = set()
        self.field_locs = {}
        self.empty_phis = set()
        self.key_shapes = {}
        self.map_keys = {}
        self.decisions = None  # conditions decided while a loop body is run
        self.visited = set()
        import models
        models.install(self)

    # ---- types ------------------------------------------------------------------------------
    def t(self, ty):
        return self.db.types[ty]

    def variants(self, ty):
        return self.db.types[ty]["vars"]

    def discs(self, ty):
        """Discriminant values per variant, as signed/unsigned integers of the repr type."""
        k = ("discs", ty)
        r = self.loc_cache.get(k)
        if r is None:
            out = []
            for i, v in enumerate(self.db.types[ty]["vars"]):
                if v["d"] is None:
                    out.append(i)
                    continue
                val = int(v["d"][0])
                t = self.db.types[v["d"][1]]
                if t["k"] == "int" and t["signed"] and val >= 1 << (t["bits"] - 1):
                    val -= 1 << t["bits"]
                out.append(val)
            r = self.loc_cache[k] = tuple(out)
        return r

    def mk(self, st, key, ty):
        """An unknown value of the given type."""
        t = self.db.types[ty]
        k = t["k"]
        if k == "int":
            return atom(("v", key, t["bits"], t["signed"]))
        if k == "bool":
            return ("bv", key)
        if k == "char":
            return atom(("v", key, 32, False))
        if k == "str":
            return Str(("v", key))
        if k in ("ref", "ptr"):
            p = self.db.types[t["t"]]
            if p["k"] == "str":
                return Str(("v", key))
            cell = ("sym", key)
            if cell not in st.cells:
                st.cells[cell] = self.mk(st, ("*", key), t["t"])
            return Ref(cell)
        if k == "slice":
            return Seq((("sym", key, t["t"]),))
        if k == "adt":
            n = t["name"]
            if n in ("std::string::String", "alloc::string::String"):
                return Str(("v", key))
            if n in ("std::vec::Vec", "alloc::vec::Vec"):
                return Seq((("sym", key, t["args"][0]),))
            if n == "indexmap::map::IndexMap" or n == "indexmap::IndexMap":
                return Seq((("sym", key, (t["args"][0], t["args"][1])),), True)
            if n.endswith("collections::HashMap") or n.endswith("hash::map::HashMap"):
                return Obj("hashmap", key=key, ty=ty)
            if t["box"]:
                p = self.db.types[t["args"][0]]
                if p["k"] == "str":
                    return Str(("v", key))
                cell = ("sym", key)
                if cell not in st.cells:
                    st.cells[cell] = self.mk(st, ("*", key), t["args"][0])
                return Ref(cell)
            if t["kind"] == "struct" and not t["vars"][0]["f"]:
                return Agg(ty, 0, ())
        if k == "tuple" and not t["ts"]:
            return UNIT
        if k == "fndef":
            return FnV(t["inst"], ty)
        return Sym(key, ty)

    def field_types(self, ty, var):
        t = self.db.types[ty]
        k = t["k"]
        if k == "adt":
            return [f["t"] for f in t["vars"][var]["f"]]
        if k == "tuple":
            return t["ts"]
        if k == "closure":
            return t["up"]
        if k == "array":
            return [t["t"]] * (t["len"] or 0)
        return None

    def expand(self, st, v, var):
        """Symbolic aggregate as an explicit one."""
        ts = self.field_types(v.ty, var)
        if ts is None or len(ts) > 4096:
            return Top("expand")
        arr = self.db.types[v.ty]["k"] == "array"
        fs = tuple(self.mk(st, ("f", v.key, "i" if arr else var, i), x) for i, x in enumerate(ts))
        return Agg(v.ty, var, fs)

    # ---- memory -----------------------------------------------------------------------------
    def load(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            v = self.consts.get(cell)
            if v is None:
                return Top(f"uninitialised")
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == "f":
            _, var, i = p
            if isinstance(v, Agg):
                if v.var != var or i >= len(v.f):
                    return Top("variant mismatch")
                return v.f[i]
            if isinstance(v, Sym):
                ts = self.field_types(v.ty, var)
                if ts is None or i >= len(ts):
                    return Top("field of opaque type")
                return self.mk(st, ("f", v.key, var, i), ts[i])
            if isinstance(v, (Ref, Str, Seq, Obj)):
                return v  # transparent wrapper
            if isinstance(v, Top):
                return v
            return v if is_int(v) else Top("field")
        if p[0] == "i":
            return self.elem(st, v, p[1])
        if p[0] == "s":
            es = self.elements(st, v)
            return Agg(None, 0, es[p[1]:p[2]]) if es is not None and len(es) >= p[2] else Top("slice")
        if p[0] == "as":
            return self.reinterpret(st, v, p[1], p[2])
        if p[0] == "mv":
            import models
            return models.map_slot(self, st, v, p[1])
        return Top("proj")

    def elements(self, st, v):
        """Elements of an array or of a sequence of known length, or None."""
        if isinstance(v, Sym) and self.db.types[v.ty]["k"] == "array":
            v = self.expand(st, v, 0)
        if isinstance(v, Agg):
            return v.f
        if isinstance(v, Seq) and not v.map and all(x[0] == "one" for x in v.parts):
            return tuple(x[1] for x in v.parts)
        return None

    def elem(self, st, v, idx):
        idx = st.norm(idx) if isinstance(idx, Lin) else idx
        if isinstance(v, Sym):
            t = self.db.types[v.ty]
            if t["k"] == "array":
                return self.mk(st, ("f", v.key, "i", idx), t["t"])
        if isinstance(v, Agg):
            if isinstance(idx, int) and 0 <= idx < len(v.f):
                return v.f[idx]
            return Top("index")
        if isinstance(v, Seq):
            if isinstance(idx, int):
                n = 0
                for p in v.parts:
                    if p[0] != "one":
                        if p[0] == "rep" and not isinstance(p[2], Lin) and n + p[2] > idx:
                            return p[1]
                        break
                    if n == idx:
                        return p[1]
                    n += 1
            if len(v.parts) == 1:
                p = v.parts[0]
                if p[0] == "sym" and not isinstance(p[2], tuple):
                    if self.is_generic_index(st, idx, p):
                        return self.mk(st, ("el", p[1]), p[2])
                    return self.mk(st, ("at", p[1], idx), p[2])
                if p[0] == "loop" and self.is_generic_index(st, idx, p) and len(p[2]) == 1 and len(p[2][0][2]) == 1 \
                        and p[2][0][2][0][0] == "one":
                    st.note("iter", p[1], p[2][0][0])
                    st.facts.add(p[2][0][1])
                    return p[2][0][2][0][1]
                if p[0] == "bytes":
                    return atom(("v", ("byte", p[1], idx), 8, False))
            return Top("element")
        if isinstance(v, Ref):
            return self.elem(st, self.load(st, v.cell, v.path), idx)
        return Top("element")

    def is_generic_index(self, st, idx, p):
        """Is idx the index variable of a loop running over exactly this sequence?"""
        L = ("S", p[1]) if p[0] == "sym" else p[1]
        return idx == atom(("idx", L))

    def store(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        st.cells[cell] = self.update(st, self.load(st, cell, ()), path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            _, var, i = p
            if isinstance(v, Sym):
                v = self.expand(st, v, var)
            if isinstance(v, Agg):
                if v.var != var:
                    return Top("update of other variant")
                f = list(v.f)
                while len(f) <= i:
                    f.append(Top("uninitialised"))
                f[i] = self.update(st, f[i], path[1:], val)
                return Agg(v.ty, v.var, tuple(f))
            if isinstance(v, Top):
                # partially initialised aggregate
                f = [Top("uninitialised")] * (i + 1)
                f[i] = self.update(st, f[i], path[1:], val)
                return Agg(None, var, tuple(f))
            if isinstance(v, (Str, Seq, Obj)) and len(path) == 1 and (is_int(val) or isinstance(val, (bool, Top))):
                # the inside of a library value is changed by hand
                st.event("lost write", "representation of a library type")
                return Top("update")
            if isinstance(v, (Ref, Str, Seq, Obj)):
                return self.update(st, v, path[1:], val)
            return Top("update")
        if p[0] == "i":
            idx = st.norm(p[1]) if isinstance(p[1], Lin) else p[1]
            if isinstance(v, Sym) and self.db.types[v.ty]["k"] == "array":
                v = self.expand(st, v, 0)
            if isinstance(v, Agg) and isinstance(idx, int) and idx < len(v.f):
                f = list(v.f)
                f[idx] = self.update(st, f[idx], path[1:], val)
                return Agg(v.ty, v.var, tuple(f))
            if isinstance(v, Seq) and isinstance(idx, int):
                parts = list(v.parts)
                if all(x[0] == "one" for x in parts[: idx + 1]) and idx < len(parts):
                    parts[idx] = ("one", self.update(st, parts[idx][1], path[1:], val))
                    return Seq(tuple(parts), v.map)
            if isinstance(v, Seq):
                return Seq((("bytes", ("mut", st.fresh()), self.seq_len(st, v)),), v.map)
            return Top("indexed update")
        if p[0] == "s":
            es = self.elements(st, v)
            if es is None or len(es) < p[2]:
                return Top("slice update")
            new = self.update(st, Agg(None, 0, es[p[1]:p[2]]), path[1:], val)
            new = [self.elem(st, new, k) for k in range(p[2] - p[1])] if isinstance(new, (Agg, Seq, Sym)) else [Top("slice update")] * (p[2] - p[1])
            es = es[:p[1]] + tuple(new) + es[p[2]:]
            if isinstance(v, Seq):
                return Seq(tuple(("one", x) for x in es), v.map)
            return Agg(v.ty, 0, es)
        if p[0] == "mv":
            import models
            return models.map_update(self, st, v, p, path[1:], val)
        return Top("update")

    def seq_len(self, st, v):
        if isinstance(v, Agg):
            return len(v.f)
        if isinstance(v, Sym):
            t = self.db.types[v.ty]
            if t["k"] == "array":
                return t["len"]
            return atom(("len", v.key))
        if isinstance(v, Str):
            if v.t[:1] == ("substr",):
                return sub(v.t[3], v.t[2])
            return len(v.t.encode()) if isinstance(v.t, str) else atom(("blen", v.t))
        if isinstance(v, Ref):
            return self.seq_len(st, self.load(st, v.cell, v.path))
        if not isinstance(v, Seq):
            return Top("len")
        n = 0
        for p in v.parts:
            k = p[0]
            if k == "one":
                n = add(n, 1)
            elif k == "loop":
                n = add(n, mk_sum(p[1], tuple((j, under(d, self.parts_len(st, ps))) for j, d, ps in p[2])))
            elif k == "gloop":
                n = add(n, atom(("len", ("g", p[1]))))
            elif k == "sym":
                n = add(n, atom(("n", ("S", p[1]))))
            elif k in ("rep", "bytes", "u16", "chunks"):
                n = add(n, p[2])
            elif k == "fields":
                n = add(n, size(p[1]))
            elif k == "phi":
                n = add(n, atom(("len", p)))
            elif k == "gpush":
                n = add(n, 1 if p[2] == "new" else 0)
            elif k == "over":
                pass
            else:
                return Top("len")
        return n

    def parts_len(self, st, parts):
        return self.seq_len(st, Seq(parts))

    # ---- places -----------------------------------------------------------------------------
    def place(self, st, fr, pl):
        """Resolve a MIR place to (cell, path) or ValPlace."""
        cell = (fr.fid, pl["local"])
        proj = pl["projection"]
        if not proj:
            return cell, ()
        path = ()
        var = 0
        ty = fr.body.locals[pl["local"]]
        types = self.db.types
        vp = None
        for e in proj:
            if e == "Deref":
                v = vp.v if vp is not None else self.load(st, cell, path)
                t = types.get(ty)
                ty = self.db.pointee(ty) if t is not None else None
                if isinstance(v, Sym) and t is not None and t["k"] in ("ref", "ptr"):
                    v = self.mk(st, v.key, v.ty)
                if isinstance(v, Ref):
                    cell, path, vp = v.cell, v.path, None
                else:
                    vp = ValPlace(v)
                var = 0
                continue
            if isinstance(e, dict):
                if "Field" in e:
                    i, fty = e["Field"]
                    t = types.get(ty) if ty is not None else None
                    if t is not None and t["k"] == "adt" and (t["box"] or t["name"] in BOXY):
                        pass
                    elif t is not None and t["k"] == "other":
                        pass
                    else:
                        step = ("f", var, i)
                        if vp is not None:
                            vp = ValPlace(self.proj(st, vp.v, step))
                        else:
                            path = path + (step,)
                    ty = fty
                    var = 0
                    continue
                if "Downcast" in e:
                    var = e["Downcast"]
                    continue
                if "Index" in e:
                    idx = self.load(st, (fr.fid, e["Index"]), ())
                    step = ("i", idx)
                    if vp is not None:
                        vp = ValPlace(self.proj(st, vp.v, step))
                    else:
                        path = path + (step,)
                    t = types.get(ty) if ty is not None else None
                    ty = t["t"] if t is not None and t["k"] in ("array", "slice") else None
                    continue
                if "ConstantIndex" in e:
                    c = e["ConstantIndex"]
                    idx = c["offset"]
                    if c["from_end"]:
                        base = vp.v if vp is not None else self.load(st, cell, path)
                        n = self.seq_len(st, base)
                        idx = sub(n, c["offset"]) if not isinstance(n, Top) else n
                    step = ("i", idx)
                    if vp is not None:
                        vp = ValPlace(self.proj(st, vp.v, step))
                    else:
                        path = path + (step,)
                    t = types.get(ty) if ty is not None else None
                    ty = t["t"] if t is not None and t["k"] in ("array", "slice") else None
                    continue
            vp = ValPlace(Top("projection"))
        if vp is not None:
            return vp
        return cell, path

    def read_place(self, st, fr, pl):
        p = self.place(st, fr, pl)
        if isinstance(p, ValPlace):
            return p.v
        return self.load(st, p[0], p[1])

    def write_place(self, st, fr, pl, val):
        p = self.place(st, fr, pl)
        if isinstance(p, ValPlace):
            st.event("lost write", self.db.insts[fr.inst]["def"])
            return
        self.store(st, p[0], p[1], val)

    # ---- constants --------------------------------------------------------------------------
    def constant(self, st, c):
        k = c["const_"]
        kind = k["kind"]
        ty = k["ty"]
        ck = (k["id"], ty)
        v = self.const_cache.get(ck)
        if v is None:
            v = self.const_cache[ck] = self.decode_const(kind, ty)
        return v

    def decode_const(self, kind, ty):
        if kind == "ZeroSized" or (isinstance(kind, dict) and "ZeroSized" in kind):
            return self.zst(ty)
        if isinstance(kind, dict) and "Allocated" in kind:
            a = kind["Allocated"]
            try:
                return self.decode(a["bytes"], dict(self.ptrs(a)), 0, ty)
            except (KeyError, TypeError, IndexError):
                return Top("constant")
        return Top("constant")

    def ptrs(self, a):
        out = []
        for off, p in a["provenance"]["ptrs"]:
            o = off["num_bits"] // 8 if isinstance(off, dict) else off
            out.append((o, p if isinstance(p, int) else p[0]))
        return out

    def zst(self, ty):
        t = self.db.types[ty]
        if t["k"] == "fndef":
            return FnV(t["inst"], ty)
        if t["k"] == "tuple":
            return UNIT if not t["ts"] else Agg(ty, 0, tuple(self.zst(x) for x in t["ts"]))
        if t["k"] == "closure":
            return Agg(ty, 0, ())
        if t["k"] == "adt" and t["kind"] == "struct":
            return Agg(ty, 0, tuple(self.zst(f["t"]) for f in t["vars"][0]["f"]))
        if t["k"] == "array":
            return Agg(ty, 0, ())
        if t["k"] == "adt" and len(t["vars"]) == 1:
            return Agg(ty, 0, tuple(self.zst(f["t"]) for f in t["vars"][0]["f"]))
        return Agg(ty, 0, ())

    def decode(self, b, ptrs, off, ty):
        t = self.db.types[ty]
        k = t["k"]
        if k == "int" or k == "char":
            n = t["bits"] // 8 if k == "int" else 4
            raw = b[off:off + n]
            if any(x is None for x in raw):
                return Top("uninit const")
            return int.from_bytes(bytes(raw), "little", signed=k == "int" and t["signed"])
        if k == "bool":
            return b[off] != 0
        if k == "float":
            n = t["bits"] // 8
            return Obj("fconst", bits=int.from_bytes(bytes(b[off:off + n]), "little"), w=n)
        if k in ("ref", "ptr") or (k == "adt" and t["box"]):
            p = self.db.types[self.db.pointee(ty)]
            if off in ptrs:
                alloc = ptrs[off]
                a = self.db.allocs.get(alloc)
                base = int.from_bytes(bytes(b[off:off + 8]), "little")
                if p["k"] == "str":
                    n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                    return Str(bytes(a["mem"]["bytes"][base:base + n]).decode())
                cell = ("k", alloc, base, self.db.pointee(ty))
                if cell not in self.consts:
                    if a is None or "mem" not in a:
                        self.consts[cell] = Top("static")
                    elif p["k"] == "slice":
                        n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                        cell = cell + (n,)
                        et = p["t"]
                        es = self.sizeof(et)
                        self.consts[cell] = Agg(None, 0, tuple(
                            self.decode(a["mem"]["bytes"], dict(self.ptrs(a["mem"])), base + i * es, et)
                            for i in range(n)))
                    elif p["k"] == "dyn":
                        self.consts[cell] = Top("dyn")
                    else:
                        self.consts[cell] = self.decode(a["mem"]["bytes"], dict(self.ptrs(a["mem"])), base,
                                                        self.db.pointee(ty))
                return Ref(cell)
            if p["k"] == "str":
                return Str("")
            cell = ("k", "dangling", off, self.db.pointee(ty))
            self.consts[cell] = Agg(None, 0, ()) if p["k"] in ("slice", "array") else Top("dangling")
            return Ref(cell)
        if k == "array":
            es = self.sizeof(t["t"])
            return Agg(ty, 0, tuple(self.decode(b, ptrs, off + i * es, t["t"]) for i in range(t["len"])))
        if k == "tuple":
            if not t["ts"]:
                return UNIT
            offs = [o["num_bits"] // 8 for o in t["layout"]["fields"]["Arbitrary"]["offsets"]]
            return Agg(ty, 0, tuple(self.decode(b, ptrs, off + o, x) for o, x in zip(offs, t["ts"])))
        if k == "adt":
            if t["name"] in ("std::string::String", "alloc::string::String"):
                return Str("")
            if t["name"] in ("std::vec::Vec", "alloc::vec::Vec"):
                return Seq(())
            lay = t["layout"]
            vs = lay["variants"]
            if "Single" in vs:
                i = vs["Single"]["index"] if isinstance(vs["Single"], dict) else 0
                f = lay["fields"]
                offs = [o["num_bits"] // 8 for o in f["Arbitrary"]["offsets"]] if "Arbitrary" in f else []
                fs = t["vars"][i]["f"]
                return Agg(ty, i, tuple(self.decode(b, ptrs, off + o, x["t"]) for o, x in zip(offs, fs)))
            m = vs["Multiple"]
            tag = m["tag"].get("Initialized") or m["tag"].get("Union")
            to = lay["fields"]["Arbitrary"]["offsets"][m["tag_field"]]["num_bits"] // 8
            tv = tag["value"]
            if "Int" in tv:
                n = int(tv["Int"]["length"][1:]) // 8
            else:
                n = 8
            raw = int.from_bytes(bytes(x or 0 for x in b[off + to:off + to + n]), "little")
            isptr = (off + to) in ptrs
            if m["tag_encoding"] == "Direct":
                i = [j for j, v in enumerate(t["vars"]) if int(v["d"][0]) % (1 << (8 * n)) == raw][0]
            else:
                ni = m["tag_encoding"]["Niche"]
                i = ni["untagged_variant"]
                if not isptr:
                    lo, hi = ni["niche_variants"]["start"], ni["niche_variants"]["end"]
                    rel = (raw - int(ni["niche_start"])) % (1 << (8 * n))
                    if rel <= hi - lo:
                        i = lo + rel
            offs = [o["num_bits"] // 8 for o in m["variants"][i]["offsets"]]
            fs = t["vars"][i]["f"]
            return Agg(ty, i, tuple(self.decode(b, ptrs, off + o, x["t"]) for o, x in zip(offs, fs)))
        return Top("constant")

    def sizeof(self, ty):
        t = self.db.types[ty]
        k = t["k"]
        if k == "int" or k == "float":
            return t["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr") or (k == "adt" and t["box"]):
            p = self.db.types[self.db.pointee(ty)]
            return 16 if p["k"] in ("str", "slice", "dyn") else 8
        if "layout" in t:
            return t["layout"]["size"]["num_bits"] // 8
        return 0

    # ---- operands and rvalues ---------------------------------------------------------------
    def operand(self, st, fr, o):
        if "Copy" in o:
            return self.read_place(st, fr, o["Copy"])
        if "Move" in o:
            return self.read_place(st, fr, o["Move"])
        if "Constant" in o:
            return self.constant(st, o["Constant"])
        return True if "RuntimeChecks" in o else Top("operand")

    def rvalue(self, st, fr, s):
        rv = s["rv"]
        (k, a), = rv.items()
        if k == "Use":
            return self.operand(st, fr, a[0])
        if k == "Ref" or k == "AddressOf":
            p = self.place(st, fr, a[-1])
            if isinstance(p, ValPlace):
                if isinstance(p.v, (Str, Ref, Top, FnV)):
                    return p.v
                cell = ("tmp", st.fresh())
                st.cells[cell] = p.v
                return Ref(cell)
            return Ref(p[0], p[1])
        if k == "Aggregate":
            kind, ops = a
            vals = tuple(self.operand(st, fr, o) for o in ops)
            if isinstance(kind, dict) and "Adt" in kind:
                t = self.db.types[s["ty"]]
                if t["k"] == "adt" and t["name"] in BOXY and len(vals) == 1:
                    return vals[0]
                if kind["Adt"][4] is not None:  # union field
                    return vals[0]
                return Agg(s["ty"], kind["Adt"][1], vals)
            if isinstance(kind, dict) and "RawPtr" in kind:
                return vals[0]
            return Agg(s["ty"], 0, vals)
        if k == "Discriminant":
            v = self.read_place(st, fr, a)
            return self.discriminant(st, v, s["ot"])
        if k == "BinaryOp":
            return self.binop(st, a[0], self.operand(st, fr, a[1]), self.operand(st, fr, a[2]), s["ot"])
        if k == "CheckedBinaryOp":
            x, y = self.operand(st, fr, a[1]), self.operand(st, fr, a[2])
            t = self.db.types[s["ot"]]
            if not (is_int(x) and is_int(y)):
                return Agg(s["ty"], 0, (Top("arith"), ("app", "ovf?", st.fresh())))
            r = self.arith(st, a[0], x, y)
            if isinstance(r, Top):
                return Agg(s["ty"], 0, (r, ("app", "ovf?", st.fresh())))
            return Agg(s["ty"], 0, (r, st.simp(("ovf", r, t["bits"], t["signed"]))))
        if k == "UnaryOp":
            v = self.operand(st, fr, a[1])
            if a[0] == "Not":
                if isinstance(v, bool):
                    return not v
                if isinstance(v, tuple):
                    return ("not", v)
                if isinstance(v, int):
                    t = self.db.types[s["ot"]]
                    return ~v if t["signed"] else (1 << t["bits"]) - 1 - v
                return Top("not")
            if a[0] == "Neg":
                if is_int(v):
                    t = self.db.types[s["ot"]]
                    r = neg(v)
                    return self.fit(st, r, t)
                return self.float_op("Neg", (v,), s["ty"])
            if a[0] == "PtrMetadata":
                if isinstance(v, Ref):
                    v = self.load(st, v.cell, v.path)
                if isinstance(v, (Seq, Agg, Sym, Str)):
                    return self.seq_len(st, v)
                return Top("metadata")
        if k == "Cast":
            return self.cast(st, a[0], self.operand(st, fr, a[1]), s["ot"], a[2])
        if k == "Len":
            v = self.read_place(st, fr, a)
            return self.seq_len(st, v)
        if k == "CopyForDeref":
            return self.read_place(st, fr, a)
        if k == "Repeat":
            v = self.operand(st, fr, a[0])
            n = s["cnt"]
            if n is not None and n <= 4096:
                return Agg(s["ty"], 0, (v,) * n)
            return Seq((("rep", v, n),))
        if k == "Reborrow":
            return Top("reborrow")
        return Top(f"rvalue {k}")

    def discriminant(self, st, v, ty):
        if isinstance(v, Agg):
            t = self.db.types.get(v.ty if v.ty is not None else ty)
            if t is not None and t["k"] == "adt" and t["kind"] == "enum":
                return self.discs(v.ty if v.ty is not None else ty)[v.var]
            return v.var
        if isinstance(v, Sym):
            k = st.facts.var.get(v.key)
            ds = self.discs(v.ty)
            if k is not None:
                return ds[k]
            return atom(("disc", v.key, ds))
        return Top("discriminant")

    def fit(self, st, r, t):
        """Value of a wrapping computation in an integer type."""
        if not isinstance(r, Lin):
            lo, hi = int_range(t["bits"], t["signed"])
            if lo <= r <= hi:
                return r
            r %= 1 << t["bits"]
            return r - (1 << t["bits"]) if r > hi else r
        if st.simp(("ovf", r, t["bits"], t["signed"])) is False:
            return r
        if not t["signed"] and any(a[0] == "cat" for a in r.t):
            bs = self.known_bytes(st, r)
            if bs:
                return self.from_bytes(st, bs[:t["bits"] // 8], t)
        return atom(("wrap", r, t["bits"], t["signed"]))

    def arith(self, st, op, x, y):
        if op in ("Add", "AddUnchecked"):
            return add(x, y)
        if op in ("Sub", "SubUnchecked"):
            return sub(x, y)
        if op in ("Mul", "MulUnchecked"):
            x, y = st.norm(x), st.norm(y)
            if not isinstance(x, Lin):
                return scale(y, x)
            if not isinstance(y, Lin):
                return scale(x, y)
            return atom(("op", "mul", x, y))
        return Top("arith")

    def binop(self, st, op, x, y, ty):
        t = self.db.types.get(ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            b = self.compare(st, op, x, y)
            return b
        if isinstance(x, (bool, tuple)) and isinstance(y, (bool, tuple)):
            if op == "BitAnd":
                return st.simp(("and", x, y))
            if op == "BitOr":
                return st.simp(("or", x, y))
            if op == "BitXor":
                return ("app", "xor", x, y)
        if is_int(x) and is_int(y):
            if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
                r = self.arith(st, op, x, y)
                if op.endswith("Unchecked"):
                    return r
                return self.fit(st, r, t)
            x, y = st.norm(x), st.norm(y)
            if isinstance(x, int) and isinstance(y, int):
                if op == "Div" and y:
                    q = abs(x) // abs(y)
                    return q if (x < 0) == (y < 0) else -q
                if op == "Rem" and y:
                    q = abs(x) // abs(y)
                    q = q if (x < 0) == (y < 0) else -q
                    return x - q * y
                if op == "BitAnd":
                    return x & y
                if op == "BitOr":
                    return x | y
                if op == "BitXor":
                    return x ^ y
                if op in ("Shl", "ShlUnchecked"):
                    return self.fit(st, x << (y % t["bits"]), t)
                if op in ("Shr", "ShrUnchecked"):
                    return x >> (y % t["bits"])
            if op == "Cmp":
                return Top("cmp")
            name = {"Div": "div", "Rem": "rem", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
                    "Shl": "shl", "Shr": "shr", "ShlUnchecked": "shl", "ShrUnchecked": "shr"}.get(op)
            if name == "div" and y == 1:
                return x
            if name == "and" and isinstance(y, int):
                lo, hi = st.rng(x)
                if y >= 0 and (y + 1) & y == 0 and lo is not None and lo >= 0 and hi is not None and hi <= y:
                    return x
            if name in ("shr", "shl", "or", "xor") and y == 0:
                return x
            if name in ("and", "or", "xor", "shr", "shl") and t and t["k"] == "int":
                r = self.byte_op(st, name, x, y, t)
                if r is not None:
                    return r
            if name == "shl" and isinstance(y, int):
                return self.fit(st, scale(x, 1 << y), t)
            if name:
                return atom(("op", name, x, y))
        if op == "Offset":
            return Top("ptr offset")
        if op in ("Add", "Sub", "Mul", "Div", "Rem") and self.is_float(x) and self.is_float(y):
            fty = x.ty if isinstance(x, Sym) else y.ty if isinstance(y, Sym) else ty
            return self.float_op(op, (x, y), fty)
        return Top(f"binop {op}")

    def byte_op(self, st, name, x, y, t):
        """Bit operations that move or select whole bytes."""
        n = t["bits"] // 8
        if name in ("shr", "shl"):
            if not isinstance(y, int) or y % 8 or not 0 < y < t["bits"] or t["signed"]:
                return None
            bs = self.int_bytes(st, x, n)
            return self.from_bytes(st, bs[y // 8:] if name == "shr" else [0] * (y // 8) + bs[:n - y // 8], t)
        lo, hi = st.rng(x)
        if lo is None or lo < 0 or st.rng(y)[0] is None or st.rng(y)[0] < 0:
            return None
        xs, ys = self.int_bytes(st, x, n), self.int_bytes(st, y, n)
        out = []
        for a, b in zip(xs, ys):
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(a, int):
                r = {"and": a & b, "or": a | b, "xor": a ^ b}[name]
            elif name == "and" and b == 0:
                r = 0
            elif name == "and" and b == 255 or name in ("or", "xor") and b == 0:
                r = a
            else:
                return None
            out.append(r)
        return self.from_bytes(st, out, t)

    def compare(self, st, op, x, y):
        if is_int(x) and is_int(y):
            d = sub(x, y)
            if op == "Eq":
                return st.simp(("eq0", d)) if isinstance(d, Lin) else d == 0
            if op == "Ne":
                return st.simp(("not", ("eq0", d))) if isinstance(d, Lin) else d != 0
            if op == "Lt":
                return st.simp(("lt0", d)) if isinstance(d, Lin) else d < 0
            if op == "Ge":
                return st.simp(("not", ("lt0", d))) if isinstance(d, Lin) else d >= 0
            d = neg(d)
            if op == "Gt":
                return st.simp(("lt0", d)) if isinstance(d, Lin) else d < 0
            return st.simp(("not", ("lt0", d))) if isinstance(d, Lin) else d >= 0
        if isinstance(x, (bool, tuple)) and isinstance(y, (bool, tuple)) and op in ("Eq", "Ne"):
            x, y = st.simp(x), st.simp(y)
            if isinstance(x, bool) and isinstance(y, bool):
                r = x == y
            elif isinstance(y, bool):
                r = x if y else ("not", x)
            elif isinstance(x, bool):
                r = y if x else ("not", y)
            elif x == y:
                r = True
            else:
                r = ("app", "beq", x, y)
            if op == "Ne":
                return (not r) if isinstance(r, bool) else ("not", r)
            return r
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return op in ("Eq", "Le", "Ge")
        if self.is_float(x) and self.is_float(y):
            if op == "Ne":
                return st.simp(("not", ("fcmp", "Eq", x, y)))
            if op in ("Gt", "Ge"):
                x, y, op = y, x, {"Gt": "Lt", "Ge": "Le"}[op]
            return st.simp(("fcmp", op, x, y))
        if isinstance(x, Sym) or isinstance(y, Sym) or isinstance(x, Obj) or isinstance(y, Obj):
            if op in ("Eq", "Ne"):
                r = ("app", "feq", x, y)
                return r if op == "Eq" else ("not", r)
            return ("app", op, x, y)
        return ("app", "cmp?", st.fresh())

    def cast(self, st, kind, v, from_ty, to_ty):
        tt = self.db.types[to_ty]
        name = kind if isinstance(kind, str) else next(iter(kind))
        if name == "IntToInt":
            if tt["k"] in ("int", "char") and is_int(v):
                return self.fit(st, v, tt if tt["k"] == "int" else {"bits": 32, "signed": False})
            if isinstance(v, bool):
                return 1 if v else 0
            if isinstance(v, tuple):
                return atom(("b2i", v))
            return Top("cast")
        if name == "PtrToPtr" and isinstance(v, Ref):
            return self.view_as(v, from_ty, to_ty)
        if name in ("PtrToPtr", "PointerCoercion", "FnPtrToPtr"):
            return v
        if name == "Transmute":
            return self.transmute(st, v, from_ty, to_ty)
        if name in ("FloatToInt", "FloatToFloat", "IntToFloat"):
            if tt["k"] == "int":
                return atom(("v", ("cast", name, v), tt["bits"], tt["signed"]))
            return Sym(("cast", name, v), to_ty)
        return v if isinstance(v, (Ref, Str)) else Top(f"cast {name}")

    def view_as(self, v, from_ty, to_ty):
        """A pointer to plain numbers seen as a pointer to other plain numbers."""
        a, b = self.db.pointee(from_ty), self.db.pointee(to_ty)
        if a is None or b is None or a == b or self.db.types[b]["k"] not in ("int", "array"):
            return v
        e = self.plain_element(a)
        if e is None or self.plain_element(b) is None:
            return v
        if v.path and v.path[-1][0] == "as":
            e = v.path[-1][2]
            v = Ref(v.cell, v.path[:-1])
        return Ref(v.cell, v.path + (("as", b, e),))

    def plain_element(self, ty):
        t = self.db.types[ty]
        if t["k"] in ("array", "slice"):
            ty = t["t"]
            t = self.db.types[ty]
        return ty if t["k"] == "int" else None

    def reinterpret(self, st, v, to_ty, elem_ty):
        """The leading bytes of plain numbers as plain numbers of another type."""
        tt, w = self.db.types[to_ty], self.db.types[elem_ty]["bits"] // 8
        es = (v,) if is_int(v) else self.elements(st, v)
        if es is None:
            return Top("reinterpreted")
        bs = [b for x in es for b in self.int_bytes(st, x, w)]
        et = tt if tt["k"] == "int" else self.db.types[tt["t"]]
        n, w = 1 if tt["k"] == "int" else tt["len"], et["bits"] // 8
        if len(bs) < n * w:
            return Top("reinterpreted")
        out = [self.from_bytes(st, bs[i * w:(i + 1) * w], et) for i in range(n)]
        return out[0] if tt["k"] == "int" else Agg(to_ty, 0, tuple(out))

    # floats: bit patterns and computed values
    def float_bits(self, v, n):
        """The bit pattern of a float of n bytes as an unsigned number."""
        if isinstance(v, Obj) and v.kind == "fconst":
            return v["bits"]
        if isinstance(v, Sym):
            if isinstance(v.key, tuple) and v.key[0] == "fbits":
                return v.key[1]
            return atom(("v", ("bits", v.key), 8 * n, False))
        return Top("float bits")

    def float_of(self, bits, ty):
        """The float with a bit pattern."""
        if isinstance(bits, int):
            return Obj("fconst", bits=bits, w=self.db.types[ty]["bits"] // 8)
        if isinstance(bits, Lin):
            if len(bits.t) == 1 and bits.c == 0:
                (a, k), = bits.t.items()
                if k == 1 and a[0] == "v" and a[1][0] == "bits":
                    return Sym(a[1][1], ty)
            return Sym(("fbits", bits), ty)
        return Top("float of bits")

    def is_float(self, v):
        if isinstance(v, Obj):
            return v.kind == "fconst"
        if isinstance(v, Sym):
            t = self.db.types.get(v.ty)
            return t is not None and t["k"] == "float"
        return False

    def float_op(self, op, args, ty):
        """A float computed from others; only computations that keep every value are seen through."""
        if not all(self.is_float(a) or is_int(a) for a in args):
            return Top(f"float {op}")
        x = args[0]
        if len(args) == 2 and isinstance(args[1], Obj):
            y = args[1]
            one = {4: 0x3f800000, 8: 0x3ff0000000000000}[y["w"]]
            minus = 1 << (8 * y["w"] - 1)
            if op in ("Mul", "Div") and y["bits"] == one or op == "Sub" and y["bits"] == 0 or op == "Add" and y["bits"] == minus:
                return x
        if op == "Neg" and isinstance(x, Sym) and isinstance(x.key, tuple) and x.key[:2] == ("fop", "Neg"):
            return x.key[2]
        return Sym(("fop", op) + tuple(args), ty)

    def transmute(self, st, v, from_ty, to_ty):
        if isinstance(v, (Ref, Str)):
            return v
        ft, tt = self.db.types[from_ty], self.db.types[to_ty]
        if ft["k"] == "float" and tt["k"] == "int" and self.is_float(v):
            return self.fit(st, self.float_bits(v, ft["bits"] // 8), tt)
        if ft["k"] == "int" and tt["k"] == "float" and is_int(v):
            return self.float_of(self.fit(st, v, {"bits": ft["bits"], "signed": False}), to_ty)
        if ft["k"] == "array" and tt["k"] == "array":
            return self.transmute_arrays(st, v, ft, tt, to_ty)
        if ft["k"] == "array" and tt["k"] == "int":
            bs = self.bytes_of(st, v, ft)
            if bs is not None:
                return self.from_bytes(st, bs, tt)
        if ft["k"] == "int" and tt["k"] == "array":
            bs = self.int_bytes(st, v, ft["bits"] // 8)
            return Agg(to_ty, 0, tuple(bs))
        if is_int(v) and tt["k"] == "int":
            return self.fit(st, v, tt)
        if isinstance(v, (Agg, Sym)) and from_ty != to_ty:
            return Top("transmute")
        return v

    # byte-wise view of integers (little-endian target)
    def int_bytes(self, st, v, n):
        """The n bytes of a value, lowest first."""
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        bs = self.known_bytes(st, v)
        if bs is not None:
            return (bs + [0] * n)[:n]
        if isinstance(v, Lin):
            return [self.byteof(v, i, n) for i in range(n)]
        return [Top("bytes")] * n

    @staticmethod
    def byteof(v, i, n):
        return atom(("rng", ("byteof", v, i, n), 0, 255))

    def known_bytes(self, st, v):
        """Bytes of a value put together from bytes at disjoint positions, or None."""
        if isinstance(v, int):
            return None if v < 0 else [(v >> (8 * i)) & 255 for i in range((v.bit_length() + 7) // 8)]
        if not isinstance(v, Lin) or v.c < 0:
            return None
        out = dict(enumerate(self.known_bytes(st, v.c)))
        out = {i: b for i, b in out.items() if b}
        for a, k in v.t.items():
            i = 0
            while k > 0 and k % 256 == 0:
                k //= 256
                i += 1
            if k != 1:
                return None
            lo, hi = st.rng(atom(a))
            if a[0] == "cat":
                bs = list(a[1])
            elif a[0] == "wrap" and not a[3]:
                bs = self.known_bytes(st, a[1])
                if bs is None:
                    return None
                bs = bs[:a[2] // 8]
            elif lo is not None and lo >= 0 and hi is not None and hi <= 255:
                bs = [atom(a)]
            elif a[0] == "v" and not a[3]:
                bs = [self.byteof(atom(a), j, a[2] // 8) for j in range(a[2] // 8)]
            else:
                return None
            for j, b in enumerate(bs):
                if b == 0:
                    continue
                if i + j in out:
                    return None
                out[i + j] = b
        return [out.get(i, 0) for i in range(max(out, default=-1) + 1)]

    def from_bytes(self, st, bs, tt):
        bs = list(bs)
        if any(isinstance(b, Top) for b in bs):
            return Top("bytes")
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little", signed=tt["signed"])
        n = len(bs)
        # recombining the bytes of one value
        first = bs[0]
        if isinstance(first, Lin) and first.c == 0 and len(first.t) == 1:
            (a, k), = first.t.items()
            if k == 1 and a[0] == "rng" and isinstance(a[1], tuple) and a[1][0] == "byteof":
                _, v, _, w = a[1]
                if all(b == self.byteof(v, i, w) for i, b in enumerate(bs[:w])) and not any(bs[w:]) and n >= w:
                    return self.fit(st, v, tt)
        if tt["signed"]:
            return self.fit(st, atom(("cat", tuple(bs))), tt)
        while bs and bs[-1] == 0:
            bs.pop()
        if len(bs) == 1:
            return bs[0]
        return atom(("cat", tuple(bs)))

    def bytes_of(self, st, v, ft):
        n = ft["len"]
        et = self.db.types[ft["t"]]
        w = et["bits"] // 8
        out = []
        for i in range(n):
            out += self.int_bytes(st, self.elem(st, v, i), w)
        return out

    def transmute_arrays(self, st, v, ft, tt, to_ty):
        e = self.db.types[ft["t"]]
        f = self.db.types[tt["t"]]
        if e["k"] != "int" or f["k"] != "int" or not ft["len"]:
            return Top("transmute")
        bs = self.bytes_of(st, v, ft)
        w = f["bits"] // 8
        return Agg(to_ty, 0, tuple(self.from_bytes(st, bs[i * w:(i + 1) * w], f) for i in range(tt["len"])))

    # ---- control ----------------------------------------------------------------------------
    def push(self, st, inst, args, dest, target, sp, final=False):
        body = self.db.body(inst)
        fr = Frame.__new__(Frame)
        fr.fid = st.fresh()
        fr.inst = inst
        fr.body = body
        fr.bb = 0
        fr.dest = dest
        fr.target = target
        fr.active = ()
        fr.sp = sp
        fr.final = final
        if len(st.frames) > 120:
            raise Abort("call depth")
        self.inlined.add(inst)
        argc = body.argc
        if body.spread is not None and len(args) > argc:
            k = body.spread - 1
            args = args[:k] + (Agg(body.locals[body.spread], 0, tuple(args[k:])),)
        for i, v in enumerate(args):
            st.cells[(fr.fid, i + 1)] = v
        st.frames.append(fr)
        return fr

    def loc(self, st, sp=None):
        """file:line of the innermost location inside the crate under analysis."""
        if sp is not None:
            f, l = self.db.span(sp)
            if not f.startswith("/"):
                return f"{f}:{l}"
        for fr in reversed(st.frames):
            if fr.sp is not None:
                f, l = self.db.span(fr.sp)
                if not f.startswith("/") and f != "?":
                    return f"{f}:{l}"
        return "?"

    def fn_name(self, inst):
        return self.db.insts[inst]["name"]

    def crate_fn(self, st):
        """Innermost function of the crate under analysis on the call stack."""
        for fr in reversed(st.frames):
            i = self.db.insts[fr.inst]
            if i["crate"] == "gvas":
                return re.sub(r"::<.*", "", i["def"]) if not i["def"].startswith("<") else i["def"]
        return "?"

    def panic(self, st, kind, sp, detail=None):
        self.pcount += 1
        if not self.quiet:
            self.panics.append((kind, self.loc(st, sp), self.crate_fn(st), detail, st))
        st.dead = True

    def explore(self, st0, stop):
        work = [st0]
        out = []
        while work:
            st = work.pop()
            while True:
                nxt = self.step(st)
                if nxt is None:
                    if st.dead:
                        break
                    if stop(st):
                        out.append(st)
                        break
                    continue
                for s in reversed(nxt):
                    if s.dead:
                        continue
                    if stop(s):
                        out.append(s)
                    else:
                        work.append(s)
                if len(work) + len(out) > self.max_states:
                    raise Abort("too many paths")
                break
        return out

    def run(self, st, inst, args):
        """Run a function to completion on a state without frames; returns the final states."""
        self.until = time.monotonic() + 200
        self.push(st, inst, args, None, None, None, True)
        return self.explore(st, lambda s: not s.frames)

    def call_sub(self, st, inst, args, sp=None):
        """Call a function from inside a model; returns [(state, value)]."""
        depth = len(st.frames)
        self.push(st, inst, args, None, None, sp, True)
        outs = self.explore(st, lambda s: len(s.frames) == depth)
        return [(s, s.ret) for s in outs]

    def step(self, st):
        """Execute one basic block. None: st was advanced in place; else the successor states."""
        fr = st.frames[-1]
        body = fr.body
        loops = body.loop_info()
        if fr.bb in loops and fr.bb not in fr.active:
            return self.mir_loop(st, fr, fr.bb, loops[fr.bb])
        self.steps += 1
        if self.steps > self.max_steps:
            raise Abort("step budget")
        if self.steps & 255 == 0 and time.monotonic() > min(self.until, self.end):
            raise Abort("time budget")
        blk = body.blocks[fr.bb]
        for s in blk["s"]:
            if "a" in s:
                self.write_place(st, fr, s["a"], self.rvalue(st, fr, s))
            elif "setd" in s:
                self.set_discriminant(st, fr, s)
        return self.terminator(st, fr, blk["t"])

    def set_discriminant(self, st, fr, s):
        v = self.read_place(st, fr, s["setd"])
        if isinstance(v, Agg):
            self.write_place(st, fr, s["setd"], Agg(v.ty, s["v"], v.f))
        else:
            self.write_place(st, fr, s["setd"], Agg(None, s["v"], ()))

    def goto(self, fr, bb):
        fr.bb = bb

    def terminator(self, st, fr, t):
        if "goto" in t:
            fr.bb = t["goto"]
            return None
        if "switch" in t:
            return self.switch(st, fr, t)
        if "call" in t:
            return self.call(st, fr, t)
        if "ret" in t:
            return self.do_return(st)
        if "drop" in t:
            return self.drop(st, fr, t)
        if "assert" in t:
            return self.do_assert(st, fr, t)
        st.dead = True
        return None

    def do_return(self, st):
        fr = st.frames.pop()
        v = st.cells.get((fr.fid, 0), UNIT)
        for i in range(len(fr.body.locals)):
            st.cells.pop((fr.fid, i), None)
        if fr.final:
            st.ret = v
            return None
        if fr.dest is not None:
            if isinstance(fr.dest, ValPlace):
                pass
            else:
                self.store(st, fr.dest[0], fr.dest[1], v)
        st.frames[-1].bb = fr.target
        if fr.target is None:
            st.dead = True
        return None

    def decide(self, st, b):
        """Split the state on a condition: [(state, truth)]."""
        b = st.simp(b)
        if isinstance(b, bool):
            return [(st, b)]
        self.note_streq(st, b)
        if self.decisions is not None:
            self.decisions.append(b)
        s2 = st.clone()
        out = []
        if st.assume(b, True):
            out.append((st, True))
        if s2.assume(b, False):
            out.append((s2, False))
        return out

    def note_streq(self, st, b):
        """Remember which constants a string read from the input is compared with."""
        if b[0] == "not":
            return self.note_streq(st, b[1])
        if b[0] == "streq" and isinstance(b[2], str):
            site = self.site_of.get(b[1])
            if site is not None:
                cs = self.str_sites.setdefault(site, [])
                if b[2] not in cs:
                    cs.append(b[2])
                    self.str_dirty = True

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["switch"])
        ty = self.db.types[t["ot"]] if t["ot"] is not None else None
        if isinstance(v, bool) or (isinstance(v, tuple)):
            if len(t["br"]) == 1 and t["br"][0][0] == "0":
                f, tr = t["br"][0][1], t["other"]
            else:
                d = dict(t["br"])
                f, tr = d.get("0", t["other"]), d.get("1", t["other"])
            outs = self.decide(st, v)
            res = []
            for s, b in outs:
                s.frames[-1].bb = tr if b else f
                res.append(s)
            if len(res) == 1 and res[0] is st:
                return None
            return res
        if isinstance(v, Obj) and v.kind == "fconst":
            v = Top("float switch")
        if isinstance(v, Top):
            st.event("undecided branch", self.loc(st, t["sp"]), v.why)
            self.unmodelled.setdefault(f"branch on {v.why}", self.loc(st, t["sp"]))
            res = []
            for bb in [b for _, b in t["br"]] + [t["other"]]:
                s = st.clone()
                s.frames[-1].bb = bb
                res.append(s)
            return res
        v = st.norm(v) if isinstance(v, Lin) else v
        bits = ty["bits"] if ty is not None and ty["k"] == "int" else 128
        signed = ty["signed"] if ty is not None and ty["k"] == "int" else False
        vals = []
        for s_, bb in t["br"]:
            x = int(s_)
            if signed and x >= 1 << (bits - 1):
                x -= 1 << bits
            vals.append((x, bb))
        if isinstance(v, int):
            for x, bb in vals:
                if x == v:
                    fr.bb = bb
                    return None
            fr.bb = t["other"]
            return None
        if isinstance(v, Lin):
            res = []
            rest = st
            for x, bb in vals:
                b = rest.simp(("eq0", sub(v, x)))
                if b is False:
                    continue
                if b is not True and self.decisions is not None:
                    self.decisions.append(b)
                s = rest.clone()
                if s.assume(b, True):
                    s.frames[-1].bb = bb
                    res.append(s)
                if b is True or not rest.assume(b, False):
                    rest = None
                    break
            if rest is not None:
                if self.is_unreachable(fr.body, t["other"]):
                    pass
                else:
                    rest.frames[-1].bb = t["other"]
                    res.append(rest)
            if not res:
                st.dead = True
                return None
            return res
        st.event("undecided branch", self.loc(st, t["sp"]), repr(type(v)))
        st.dead = True
        self.unmodelled.setdefault(f"switch on {type(v).__name__}", self.loc(st, t["sp"]))
        return None

    def is_unreachable(self, body, bb):
        b = body.blocks[bb]
        return not b["s"] and "unreachable" in b["t"]

    def do_assert(self, st, fr, t):
        if self.msg(t["msg"]) in ("MisalignedPointerDereference", "NullReferenceConstructed", "NullPointerDereference"):
            # checks of raw pointer validity: safe code cannot violate them
            fr.bb = t["target"]
            return None
        c = self.operand(st, fr, t["assert"])
        if isinstance(c, Top):
            c = ("app", "top", st.fresh())
        want = t["exp"]
        res = []
        self.checked[(self.msg(t["msg"]), t["sp"])] = 1
        for s, b in self.decide(st, c):
            if b == want:
                s.frames[-1].bb = t["target"]
                res.append(s)
            else:
                self.panic(s, "assert " + self.msg(t["msg"]), t["sp"], c)
        if len(res) == 1 and res[0] is st:
            return None
        if not res:
            st.dead = True
            return None
        return res

    def msg(self, m):
        if isinstance(m, str):
            return m
        k, v = next(iter(m.items()))
        if k == "Overflow":
            return f"overflow {v[0]}"
        return k

    # ---- drops ------------------------------------------------------------------------------
    def drop_glue(self, ty, seen=()):
        """Does dropping this type run code that matters (own Drop impls, encoders)?"""
        r = self.drop_cache.get(ty)
        if r is not None:
            return r
        if ty in seen:
            return False
        t = self.db.types[ty]
        k = t["k"]
        r = False
        if k == "adt":
            if t["drop"] and t["crate"] in ("gvas", "vroots"):
                r = True
            elif "ZlibEncoder" in t["name"] or "DeflateEncoder" in t["name"] or "GzEncoder" in t["name"]:
                r = True
            else:
                subs = [f["t"] for v in t["vars"] for f in v["f"]] + [a for a in t["args"] if isinstance(a, int)]
                r = any(self.drop_glue(x, seen + (ty,)) for x in subs)
        elif k == "tuple":
            r = any(self.drop_glue(x, seen + (ty,)) for x in t["ts"])
        elif k in ("array", "slice"):
            r = self.drop_glue(t["t"], seen + (ty,))
        elif k == "closure":
            r = any(self.drop_glue(x, seen + (ty,)) for x in t["up"])
        if not seen:
            self.drop_cache[ty] = r
        return r

    def drop(self, st, fr, t):
        fr.bb = t["target"]
        ty = t["pt"]
        if ty is None or not self.drop_glue(ty):
            return None
        p = self.place(st, fr, t["drop"])
        if isinstance(p, ValPlace):
            return None
        return self.drop_value(st, Ref(p[0], p[1]), ty, t["sp"])

    def drop_value(self, st, ref, ty, sp):
        t = self.db.types[ty]
        if t["k"] == "adt" and t["drop"] and t["crate"] in ("gvas", "vroots") and "inst" in t["drop"]:
            outs = self.call_sub(st, t["drop"]["inst"], (ref,), sp)
            return [s for s, _ in outs]
        v = self.load(st, ref.cell, ref.path)
        if isinstance(v, Obj) and v.kind == "zenc" and not v["done"]:
            import models
            models.zenc_dropped(self, st, ref, v, sp)
            return None
        if isinstance(v, Obj) and v.kind == "bufw" and isinstance(v["inner"], Ref):
            w = self.load(st, v["inner"].cell, v["inner"].path)
            if isinstance(w, Obj) and w.kind == "zenc" and not w["done"]:
                import models
                models.zenc_dropped(self, st, v["inner"], w, sp)
            return None
        if isinstance(v, Agg):
            ts = self.field_types(ty, v.var) or []
            states = [st]
            for i, ft in enumerate(ts):
                if self.drop_glue(ft):
                    nxt = []
                    for s in states:
                        r = self.drop_value(s, Ref(ref.cell, ref.path + (("f", v.var, i),)), ft, sp)
                        nxt += [s] if r is None else r
                    states = nxt
            return None if states == [st] else states
        return None

    # ---- calls ------------------------------------------------------------------------------
    def call(self, st, fr, t):
        c = t["call"]
        args = tuple(self.operand(st, fr, a) for a in t["args"])
        dest = self.place(st, fr, t["dest"])
        inst = c.get("inst")
        if "def" not in c:
            f = self.operand(st, fr, t["func"])
            if isinstance(f, FnV):
                inst = f.inst
            else:
                return self.havoc_call(st, fr, t, "indirect call", args, dest)
        return self.invoke(st, inst, c.get("def"), c.get("targs"), args, t["ats"], t["dt"], t["sp"], dest,
                           t["target"])

    def make_call(self, inst, trait, targs, args, ats, dt, sp):
        c = Call()
        c.inst = inst
        i = self.db.insts[inst] if inst is not None else None
        c.info = i
        c.defn = i["def"] if i else trait
        c.name = i["name"] if i else trait
        c.trait = trait or c.defn
        c.targs = targs if targs is not None else (i["args"] if i else [])
        c.args = args
        c.ats = ats
        c.dt = dt
        c.sp = sp
        return c

    def invoke(self, st, inst, trait, targs, args, ats, dt, sp, dest, target):
        if len(args) == 2 and trait is not None and trait.startswith("std::ops::Fn") and inst is not None:
            i = self.db.insts[inst]
            if i["kind"] == "Item" and "{closure" in i["def"]:
                # rust-call ABI: the arguments of a closure come as a tuple
                tup = args[1]
                if isinstance(tup, Sym):
                    tup = self.expand(st, tup, 0)
                if isinstance(tup, Agg):
                    args = (args[0],) + tuple(tup.f)
                    ats = [None] * len(args)
        c = self.make_call(inst, trait, targs, args, ats, dt, sp)
        m = self.find_model(c)
        if self.nt is not None:
            r = self.nt(self, st, c)
            if r is not None:
                return self.finish(st, r, dest, target)
        if m is not None:
            r = m(self, st, c)
            if r is not INLINE:
                return self.finish(st, r, dest, target)
        if inst is not None and self.db.body(inst) is not None and (
                len(self.db.insts[inst]["body"]["blocks"]) < 400 or self.db.insts[inst]["crate"] == "gvas"):
            if target is None:
                # diverging call: either a panic helper or a wrapper of one
                i = self.db.insts[inst]
                if i["crate"] in ("core", "std", "alloc"):
                    self.panic(st, self.panic_kind(i["def"]), sp)
                    return None
            fr2 = self.push(st, inst, args, dest, target, sp)
            return None
        if target is None:
            self.panic(st, self.panic_kind(c.defn), sp)
            return None
        fr = st.frames[-1]
        return self.finish(st, self.havoc(st, c), dest, target)

    def panic_kind(self, d):
        return "call " + re.sub(r"::<.*?>", "", d)

    def find_model(self, c):
        k = (c.inst, c.trait)
        if k in self.model_cache:
            return self.model_cache[k]
        ms = [fn for pat, fn in self.models
              if pat.match(c.defn) or (c.trait != c.defn and pat.match(c.trait))]
        m = None
        if len(ms) == 1:
            m = ms[0]
        elif ms:
            def m(ip, st, c):
                for fn in ms:
                    r = fn(ip, st, c)
                    if r is not INLINE:
                        return r
                return INLINE
        self.model_cache[k] = m
        return m

    def finish(self, st, r, dest, target):
        """Store the outcome(s) of a model and continue after the call."""
        if isinstance(r, list):
            res = []
            for s, v in r:
                if s.dead:
                    continue
                self.put(s, dest, v)
                s.frames[-1].bb = target
                if target is None:
                    continue
                res.append(s)
            if not res:
                st.dead = True
                return None
            return res
        if st.dead:
            return None
        self.put(st, dest, r)
        if target is None:
            st.dead = True
            return None
        st.frames[-1].bb = target
        return None

    def put(self, st, dest, v):
        if dest is not None and not isinstance(dest, ValPlace):
            self.store(st, dest[0], dest[1], v)

    def havoc(self, st, c):
        """A function the analysis has no model for: unknown result, mutable arguments lost."""
        if not self.quiet:
            self.unmodelled.setdefault(re.sub(r"::<.*?>", "", c.defn), self.loc(st, c.sp))
        st.event("unmodelled", c.defn)
        for v, ty in zip(c.args, c.ats):
            if ty is None:
                continue
            t = self.db.types[ty]
            if t["k"] == "ptr" and t["mut"]:
                st.event("lost write", c.defn)
            if isinstance(v, Ref) and t["k"] == "ref" and t["mut"]:
                old = self.load(st, v.cell, v.path)
                if isinstance(old, Obj) and old.kind in ("in", "out"):
                    st.event("stream lost", c.defn)
                    self.store(st, v.cell, v.path, old.with_(fields=old["fields"] + (("lost", c.defn),)))
                    continue
                self.store(st, v.cell, v.path, Top("modified by " + c.defn))
        if c.dt is None:
            return Top(c.defn)
        return self.mk(st, ("call", c.defn, st.fresh()), c.dt)

    def havoc_call(self, st, fr, t, why, args, dest):
        self.unmodelled.setdefault(why, self.loc(st, t["sp"]))
        st.event("unmodelled", why)
        v = self.mk(st, ("call", why, st.fresh()), t["dt"]) if t["dt"] is not None else Top(why)
        return self.finish(st, v, dest, t["target"])

    # ---- loops ------------------------------------------------------------------------------
    def mir_loop(self, st, fr, header, blocks):
        depth = len(st.frames)
        fid = fr.fid

        def run_iter(s):
            f = s.frames[-1]
            f.active = f.active + (header,)

            def stop(x):
                if len(x.frames) < depth:
                    return True
                if len(x.frames) == depth:
                    b = x.frames[-1].bb
                    return b == header or b not in blocks
                return False

            res = []
            for x in self.explore(s, stop):
                if len(x.frames) == depth and x.frames[-1].fid == fid:
                    g = x.frames[-1]
                    g.active = tuple(h for h in g.active if h != header)
                    res.append(("back" if g.bb == header else "exit", x))
                else:
                    res.append(("exit", x))
            return res

        import loops
        return loops.summarise(self, st, run_iter, self.loop_name(fr, header))

    def loop_name(self, fr, header):
        t = fr.body.blocks[header]["t"]
        return f"{self.db.insts[fr.inst]['def']}@{self.db.where(t.get('sp'))}"


class _Inline:
    pass


INLINE = _Inline()

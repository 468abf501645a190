"""The primitives that the other analyses take as given (booleans, identifiers, enumerated codes) keep their contract."""
from flow import Agg, Ref, Sym, flatten, is_ok, judge, murky, opaque

RULE = "primitive as assumed"
ENUMS = {"history": "TextHistoryType", "argument": "FormatArgumentType", "rounding": "RoundingMode",
         "datestyle": "DateTimeStyle", "transform": "TransformType", "compression": "PalworldCompressionType"}


def booleans(fl, name, width):
    """Zero is false, one is true, nothing else is a boolean."""
    rep = fl.rep
    seen = set()
    for o in fl.try_run(f"read {name}", f"read_{name}") or []:
        if not is_ok(o):
            continue
        raw = o.cells[("in",)]["fields"]
        fs = flatten(o, raw)
        if opaque(o.ret) or murky(o) or any(f[0] == "lost" for f in fs):
            rep.unknown(RULE, fl.locate(*raw), f"read {name}", "not followed")
            continue
        b = o.ret.f[0]
        b = b if isinstance(b, bool) else o.simp(b)
        if len(fs) != 1 or fs[0][:2] != ("num", width):
            rep.violation(RULE, fl.locate(*raw), f"read {name}: width", f"{len(fs)} fields are read instead of {width} bytes")
            continue
        lo, hi = o.rng(fs[0][2])
        if isinstance(b, bool) and lo == hi == int(b) or not isinstance(b, bool) and (lo, hi) == (0, 1):
            seen |= {lo, hi}
            rep.ok(RULE, f"read {name}: {lo}..{hi} is {b}")
        else:
            rep.violation(RULE, fl.locate(*raw), f"read {name}: values", f"the values {lo} to {hi} are read as {b!r}")
    if seen and seen != {0, 1}:
        rep.violation(RULE, "src/cursor_ext.rs", f"read {name}: rejected", f"only {sorted(seen)} is accepted as a boolean")
    for o in fl.try_run(f"write {name}", f"write_{name}") or []:
        if not is_ok(o):
            continue
        raw = o.cells[("out",)]["fields"]
        fs = flatten(o, raw)
        b = o.simp(("bv", ("arg", f"write_{name}", 1)))
        if opaque(tuple(fs)) or murky(o) or any(f[0] == "lost" for f in fs):
            rep.unknown(RULE, fl.locate(*raw), f"write {name}", "not followed")
        elif len(fs) == 1 and fs[0][:2] == ("num", width) and (
                isinstance(b, bool) and o.norm(fs[0][2]) == int(b) or not isinstance(b, bool) and "b2i" in repr(fs[0][2])):
            rep.ok(RULE, f"write {name}: {b}")
        else:
            rep.violation(RULE, fl.locate(*raw), f"write {name}", f"{b!r} is written as {fs!r}"[:200])




def enums(fl, which):
    """A code is read to the variant that has it and a variant is written as its code."""
    rep = fl.rep
    for e in which:
        codes = set()
        where = "src/cursor_ext.rs"
        for o in fl.try_run(f"read {e}", f"read_enum_{e}") or []:
            if not is_ok(o):
                continue
            raw = o.cells[("in",)]["fields"]
            fs = flatten(o, raw)
            where = fl.locate(*raw)
            if opaque(o.ret) or murky(o) or any(f[0] == "lost" for f in fs):
                rep.unknown(RULE, where, f"read {e}", "not followed")
                continue
            v = o.ret.f[0]
            if len(fs) != 1 or fs[0][:2] != ("num", 1):
                rep.violation(RULE, where, f"read {e}: width", f"{len(fs)} fields are read instead of one byte")
                continue
            x = o.norm(fs[0][2])
            if isinstance(v, Agg):
                d = fl.ip.discs(v.ty)[v.var]
                lo, hi = o.rng(x)
                if (lo, hi) == (d & 0xff, d & 0xff) or (lo, hi) == (d, d):
                    codes.add(d)
                    rep.ok(RULE, f"{e}: code {d}")
                else:
                    rep.violation(RULE, where, f"read {e}: {d}", f"codes {lo} to {hi} are read as the variant with code {d}")
            elif isinstance(v, Sym):
                d = fl.ip.discriminant(o, v, v.ty)
                if o.norm(d) == x:
                    codes |= set(fl.ip.discs(v.ty))
                    rep.ok(RULE, f"{e}: every code")
                else:
                    rep.violation(RULE, where, f"read {e}", f"{x!r} is read as {v!r}")
        for o in fl.try_run(f"write {e}", f"write_enum_{e}") or []:
            if not is_ok(o):
                continue
            raw = o.cells[("out",)]["fields"]
            fs = flatten(o, raw)
            if opaque(tuple(fs)) or murky(o) or any(f[0] == "lost" for f in fs):
                rep.unknown(RULE, fl.locate(*raw), f"write {e}", "not followed")
                continue
            ty = fl.ctx.db.body(fl.ctx.db.root[f"write_enum_{e}"]).locals[2]
            d = o.norm(fl.ip.discriminant(o, Sym(("arg", f"write_enum_{e}", 1), ty), ty))
            if len(fs) == 1 and fs[0][:2] == ("num", 1) and o.norm(fs[0][2]) == d:
                rep.ok(RULE, f"write {e}: {d!r}"[:100])
                missing = set(fl.ip.discs(ty)) - codes
                if codes and missing:
                    rep.violation(RULE, where, f"read {e}: rejected", f"the codes {sorted(missing)} can be written but not read")
            else:
                rep.violation(RULE, fl.locate(*raw), f"write {e}", f"the variant with code {d!r} is written as {fs!r}"[:300])


def guids(fl):
    rep = fl.rep
    for o in fl.try_run("read guid", "read_guid") or []:
        if not is_ok(o):
            continue
        raw = o.cells[("in",)]["fields"]
        arr = fl.ip.proj(o, o.ret.f[0], ("f", 0, 0))
        if opaque(arr) or any(f[0] == "lost" for f in raw):
            rep.unknown(RULE, fl.locate(*raw), "read guid", "not followed")
        elif len(raw) == 1 and raw[0][:2] == ("bytes", 16) and isinstance(arr, Sym) and arr.key == raw[0][2]:
            rep.ok(RULE, "read guid: sixteen bytes as stored")
        else:
            rep.violation(RULE, fl.locate(*raw), "read guid", f"{raw!r} is read as {arr!r}"[:300])
        s = o.clone()
        s.cells[("val",)] = o.ret.f[0]
        s.ret = None
        for w in fl.try_run("write guid", "write_guid", {1: Ref(("val",))}, st=s) or []:
            judge(fl, "guid", o, w, raw, RULE)


def check(fl, names):
    cut, fl.ip.cut = fl.ip.cut, False
    for n in names:
        if n == "bool":
            booleans(fl, "bool", 1)
        elif n == "b32":
            booleans(fl, "b32", 4)
        elif n == "guid":
            guids(fl)
        else:
            enums(fl, [n])
    fl.ip.cut = cut

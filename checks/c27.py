"""C27: errors say what went wrong and where; printed forms show every part."""
import re

from c13 import PRIMITIVES, READERS, WRITERS
from c28 import mentions
from flow import Agg, Flow, Obj, Ref, Str, Sym, T, is_err, is_int, murky, opaque, size, sub

SAME = "a failure of the stream is passed on as it is"
KIND = "refusals are of the right kind"
PLACE = "positions lie within what was read"
VALUE = "the value named is the one refused"
WRAP = "conversions into errors keep the cause"
SHOWN = "printed forms show every part under its name"
STREAM = re.compile(r"^(std::io::|byteorder::|flate2::|gvas::cursor_ext::|gvas::properties::)")


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n = {"failures": 0, "refusals": 0, "positions": 0, "values": 0, "printed": 0}
    for hdr in (True, False):
        h = " with header" if hdr else ""
        analyse(fl, "record read" + h, "property_new", {1: Str(T), 2: hdr}, True, n)
        analyse(fl, "record written" + h, "property_write", {2: hdr}, False, n)
    for r in READERS + WRITERS:
        analyse(fl, r.replace("_", " "), r, {}, r in READERS, n)
    fl.ip.cut = False
    for r in PRIMITIVES:
        analyse(fl, r.replace("_", " "), r, {}, r.startswith("read"), n)
    fl.ip.cut = True
    conversions(fl, n)
    printed(fl, n)
    rep.coverage["instances"] = n
    if not fl.aborted:
        rep.floor("failing steps", n["failures"], 2500)
        rep.floor("refusals", n["refusals"], 250)
        rep.floor("positions", n["positions"], 150)
        rep.floor("values", n["values"], 30)
        rep.floor("printed forms", n["printed"], 25)
    fl.coverage()
    return ("Every failing path of every reader and writer. A step of the stream that fails must come out as that very error. A refusal "
            "must be a deserialisation error on reading and a serialisation error on writing; its position minus the starting "
            "position must lie between zero and the size of the fields consumed, and the number it carries must be the value of a "
            "field read there, several ones each a value read, the length of consecutive fields read or a constant. Every path of every printed form must contain every field of what is printed.")


def error_of(o):
    v = o.ret
    return v.f[0] if isinstance(v, Agg) and v.f else None


def text(fl, v):
    ty = getattr(v, "ty", None)
    return fl.ctx.db.types[ty]["text"] if isinstance(ty, int) else ""


def analyse(fl, what, root, given, reading, n):
    fl.ip.fail = True
    outs = fl.try_run(what, root, given)
    fl.ip.fail = False
    for o in outs or []:
        if not is_err(o):
            continue
        e = error_of(o)
        if o.failed is not None and STREAM.match(o.failed[0]):
            failure(fl, what, o, e, n)
        elif o.failed is None:
            refusal(fl, what, root, o, e, reading, n)


def failure(fl, what, o, e, n):
    op, loc, fn = o.failed
    n["failures"] += 1
    if is_cause(e) or isinstance(e, Agg) and len(e.f) == 1 and is_cause(e.f[0]) and "io::Error" in text(fl, e.f[0]):
        fl.rep.ok(SAME, f"{what}: {op} at {loc}")
    elif op.endswith("stream_position") and isinstance(e, Agg) and "DeserializeError" in inner(fl, e):
        fl.rep.ok(SAME, f"{what}: the position of an error can not be found at {loc}")
    elif murky(o) or opaque(e) or e is None or isinstance(e, Sym):
        fl.rep.unknown(SAME, f"{loc} in {fn}", f"{fn}: {op}", f"{e!r}"[:200])
    else:
        fl.rep.violation(SAME, f"{loc} in {fn}", f"{fn}: {op}", f"{what}: the failure of {op} at {loc} is reported as something else: {e!r}"[:400])


def is_cause(v):
    return isinstance(v, Sym) and v.key[:1] == ("ioerr",)


def inner(fl, e):
    """The type of the error wrapped in the general one."""
    return text(fl, e.f[0]) if isinstance(e, Agg) and e.f else ""


def refusal(fl, what, root, o, e, reading, n):
    rep = fl.rep
    n["refusals"] += 1
    kind = inner(fl, e)
    where = fl.locate(*o.cells[("in",) if reading else ("out",)]["fields"][-2:])
    where = where if where != "?" else fl.where(root)
    if not isinstance(e, Agg) or not kind:
        rep.unknown(KIND, where, what, f"{e!r}"[:200])
        return
    if ("SerializeError" if reading else "DeserializeError") in re.split(r"\W+", kind):
        if murky(o):
            rep.unknown(KIND, where, what, "conditions not followed")
        else:
            rep.violation(KIND, where, f"{what}: kind", f"{what}: {'input' if reading else 'a value'} is refused with {e!r}"[:400])
        return
    rep.ok(KIND, f"{what}: {e!r}"[:200])
    d = e.f[0]
    if not reading or not isinstance(d, Agg) or "DeserializeError" not in kind:
        return
    fts = fl.ip.field_types(d.ty, d.var) or []
    if not fts or fl.ctx.db.types[fts[-1]]["text"] != "u64":
        return
    streams = [v for c, v in o.cells.items() if isinstance(v, Obj) and v.kind == "in" and (c[0] == "in" or c[0] == "stream")]
    pos, nums = d.f[-1], [x for x, t in zip(d.f[:-1], fts) if fl.ctx.db.types[t]["k"] == "int"]
    place(fl, what, o, d, pos, streams, where, n)
    if nums:
        value(fl, what, o, d, pos, nums, streams, where, n)


def place(fl, what, o, d, pos, streams, where, n):
    n["positions"] += 1
    inst = f"{what}: {variant(fl, d)}"
    if not is_int(pos) or opaque(pos):
        fl.rep.unknown(PLACE, where, inst, f"{pos!r}"[:200])
        return
    outside = []
    for s in streams:
        p0 = s.get("pos0", 0)
        try:
            off, end = o.norm(sub(pos, p0)), size(passed(s))
        except KeyError:
            continue
        left = o.norm(sub(end, off))
        if low(o, off) >= 0 and low(o, left) >= 0:
            fl.rep.ok(PLACE, f"{inst}: at {off!r}"[:200])
            return
        if opaque(off) or opaque(left):
            continue
        if high(o, off) < 0:
            outside.append(f"{off!r} lies before the start")
        elif high(o, left) < 0:
            outside.append(f"{off!r} lies behind the {o.norm(end)!r} bytes read")
        elif mentions(off, ("pos0", "in")):
            outside.append(f"{o.norm(pos)!r} is not counted from where the stream began")
    if len(outside) == len(streams) and not murky(o):
        fl.rep.violation(PLACE, where, inst, f"{what}: {d!r}: position {outside[0]}"[:500])
    else:
        fl.rep.unknown(PLACE, where, inst, f"{o.norm(pos)!r}"[:200])


def passed(s):
    """The fields read so far, those behind a step back included."""
    return tuple(s["fields"]) + tuple(s.get("again") or ())


def low(o, v):
    r = o.rng(v)[0]
    return -1 if r is None else r


def high(o, v):
    r = o.rng(v)[1]
    return 1 if r is None else r


def variant(fl, d):
    return fl.ctx.db.types[d.ty]["vars"][d.var]["n"]


def value(fl, what, o, d, pos, nums, streams, where, n):
    """The number was read at the position named; several numbers are read, lengths of what was read, or fixed."""
    n["values"] += 1
    inst = f"{what}: {variant(fl, d)}"
    if any(not is_int(x) or opaque(x) for x in nums):
        fl.rep.unknown(VALUE, where, inst, f"{d!r}"[:200])
        return
    found, bounds = [], []
    for s in streams:
        at = s.get("pos0", 0)
        bounds.append([at])
        for f in passed(s):
            try:
                end = o.norm(sub(at, -size((f,)) if isinstance(size((f,)), int) else neg(size((f,)))))
            except KeyError:
                break
            if f[0] == "num" and is_int(f[2]) and any(o.norm(sub(f[2], x)) == 0 for x in nums):
                found.append((at, end))
            elif f[0] == "num" and opaque(f[2]):
                found.append(None)
            at = end
            bounds[-1].append(at)
    for x in nums if len(nums) > 1 else ():
        if isinstance(o.norm(x), int) or any(o.norm(sub(f[2], x)) == 0 for s in streams for f in passed(s) if f[0] == "num" and is_int(f[2])):
            continue
        if any(o.norm(sub(sub(b, a), x)) == 0 for bs in bounds for i, b in enumerate(bs) for a in bs[:i + 1]):
            continue
        if murky(o) or None in found:
            fl.rep.unknown(VALUE, where, inst, f"{d!r}"[:200])
        else:
            fl.rep.violation(VALUE, where, inst, f"{what}: {d!r}: {o.norm(x)!r} is neither a value nor a length that was read"[:500])
        return
    if not found:
        if murky(o):
            fl.rep.unknown(VALUE, where, inst, f"{d!r}"[:200])
        else:
            fl.rep.violation(VALUE, where, inst, f"{what}: {d!r} names no value that was read"[:500])
    elif None in found or len(nums) > 1:
        fl.rep.ok(VALUE, f"{inst}: {d!r}"[:200])
    elif any(low(o, o.norm(sub(pos, a))) >= 0 and low(o, o.norm(sub(b, pos))) >= 0 for a, b in found):
        fl.rep.ok(VALUE, f"{inst}: {d!r}"[:200])
    elif murky(o) or opaque(pos) or not is_int(pos):
        fl.rep.unknown(VALUE, where, inst, f"{d!r}"[:200])
    elif all(high(o, o.norm(sub(pos, a))) < 0 or high(o, o.norm(sub(b, pos))) < 0 for a, b in found):
        fl.rep.violation(VALUE, where, inst, f"{what}: {d!r} names a position other than that of the value"[:500])
    else:
        fl.rep.unknown(VALUE, where, inst, f"{d!r}"[:200])


def neg(v):
    return sub(0, v)


def methods(fl, pattern):
    rx = re.compile(pattern)
    return [(i, x["name"]) for i, x in enumerate(fl.ctx.db.insts) if x["crate"] == "gvas" and rx.match(x["name"])]


def conversions(fl, n):
    found = methods(fl, r"^<gvas::error::Error as std::convert::From<(.*)>>::from$")
    fl.rep.floor("conversions into errors", len(found), 3)
    for i, name in found:
        root = f"fn:{i}"
        fl.ctx.db.root[root] = i
        for o in fl.try_run(name, root) or []:
            e = o.ret
            if isinstance(e, Agg) and len(e.f) == 1 and isinstance(e.f[0], Sym) and e.f[0].key == ("arg", root, 0):
                fl.rep.ok(WRAP, name)
            elif murky(o) or opaque(e):
                fl.rep.unknown(WRAP, fl.where(root), name, f"{e!r}"[:200])
            else:
                fl.rep.violation(WRAP, fl.where(root), name, f"the cause is not kept: {e!r}"[:300])


def printed(fl, n):
    """Printed forms that are not generated by the compiler; that of identifiers is the subject of C20."""
    db = fl.ctx.db
    for i, name in methods(fl, r"^<gvas::(?!types::Guid ).* as std::fmt::(Display|Debug)>::fmt$"):
        if db.insts[i]["derived"] and "Debug" in name:
            continue
        root = f"fn:{i}"
        db.root[root] = i
        ty = name[1:].split(" as ")[0]
        adts = [a for a in fl.ctx.items["adts"] if "gvas::" + a["name"] == ty]
        for o in fl.try_run(name, root, {1: Ref(("fmt",))}) or []:
            if o.ret is None or not isinstance(o.ret, Agg) or o.ret.var != 0:
                continue
            n["printed"] += 1
            one(fl, name, root, o, adts[0] if len(adts) == 1 else None)


def one(fl, name, root, o, adt):
    key = ("*", ("arg", root, 0))
    var = o.facts.var.get(key, 0)
    if adt is None or var >= len(adt["vars"]):
        fl.rep.unknown(SHOWN, fl.where(root), name, "type not found")
        return
    pieces = o.cells[("fmt",)]
    if not isinstance(pieces, Obj) or any(p[0] not in ("s", "a") for p in pieces["p"]):
        fl.rep.unknown(SHOWN, fl.where(root), name, "output not followed")
        return
    fields = adt["vars"][var]["f"]
    names = [f["n"] for f in fields]
    bad, last = False, -1
    for j, f in enumerate(fields):
        if re.search(r"\bFromUtf(8|16)Error\b", str(f)):
            continue  # the cause, available as such
        at = [k for k, p in enumerate(pieces["p"]) if shows(p, ("f", key, var, j))]
        inst = f"{name}: {adt['vars'][var]['n']} {f['n']}"
        if not at:
            bad = True
            if murky(o) or opaque(tuple(p[1:] for p in pieces["p"])):
                fl.rep.unknown(SHOWN, fl.where(root), inst, "output not followed")
            else:
                fl.rep.violation(SHOWN, fl.where(root), inst, "is not shown")
            continue
        before = pieces["p"][at[0] - 1] if at[0] else None
        label = re.findall(r"(\w+)\W*$", before[1]) if before and before[0] == "s" and isinstance(before[1], str) else []
        if not f["n"].isdigit() and label and label[0] in names and label[0] != f["n"]:
            bad = True
            fl.rep.violation(SHOWN, fl.where(root), inst, f"is shown as {label[0]}")
        elif at[0] < last:
            bad = True
            fl.rep.violation(SHOWN, fl.where(root), inst, "is shown before a part that precedes it")
        last = max(last, at[0])
    if not bad:
        fl.rep.ok(SHOWN, f"{name}: {adt['vars'][var]['n']}")


def shows(p, key):
    if p[0] == "s":
        return not isinstance(p[1], str) and mentions(p[1], key)
    return any(mentions(x, key) for x in p[1:])

"""C08: declared value sizes match the bytes, on writing and on reading."""
from flow import (ALL_TYPES, Flow, Str, T, add, brief, describe, flatten, is_ok, joined, murky, opaque, regroup,
                  size, sub)

# fields between the array index and the end of the header, by type name
EXTRA = {"StructProperty": ("fstr", "guid"), "ArrayProperty": ("fstr",), "SetProperty": ("fstr",),
         "EnumProperty": ("fstr",), "ByteProperty": ("fstr",), "MapProperty": ("fstr", "fstr"),
         "BoolProperty": ("byte",)}


def split(st, fs, name):
    """(declared size, value fields) of a record after its type name, or None if it is not laid out as a record."""
    if fs and fs[0][:2] == ("num", 8):
        # size and array index in one: equal to the size only if the index is zero
        fs = [("num", 4, fs[0][2], "le"), ("num", 4, 0, "le")] + fs[1:]
    fs = regroup(st, regroup(st, joined(fs), 0, 4), 1, 4)
    if len(fs) < 3 or fs[0][:2] != ("num", 4) or fs[1][:2] != ("num", 4):
        return None
    i = 2
    for want in EXTRA.get(name, ()):
        if i >= len(fs):
            return None
        f = fs[i]
        if want == "fstr":
            if f[0] != "fstr" and f[:2] != ("num", 4):
                return None
            i += 1
        elif want == "byte":
            if f[:2] != ("num", 1):
                return None
            i += 1
        else:
            n = 0
            while i < len(fs) and n < 16 and fs[i][0] in ("num", "bytes") and isinstance(fs[i][1], int):
                n += fs[i][1]
                i += 1
            if n != 16:
                return None
    if i >= len(fs) or fs[i][:2] != ("num", 1):
        return None
    return fs[0][2], fs[i + 1:]


def inner(st, fs, name):
    """(declared size, element fields) of the struct header inside an array of structs, or None."""
    if name != "ArrayProperty":
        return None
    for i, f in enumerate(fs[:4]):
        if f[0] == "fstr" and f[1] == ("some", "StructProperty"):
            rest = fs[i + 1:]
            got = split(st, rest, "StructProperty")
            return got
    return None


def judge(fl, rule, what, st, fs, name, ref=None):
    rep = fl.rep
    where = fl.locate(*fs[:2])
    flat = flatten(st, fs)
    if any(f[0] in ("lost", "phi", "seek") for f in flat) or murky(st):
        rep.unknown(rule, where, what, "fields not followed")
        return
    got = split(st, flat, name)
    if got is None:
        rep.unknown(rule, where, what, "not laid out as a record: " + ", ".join(brief(f) for f in flat[:6]))
        return
    for label, g in ((what, got), (what + ": struct header in array", inner(st, got[1], name))):
        if g is None:
            continue
        d = st.norm(sub(g[0], size(g[1])))
        if d == 0:
            rep.ok(rule, f"{label}: {brief(('num', 4, g[0], 'le'))}")
        elif opaque(d):
            rep.unknown(rule, where, label, f"difference {d!r}"[:300])
        else:
            rep.violation(rule, where, label, f"declared size {g[0]!r}, value fields take {st.norm(size(g[1]))!r} bytes "
                          f"({describe(st)})"[:700])


def run(ctx, rep):
    fl = Flow(ctx, rep)
    accepted = 0
    for name in ALL_TYPES + [None]:
        for o in fl.read_property(name, True) or []:
            if is_ok(o):
                accepted += 1
                judge(fl, "accepted only if the size is right", f"reading {name or 'other type'}", o,
                      o.cells[("in",)]["fields"], name)
    rep.floor("accepting paths of the parser", accepted, 60)
    written = 0
    for o in fl.try_run("write any value", "property_write", {2: True}) or []:
        if not is_ok(o):
            continue
        fs = flatten(o, o.cells[("out",)]["fields"])
        if not fs or fs[0][0] != "fstr":
            if opaque(tuple(fs)):
                rep.unknown("size written", "?", "type name", "first field not followed")
            else:
                rep.violation("size written", fl.locate(*fs[:1]), "type name", "a record starts with " + brief(fs[0] if fs else None))
            continue
        t = fs[0][1]
        name = t[1] if t[0] == "some" and isinstance(t[1], str) else None
        written += 1
        judge(fl, "size written", f"writing {name or 'other type'}", o, fs[1:], name)
    rep.floor("paths of the writer", written, 60)
    fl.coverage()
    return ("Every accepting path of the record parser (each type name and an arbitrary other one): the facts of the path "
            "must make the declared size equal to the sum of the sizes of the fields consumed after the header. Every "
            "successful path of the record writer on an arbitrary value: the size field must be, as a term, the sum of "
            "the sizes of the fields emitted after the header. Same for the struct header inside arrays of structs.")

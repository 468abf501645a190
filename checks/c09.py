"""C09: byte counts returned by write operations equal the bytes written."""
from flow import Flow, describe, flatten, is_int, is_ok, murky, opaque, size, sub

RULE = "count = bytes written"
WRITERS = [
    ("property_write", {2: True}, "record with header"), ("property_write", {2: False}, "record without header"),
    ("property_write_body", {}, "record body"), ("ftext_write", {}, "text"), ("fhistory_write", {}, "text history"),
    ("farg_write", {}, "format argument"), ("numfmt_write", {}, "number format"), ("header_write", {}, "file header"),
]
STRINGS = [("write_string", {}, "string"), ("write_string_owned", {}, "owned string"), ("write_fstring", {}, "optional string")]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    paths = {}
    for cut, group in ((True, WRITERS), (False, STRINGS)):
        fl.ip.cut = cut
        for root, given, what in group:
            for o in fl.try_run(what, root, given) or []:
                if is_ok(o):
                    paths[what] = paths.get(what, 0) + 1
                    judge(fl, what, o)
    rep.coverage["successful paths"] = paths
    rep.floor("write operations analysed", len(paths), len(WRITERS) + len(STRINGS) - 1)
    rep.floor("successful paths", sum(paths.values()), 150)
    fl.coverage()
    return ("Every successful path of every write operation that reports a count, on an arbitrary value: the returned "
            "term minus the sum of the sizes of the fields emitted must be zero. Counts of nested values are the "
            "induction hypothesis; loops contribute sums over their iterations.")


def judge(fl, what, o):
    rep = fl.rep
    fs = o.cells[("out",)]["fields"]
    where = fl.locate(*fs[-1:])
    n = o.ret.f[0] if o.ret.f else None
    if any(f[0] in ("lost", "phi", "seek") for f in fs) or not is_int(n) or murky(o):
        rep.unknown(RULE, where, what, f"not followed: {n!r}"[:200])
        return
    d = o.norm(sub(n, size(fs)))
    inst = f"{what}: {describe(o)}"
    if d == 0:
        rep.ok(RULE, f"{inst}: {o.norm(n)!r}"[:300])
    elif opaque(d):
        rep.unknown(RULE, where, what, f"{d!r}"[:300])
    else:
        rep.violation(RULE, where, what + ": " + variant(o), f"the count returned differs from the bytes written by {d!r} ({describe(o)})"[:600])


def variant(o):
    """What kind of value a path writes, without positions."""
    return ", ".join(f"{'.'.join(map(str, k[1:]))}={v}" for k, v in list(o.facts.var.items())[:3])[:80]

"""C10: parsing never panics, whatever the input bytes."""
from flow import ALL_TYPES, Flow, Str, T, murky, opaque

RULE = "no reachable panic"
ROOTS = ["ftext_read", "fhistory_read", "numfmt_read", "header_read", "file_read", "file_read_with_hints"]
PRIMITIVES = ["read_string", "read_fstring", "read_guid", "read_bool", "read_b32", "read_enum_history", "read_enum_argument",
              "read_enum_rounding", "read_enum_datestyle", "read_enum_transform", "read_enum_compression", "guid_parse"]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n = 0
    for hdr in (True, False):
        n += analyse(fl, "record" + (" with header" if hdr else ""), "property_new", {1: Str(T), 2: hdr})
    for r in ROOTS:
        n += analyse(fl, r.replace("_", " "), r, {})
    fl.ip.cut = False
    for r in PRIMITIVES:
        n += analyse(fl, r.replace("_", " "), r, {})
    rep.coverage["paths"] = n
    rep.floor("parser paths", n, 800)
    fl.coverage()
    return ("Every parser entry point with arbitrary bytes, type name, hints, options and arguments. Every assertion the "
            "compiler inserted (overflow, bounds, division), every unwrap/expect, slice or index operation and every "
            "explicit panic on those paths must be unreachable under the path's facts (intervals, constructor facts).")


def analyse(fl, what, root, given):
    ip, rep = fl.ip, fl.rep
    ip.panics.clear()
    checked = dict(ip.checked)
    outs = fl.try_run(what, root, given)
    if outs is None:
        return 0
    for kind, loc, fn, detail, st in ip.panics:
        # the library's own soundness checks cannot fail for callers without unsafe code
        if opaque(detail) or murky(st) or "panic_nounwind" in kind and not fl.ctx.items["unsafe"]:
            rep.unknown(RULE, f"{loc} in {fn}", f"{what}: {kind}", f"{detail!r}"[:200])
        else:
            rep.violation(RULE, f"{loc} in {fn}", f"{fn}: {kind}", f"{kind} can happen: {detail!r}"[:300] + f" ({what})")
    new = sum(ip.checked.values()) - sum(checked.values())
    rep.ok(RULE, f"{what}: {len(outs)} paths, {new} panic sites passed", n=max(new, 1))
    return len(outs)

"""C04: localised text values are rewritten exactly as they were read."""
import prims
from flow import Agg, Flow, Lin, Obj, Ref, Seq, Sym, TEXTS, is_ok, properties, round_trip

HISTORY = "gvas::properties::text_property::FTextHistory"
ARGUMENT = "gvas::properties::text_property::FormatArgumentValue"


def variants(db, v, name, out):
    """Variants of an enum occurring in a value."""
    if isinstance(v, Agg):
        if v.ty is not None and db.adt_name(v.ty) == name:
            out.add(v.var)
        for x in v.f:
            variants(db, x, name, out)
    elif isinstance(v, Seq):
        variants(db, v.parts, name, out)
    elif isinstance(v, tuple):
        for x in v:
            variants(db, x, name, out)


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["b32", "history", "argument", "rounding", "datestyle", "transform"])
    db = ctx.db
    counts = properties(fl, TEXTS, False)
    rep.floor("accepted paths of text records", counts["TextProperty with header"], 1)
    seen = {HISTORY: set(), ARGUMENT: set()}
    for what, r, w in (("text", "ftext_read", "ftext_write"), ("text history", "fhistory_read", "fhistory_write"),
                       ("number format", "numfmt_read", "numfmt_write")):
        outs = fl.try_run(what, r)
        counts[what] = round_trip(fl, what, outs, w, {}, ())
        for o in outs or []:
            if is_ok(o):
                for n, s in seen.items():
                    variants(db, o.ret, n, s)
                    for c, v in o.cells.items():
                        variants(db, v, n, s)
        if outs is None:
            seen = None
    rep.floor("accepted paths of texts", counts["text"], 30)
    rep.floor("accepted paths of text histories", counts["text history"], 30)
    for name, got in (seen or {}).items():
        ty = [t for t in db.types.values() if t["k"] == "adt" and t["name"] == name]
        if not ty:
            rep.unknown("every kind can be read", "?", name, "type not found")
            continue
        for i, v in enumerate(ty[0]["vars"]):
            inst = f"{name.rsplit('::', 1)[1]}::{v['n']}"
            if i in got:
                rep.ok("every kind can be read", inst)
            else:
                rep.violation("every kind can be read", "src/properties/text_property.rs", inst,
                              f"no path of the parser produces {inst}")
    fl.coverage()
    return ("Every accepting path of reading a text, a text history and number format options, under every custom "
            "version choice the code makes; nested texts are induction hypotheses. The writer is followed on each "
            "result and must emit the consumed fields. Additionally every variant of the history and argument types "
            "must be produced by some accepting path.")

"""C29: the ordered table is the sequence of entries it holds."""
from flow import Agg, Flow, Lin, Obj, Ref, Seq, Str, Sym, murky, opaque

EMPTY = "a new table holds nothing"
SAME = "the table does what the table inside does"
NEW = ["tab_new", "tab_default", "tab_sized"]
PAIRS = ["tab_from", "tab_view", "tab_change", "tab_list", "tab_each"]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n = 0
    for root in NEW:
        for o in fl.try_run(root, root) or []:
            n += 1
            v = o.ret.f[0] if isinstance(o.ret, Agg) and len(o.ret.f) == 1 else o.ret
            if isinstance(v, Seq) and not v.parts:
                rep.ok(EMPTY, root)
            elif isinstance(v, Seq) and not murky(o):
                rep.violation(EMPTY, fl.where(root), root, f"holds {v!r}"[:300])
            else:
                rep.unknown(EMPTY, fl.where(root), root, f"{o.ret!r}"[:300])
    for root in PAIRS:
        got, want = (outcomes(fl, r) for r in (root, root + "_ref"))
        n += len(want)
        if any(opaque(x) for x, _ in want) or not want:
            rep.unknown(SAME, fl.where(root), root, "wrapped operation not followed")
            continue
        for x, o in got:
            if any(x == y for y, _ in want):
                rep.ok(SAME, f"{root}: {x!r}"[:300])
            elif opaque(x) or murky(o):
                rep.unknown(SAME, fl.where(root), root, f"{x!r}"[:300])
            else:
                rep.violation(SAME, fl.where(root), root, f"gives {x!r}, the table inside {want[0][0]!r}"[:600])
        missing = [y for y, _ in want if all(x != y for x, _ in got)]
        if missing and not any(opaque(x) or murky(o) for x, o in got):
            rep.violation(SAME, fl.where(root), root, f"never gives {missing[0]!r}"[:600])
    rep.coverage["outcomes"] = n
    rep.floor("outcomes", n, 11)
    fl.coverage()
    return ("Every way to make, fill, look at and walk through an ordered table, analysed on arbitrary contents next to the same "
            "operation on the table it wraps: the results must be the same terms.")


def outcomes(fl, root):
    return [(canon(fl, o, root, o.ret, 0), o) for o in fl.try_run(root, root) or []]


def canon(fl, o, root, v, depth):
    """A result with the name of the entry point and of temporaries taken out."""
    if depth > 12:
        return "..."
    if isinstance(v, Ref):
        if v.cell[0] in ("tmp", "lc"):
            return ("at", canon(fl, o, root, fl.ip.load(o, v.cell, v.path), depth + 1))
        return ("ref", plain(root, v.cell), plain(root, v.path))
    if isinstance(v, Agg):
        return ("agg", v.var, tuple(canon(fl, o, root, x, depth + 1) for x in v.f))
    if isinstance(v, Seq):
        return ("seq", canon(fl, o, root, v.parts, depth + 1))
    if isinstance(v, tuple):
        return tuple(canon(fl, o, root, x, depth + 1) for x in v)
    if isinstance(v, (Sym, Str, Lin, str)) and not opaque(v):
        return plain(root, v)
    return v


def plain(root, v):
    return repr(v).replace(root.removesuffix("_ref") + "_ref", root.removesuffix("_ref"))

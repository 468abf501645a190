"""C14: every byte the parser consumes is validated or kept in the result."""
import prims
from c05 import plain_paths, stream_fields
from flow import (ALL_TYPES, Agg, Flow, Lin, Obj, Ref, Seq, Str, Sym, brief, events, is_ok, murky, opaque)

KEPT = "consumed field is kept or has a fixed value"
TABLE = "repeated key is not lost"

def keys(x, out, st=None, seen=None):
    """Identities of consumed items occurring in a term or value, and of loops."""
    seen = set() if seen is None else seen
    if isinstance(x, Lin):
        for a in x.t:
            keys(a, out, st, seen)
    elif isinstance(x, Sym):
        keys(x.key, out, st, seen)
    elif isinstance(x, Str):
        keys(x.t, out, st, seen)
    elif isinstance(x, Seq):
        keys(x.parts, out, st, seen)
    elif isinstance(x, Agg):
        for y in x.f:
            keys(y, out, st, seen)
    elif isinstance(x, Obj):
        for y in x.d.values():
            keys(y, out, st, seen)
    elif isinstance(x, Ref):
        if st is not None and x.cell not in seen:
            seen.add(x.cell)
            keys(st.cells.get(x.cell), out, st, seen)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] in ("r", "L", "skip") and isinstance(x[1], int):
            out.add(x)
            return
        if len(x) == 2 and x[0] in ("nread", "rest") and isinstance(x[1], int) or len(x) == 3 and x[0] == "z" and isinstance(x[2], int):
            out.add(("r", x[-1]))
            return
        if len(x) == 4 and x[0] == "nt":
            out.add(x[:2])
            keys(x[2], out, st, seen)  # a nested value knows its type
            return
        for y in x:
            keys(y, out, st, seen)
    elif hasattr(x, "d") and isinstance(x.d, dict):
        pass  # facts of a loop alternative: conditions, not contents
    return out


class View:
    """Facts of a path extended by those of the loop alternatives around a field."""

    def __init__(self, o, layers):
        self.o = o
        s = o.clone()
        for d in layers:
            for n, kv in d.d.items():
                old = dict(getattr(s.facts, n))
                old.update(kv)
                setattr(s.facts, n, old)
        self.s = s


def fixed(v, f):
    """Is the field's value fixed under the facts?"""
    s = v.s
    if f[0] == "num":
        x = s.norm(f[2]) if isinstance(f[2], Lin) else f[2]
        if isinstance(x, int):
            return True
        lo, hi = s.rng(x) if isinstance(x, Lin) else (None, None)
        return lo is not None and lo == hi
    if f[0] == "fstr":
        if f[1][0] == "none":
            return True
        return f[1][0] == "some" and isinstance(s.str_norm(f[1][1]), str)
    if f[0] == "bytes":
        if isinstance(f[2], tuple) and f[2][:1] == ("const",):
            return True
        return any(b[0] == "aeq" and b[1] == f[2] and val is True for b, val in s.facts.bt.items() if isinstance(b, tuple) and len(b) > 2)
    return False


def terms(v, f):
    """Terms that make up the field's value."""
    s = v.s
    if f[0] == "num":
        return [s.norm(f[2]) if isinstance(f[2], Lin) else f[2]]
    if f[0] == "flt":
        return [f[2]]
    if f[0] == "fstr":
        return [f[1][1]]
    if f[0] in ("bytes",):
        return [f[2]]
    if f[0] in ("nt", "ntw"):
        return [f[1]]
    return None


def determined(v, k, have):
    """Is an identity fixed by an equation over identities that are kept (counts, sizes)?"""
    for a, e in v.s.facts.sub.items():
        ks = keys(a, keys(e, set()))
        if k in ks and ks - {k} <= have and ks - {k}:
            return True
    return False


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["bool", "b32", "guid", "history", "argument", "rounding", "datestyle", "transform", "compression"])
    counts = {"paths": 0, "fields": 0, "tables": 0}
    for hdr in (True, False):
        for name in ALL_TYPES + [None]:
            what = f"{name or 'other type'} {'with' if hdr else 'without'} header"
            for o in fl.read_property(name, hdr) or []:
                if is_ok(o):
                    path(fl, what, o, o.cells[("in",)]["fields"], counts)
    for root in ("ftext_read", "fhistory_read", "numfmt_read", "header_read"):
        for o in fl.try_run(root, root) or []:
            if is_ok(o):
                path(fl, root.replace("_", " "), o, o.cells[("in",)]["fields"], counts)
    for o in fl.try_run("file_read", "file_read") or []:
        if not is_ok(o):
            continue
        want = stream_fields(o)
        if want is None:
            rep.unknown(KEPT, "?", "file", "more than one buffer")
            continue
        path(fl, "file", o, want, counts)
        raw = o.cells[("in",)]["fields"]
        if raw is not want:
            path(fl, "container", o, [f for f in raw if f[0] == "num" or f[0] == "bytes" and isinstance(f[1], int)], counts, buffered(o))
    rep.coverage["instances"] = counts
    if not fl.aborted:
        rep.floor("accepted paths", counts["paths"], 300)
        rep.floor("consumed fields", counts["fields"], 1800)
        rep.floor("tables read", counts["tables"], 20)
    fl.coverage()
    return ("Every accepting path of every reader: each consumed field is traced into the returned value, or its value is "
            "fixed by the conditions of the path (a comparison with a constant, with a size or with a count that is kept). "
            "Tables must not contain an entry that replaced another one.")


def buffered(o):
    """Identities of what was read from the inner buffer: kept if the inner reading is judged separately."""
    out = set()
    for c, v in o.cells.items():
        if c[0] == "stream":
            keys(c[1], out)
            keys(v["fields"], out)
    return out


def path(fl, what, o, fields, counts, extra=()):
    counts["paths"] += 1
    have = keys(o.ret, set(extra), o)
    tables(fl, what, o, counts)
    walk(fl, what, o, fields, [], have, counts)


def walk(fl, what, o, fields, layers, have, counts):
    v = View(o, layers)
    for f in fields:
        if f[0] == "loop":
            for alt in f[2]:
                walk(fl, what, o, alt[2], layers + [alt[1]], have, counts)
            continue
        if f[0] in ("zlib", "zrest", "tail", "phi"):
            continue
        if f[0] in ("seek", "lost"):
            fl.rep.unknown(KEPT, fl.locate(f), what, f"{f[0]} on the way")
            continue
        counts["fields"] += 1
        if fixed(v, f):
            fl.rep.ok(KEPT, f"{what}: {brief(f)} is fixed")
            continue
        ts = terms(v, f)
        ks = keys(tuple(ts), set()) if ts is not None else None
        if not ks:
            fl.rep.unknown(KEPT, fl.locate(f), what, f"{f!r}"[:200])
            continue
        lost = {k for k in ks if k not in have and not determined(v, k, have)}
        if not lost:
            fl.rep.ok(KEPT, f"{what}: {brief(f)} is kept")
        elif opaque(o.ret) or murky(o):
            fl.rep.unknown(KEPT, fl.locate(f), what, f"{brief(f)}: the result is not followed completely")
        else:
            fl.rep.violation(KEPT, fl.locate(f), f"{what}: {place(fields, f)}", f"{brief(f)} is neither kept in the result nor compared "
                             "with the value the format allows")


def place(fields, f):
    """Position of a field, in words that do not depend on line numbers."""
    n = sum(1 for g in fields[:fields.index(f)] if g[0] == f[0])
    kind = {"num": f"number of {f[1]} bytes", "flt": "float", "fstr": "string", "bytes": "byte block", "nt": "nested value"}.get(f[0], f[0])
    return f"{kind} {n + 1}"


def tables(fl, what, o, counts):
    def go(x, seen):
        if isinstance(x, Agg):
            for y in x.f:
                go(y, seen)
        elif isinstance(x, Seq):
            if x.map:
                counts["tables"] += 1
                if has_over(x.parts):
                    if opaque(x.parts) or murky(o):
                        fl.rep.unknown(TABLE, "?", what, "table not followed")
                    else:
                        fl.rep.violation(TABLE, "?", what, "an entry with a repeated key silently replaces the earlier one")
                else:
                    fl.rep.ok(TABLE, what)
            go(x.parts, seen)
        elif isinstance(x, tuple):
            for y in x:
                go(y, seen)
        elif isinstance(x, Ref) and x.cell not in seen:
            seen.add(x.cell)
            go(o.cells.get(x.cell), seen)
    go(o.ret, set())


def has_over(x):
    if isinstance(x, tuple) and x[:1] != ("edited",):
        return x[:1] == ("over",) or any(has_over(y) for y in x)
    return False

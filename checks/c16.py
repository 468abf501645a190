"""C16: type hints are looked up by the exact property path."""
from flow import (ALL_TYPES, Flow, Str, T, events, find_aggs, is_err, is_ok, murky, opaque, runs_of, variant,
                  variant_name)
from spec import CUSTOM, STRUCT_KINDS

RESTORED = "path restored on leaving"
NESTED = "path at nested values"
LOOKUP = "hint looked up by the path"
MISSING = "missing hint is an error naming the path"
KIND = "struct is of the hinted type"
PASSED = "hints reach nested values"


def parts(fl, st, field):
    """What a field of the options holds in a state."""
    j = fl.E.options_fields.index(field)
    v = st.cells[("sym", ("options",))]
    return fl.E.content(fl.ip, st, fl.ip.proj(st, v, ("f", 0, j)))


def entries(st, ps):
    """Entries of a path as terms; None when not known."""
    out = []
    for p in ps:
        if p[0] == "one" and isinstance(p[1], Str):
            out.append(st.str_norm(p[1].t))
        elif p[0] == "one":
            out.append(st.str_norm(p[1]) if isinstance(p[1], (str, tuple)) else None)
        else:
            return None
    return out


def run(ctx, rep):
    fl = Flow(ctx, rep)
    counts = {"exits": 0, "nested": 0, "lookups": 0, "kinds": 0}
    hint = variant(ctx, "error::DeserializeError", "MissingHint")
    for fail in (False, True):
        for hdr in (True, False):
            for name in ALL_TYPES + [None]:
                fl.ip.fail = fail
                outs = fl.read_property(name, hdr)
                fl.ip.fail = False
                for o in outs or []:
                    what = f"{name or 'other type'} {'with' if hdr else 'without'} header"
                    restored(fl, what, o, counts)
                    if fail:
                        continue
                    tn = name if name is not None else o.str_norm(T)
                    lookups(fl, what, o, tn, hint, counts)
                    if is_ok(o):
                        nested(fl, what, o, tn, counts)
                        if name == "StructProperty" and not hdr:
                            hinted(fl, what, o, counts)
    for o in fl.try_run("file", "file_read_with_hints") or []:
        if is_ok(o):
            file_level(fl, o, counts)
    rep.coverage["instances"] = counts
    if not fl.aborted:
        rep.floor("exits of property readers", counts["exits"], 1000)
        rep.floor("nested values", counts["nested"], 20)
        rep.floor("hint lookups", counts["lookups"], 10)
        rep.floor("hinted struct types", counts["kinds"], 15)
    fl.coverage()
    return ("Every path of reading a record of every type, with every primitive step failing in turn: the list holding "
            "the path is the same on leaving as on entering. At every nested value the path is the entering path, the "
            "type of the record, and the member name or Key or Value. Every access to the hint table uses that path "
            "joined by dots; absence gives the error naming it; presence decides the struct's type.")


def restored(fl, what, o, counts):
    rep = fl.rep
    counts["exits"] += 1
    want = (parts(fl, fl.E.fresh_options(), "properties_stack"))
    got = parts(fl, o, "properties_stack")
    if got == want:
        rep.ok(RESTORED, what)
    elif got[:1] == ("lost",) or opaque(got):
        rep.unknown(RESTORED, "?", what, f"{got!r}"[:200])
    elif murky(o):
        rep.unknown(RESTORED, "?", what, "path chosen by conditions not followed")
    else:
        how = "failure" if is_err(o) else "success"
        at = o.failed[1] + " in " + o.failed[2] if o.failed else "; ".join(str(n) for n in o.notes[-1:]) or "?"
        rep.violation(RESTORED, at, f"{what}: {how}", f"leaving with {how}, the path holds {show(o, got)} beyond or instead of "
                      "what it held on entering")


def show(o, ps):
    return ".".join("<entering path>" if p[0] == "sym" else str(p[1]) for p in ps) or "nothing"


def below(fl, o, ps):
    """Entries added to the entering path, or None."""
    base = parts(fl, fl.E.fresh_options(), "properties_stack")
    if ps[:len(base)] != base:
        return None
    return entries(o, ps[len(base):])


def types_read(o):
    """Type names read by the record itself, before any element."""
    return [o.str_norm(f[1][1]) for f in o.cells[("in",)]["fields"] if f[0] == "fstr" and f[1][0] == "some"]


def member_name(o, k):
    """Name and type read immediately before a nested value."""
    for run in runs_of(o.cells[("in",)]["fields"]):
        for i, f in enumerate(run):
            if f[0] == "nt" and f[1] == k and i >= 2:
                a, b = run[i - 2], run[i - 1]
                if a[0] == b[0] == "fstr" and a[1][0] == b[1][0] == "some":
                    return o.str_norm(a[1][1]), o.str_norm(b[1][1])
    return None


def nested(fl, what, o, tn, counts):
    rep = fl.rep
    for _, k, term, hdr, opts in events(o, "nested"):
        if term == "FText" or opts is None:
            continue
        counts["nested"] += 1
        opts = dict(opts)
        same_hints(fl, what, o, opts["hints"], parts(fl, fl.E.fresh_options(), "hints"))
        got = below(fl, o, opts["properties_stack"])
        if got is None or None in got:
            rep.unknown(NESTED, "?", what, show(o, opts["properties_stack"]))
            continue
        cur, want = tn, [tn]
        rest = got[1:]
        while True:
            if cur == "MapProperty":
                ts = types_read(o)[:2]
                t = o.str_norm(term) if isinstance(term, (str, tuple)) else None
                side = None
                if cur is tn and len(ts) == 2 and ts[0] != ts[1] and t in ts and len(rest) == 1:
                    side = ("Key", "Value")[ts.index(t)]
                elif rest[:1] in (["Key"], ["Value"]):
                    side = rest[0]
                want.append(side)
                rest = rest[1:]
            elif hdr is True and not (len(rest) > 1 and rest[0] in ALL_TYPES):
                nm = member_name(o, k)
                want.append(nm[0] if nm else None)
                rest = rest[1:]
            if not rest or rest[0] not in ALL_TYPES:
                break
            cur = rest[0]
            want.append(cur)
            rest = rest[1:]
        if None in want:
            rep.unknown(NESTED, "?", what, f"expected path not known: {want!r}")
        elif got == want:
            rep.ok(NESTED, f"{what}: " + ".".join(map(str, got)))
        elif opaque(tuple(got)) or murky(o):
            rep.unknown(NESTED, "?", what, f"{got!r}"[:200])
        else:
            rep.violation(NESTED, fl.locate(("nt", k, hdr)), what,
                          f"a nested value is read under the path {pretty(got)}, expected {pretty(want)}")


def pretty(xs):
    return "<entering path>." + ".".join(x if isinstance(x, str) else "<name>" for x in xs)


def same_hints(fl, what, o, got, want):
    if got == want:
        fl.rep.ok(PASSED, what)
    elif got[:1] == ("lost",) or murky(o):
        fl.rep.unknown(PASSED, "?", what, f"{got!r}"[:200])
    else:
        fl.rep.violation(PASSED, "?", what, f"a nested value is read with another hint table: {got!r}"[:300])


def lookups(fl, what, o, tn, hint, counts):
    rep = fl.rep
    base = parts(fl, fl.E.fresh_options(), "properties_stack")
    for _, key, loc, table in events(o, "hint"):
        counts["lookups"] += 1
        if not (isinstance(key, tuple) and key[0] == "join" and key[2] == "."):
            if key is None or opaque(key) or not transformed(key):
                rep.unknown(LOOKUP, loc, what, f"{key!r}"[:200])
            else:
                rep.violation(LOOKUP, loc, f"{what}: key", f"a hint is looked up under {key!r}, not under the path joined by dots"[:300])
            continue
        ps = key[1]
        got = entries(o, ps[len(base):]) if ps[:len(base)] == base else None
        if got is None:
            rep.violation(LOOKUP, loc, f"{what}: key", f"a hint is looked up under {key!r}, which lacks the entering path"[:300])
            continue
        if got[:1] == [tn] and got[-1] == "StructProperty":
            rep.ok(LOOKUP, f"{what}: {pretty(got)}")
        else:
            rep.violation(LOOKUP, loc, f"{what}: key", f"a hint is looked up under {pretty(got)}, expected {pretty([tn])}")
            continue
        if o.facts.var.get(("hget", table, key)) == 0:
            missing(fl, what, o, key, loc, hint)


def transformed(key):
    """A term built by known string operations."""
    return isinstance(key, tuple) and key[0] != "v"


def missing(fl, what, o, key, loc, hint):
    rep = fl.rep
    es = [e for e in find_aggs(fl.ctx.db, o.ret, "error::DeserializeError")] if is_err(o) else []
    good = [e for e in es if e.var == hint and any(isinstance(x, Str) and x.t == key for x in e.f)]
    if good:
        rep.ok(MISSING, what)
    elif murky(o) or opaque(o.ret):
        rep.unknown(MISSING, loc, what, f"{o.ret!r}"[:200])
    elif is_ok(o):
        rep.violation(MISSING, loc, f"{what}: accepted", "a struct without a registered hint is accepted")
    else:
        rep.violation(MISSING, loc, f"{what}: error", f"the error for a missing hint does not name the path: {o.ret!r}"[:300])


def hinted(fl, what, o, counts):
    rep = fl.rep
    found = [k for k, v in o.facts.var.items() if k[0] == "hget" and v == 1]
    vals = find_aggs(fl.ctx.db, o.ret, "struct_property::StructPropertyValue")
    if not found and not murky(o):
        rep.violation(KIND, "?", what, "a struct without header is accepted without a hint")
        return
    if len(found) != 1 or not vals:
        rep.unknown(KIND, "?", what, f"{len(found)} hints, {len(vals)} values")
        return
    t = o.str_norm(("v", ("hval", found[0])))
    got = variant_name(fl.ctx, "struct_property::StructPropertyValue", vals[0].var)
    names = [t] if isinstance(t, str) else [n for n in STRUCT_KINDS if n not in o.facts.sne.get(t, ())] + ["other"]
    for n in names:
        if got in STRUCT_KINDS.get(n, CUSTOM):
            counts["kinds"] += 1
            rep.ok(KIND, f"{what}: {n} read as {got}")
        elif opaque(o.ret) or murky(o):
            rep.unknown(KIND, "?", what, f"{n} read as {got}")
        else:
            rep.violation(KIND, "?", f"{n} read as {got}", f"a struct whose hint is {n} is read as {got}")


def file_level(fl, o, counts):
    rep = fl.rep
    for _, k, term, hdr, opts in events(o, "nested"):
        if opts is None:
            continue
        counts["nested"] += 1
        opts = dict(opts)
        h = opts["hints"]
        if h[0] == "hashmap" and isinstance(h[1], tuple) and h[1][:2] == ("*", ("arg", "file_read_with_hints", 2)):
            rep.ok(PASSED, "file")
        elif h[0] == "lost" or murky(o):
            rep.unknown(PASSED, "?", "file", f"{h!r}"[:200])
        else:
            rep.violation(PASSED, "?", "file", f"properties are read with another hint table: {h!r}"[:300])
        got = entries(o, opts["properties_stack"])
        nm = None
        for c, v in o.cells.items():
            if c[0] in ("in", "stream"):
                nm = nm or name_in(o, v["fields"], k)
        if got is None or nm is None or None in got:
            rep.unknown(NESTED, "?", "file", f"{got!r} {nm!r}"[:200])
        elif got == [nm]:
            rep.ok(NESTED, "file: property name")
        elif opaque(tuple(got)) or murky(o):
            rep.unknown(NESTED, "?", "file", f"{got!r}"[:200])
        else:
            rep.violation(NESTED, fl.locate(("nt", k, hdr)), "file",
                          f"a property is read under the path {got!r}, expected its name {nm!r}"[:300])


def name_in(o, fields, k):
    for run in runs_of(fields):
        for i, f in enumerate(run):
            if f[0] == "nt" and f[1] == k and i >= 2 and run[i - 2][0] == "fstr":
                return o.str_norm(run[i - 2][1][1])
    return None

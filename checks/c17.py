"""C17: version-dependent encodings follow the file's custom versions both ways."""
from flow import (ALL_TYPES, Agg, Flow, Lin, Ref, Seq, Str, Sym, events, find_aggs, flatten, is_err, is_ok, murky, opaque,
                  variant, variant_name)
from spec import (EDITOR_OBJECT, INVARIANT_CULTURE_TEXT, LARGE_WORLD_COORDINATES, TEXT_ARGUMENT_64BIT, UE5_RELEASE,
                  guid_bytes)

READ = "encoding read is the one the versions ask for"
WRITE = "encoding written is the one the versions ask for"
REFUSE = "no allowed value is refused"
WIDTH = "width of the stored number"
FLAG = "invariant-culture flag stored exactly when the versions ask for it"
PASSED = "versions reach nested values"

INF = float("inf")
SPV = "struct_property::StructPropertyValue"
ARG = "text_property::FormatArgumentValue"
HIST = "text_property::FTextHistory"

# held representation -> (custom version, least, greatest, bytes per number)
ALLOWED = {}
for _n in ("Vector", "Vector2", "Rotator", "Quat"):
    ALLOWED[(SPV, _n + "F")] = (UE5_RELEASE, 0, LARGE_WORLD_COORDINATES - 1, 4)
    ALLOWED[(SPV, _n + "D")] = (UE5_RELEASE, LARGE_WORLD_COORDINATES, INF, 8)
for _n in ("Int", "UInt"):
    ALLOWED[(ARG, _n)] = (UE5_RELEASE, 0, TEXT_ARGUMENT_64BIT - 1, 4)
    ALLOWED[(ARG, _n + "64")] = (UE5_RELEASE, TEXT_ARGUMENT_64BIT, INF, 8)
ALLOWED[(HIST, "None")] = (EDITOR_OBJECT, INVARIANT_CULTURE_TEXT, INF, None)


def interval(layers, guid):
    """Possible effective versions under the facts of a path and of the loop alternatives around a value."""
    key = ("const",) + tuple(guid_bytes(guid))
    lo, hi = 0, INF
    for f in layers:
        for k, v in f["var"].items():
            if k[0] == "mget" and k[2] == key and versions_table(k[1]):
                if v == 0:
                    return 0, 0
        for k, v in f["rng"].items():
            if k[0] == "v" and isinstance(k[1], tuple) and k[1][0] == "mgetv" and k[1][2] == key and versions_table(k[1][1]):
                lo = max(lo, v[0] if v[0] is not None else 0)
                hi = min(hi, v[1] if v[1] is not None else INF)
        for k, v in f["sub"].items():
            if k[0] == "v" and isinstance(k[1], tuple) and k[1][0] == "mgetv" and k[1][2] == key and isinstance(v, int):
                lo, hi = max(lo, v), min(hi, v)
    return lo, hi


TABLE = [None]


def versions_table(ident):
    return TABLE[0] is None or ident == TABLE[0]


def layer(facts):
    return {"var": facts.var, "rng": facts.rng, "sub": facts.sub}


def delta(d):
    return {n: d.d.get(n, {}) for n in ("var", "rng", "sub")}


def values(db, x, layers, adts, out):
    """(adt, value, layers) for all values of interest inside a value, with the facts that hold around them."""
    if isinstance(x, Agg):
        name = (db.adt_name(x.ty) or "") if x.ty is not None else ""
        for a in adts:
            if name.endswith(a):
                out.append((a, x, layers))
        for y in x.f:
            values(db, y, layers, adts, out)
    elif isinstance(x, Seq):
        values(db, x.parts, layers, adts, out)
    elif isinstance(x, tuple):
        if x and x[0] in ("loop", "gloop") and len(x) > 2 and isinstance(x[2], tuple):
            for alt in x[2]:
                if isinstance(alt, tuple) and len(alt) >= 2 and hasattr(alt[1], "d"):
                    values(db, alt[2:], layers + [delta(alt[1])], adts, out)
            return
        for y in x:
            values(db, y, layers, adts, out)
    return out


def numbers(fields, layers):
    """(field, layers) of all consumed or emitted numbers."""
    for f in fields:
        if f[0] == "loop":
            for alt in f[2]:
                yield from numbers(alt[2], layers + [delta(alt[1])])
        elif f[0] in ("num", "flt"):
            yield f, layers


def judge_interval(fl, rule, where, what, o, layers, spec, verb):
    guid, lo, hi, _ = spec
    a, b = interval(layers, guid)
    if lo <= a and b <= hi:
        fl.rep.ok(rule, f"{what}: versions {a}..{b}")
        return True
    if a > b:
        return True  # contradictory: no such path
    if murky(o):
        fl.rep.unknown(rule, where, what, "path chosen by conditions not followed")
        return False
    fl.rep.violation(rule, where, what, f"{verb} for versions {a} to {b} of the deciding custom version, "
                     f"the format asks for it only from {lo} to {hi}")
    return False


def run(ctx, rep):
    fl = Flow(ctx, rep)
    db = ctx.db
    st = fl.E.fresh_options()
    TABLE[0] = None
    seen = set()
    table = field(fl, st, st.cells[("sym", ("options",))], "custom_versions", fl.E.options_fields)
    for hdr in (True, False):
        for name in ALL_TYPES:
            outs = fl.read_property(name, hdr)
            what = f"{name} {'with' if hdr else 'without'} header"
            TABLE[0] = table
            for o in outs or []:
                if is_ok(o):
                    read_values(fl, what, o, seen)
                passed(fl, what, o, table)
    for root in ("ftext_read", "fhistory_read"):
        for o in fl.try_run(root, root) or []:
            if is_ok(o):
                read_values(fl, root.replace("_", " "), o, seen)
                if root == "fhistory_read":
                    flag(fl, root.replace("_", " "), o, o.ret, o.cells[("in",)]["fields"])
            passed(fl, root.replace("_", " "), o, table)
    writers(fl, seen)
    for root in ("property_write", "property_write_body", "ftext_write", "fhistory_write", "farg_write"):
        for o in fl.try_run(root, root, {2: False} if root == "property_write" else {}) or []:
            passed(fl, root.replace("_", " "), o, table)
    TABLE[0] = None
    files(fl)
    rep.coverage["representations seen"] = sorted("/".join(x) for x in seen)
    if not fl.aborted:
        rep.floor("version-dependent representations, read and written", len(seen), 2 * len(ALLOWED))
        rep.floor("nested values", rep.rules.get(PASSED, [0])[0], 20)
    fl.coverage()
    return ("Every accepting path of reading structs, texts and format arguments, alone and in arrays: the interval of "
            "the deciding custom version's value (absent counts as zero) allowed by the path's facts must lie within the "
            "range the format asks for. Every in-memory representation is written under an arbitrary version table: "
            "success only within its range, refusal only outside. Nested values must be read and written with the same "
            "version table, at file level the one in the file's own header.")


def field(fl, st, v, name, names):
    return fl.E.content(fl.ip, st, fl.ip.proj(st, v, ("f", getattr(v, "var", 0) or 0, names.index(name))))


def read_values(fl, what, o, seen):
    layers = [layer(o.facts)]
    out = values(fl.ctx.db, o.ret, layers, {a for a, _ in ALLOWED}, [])
    for a, v, ls in out:
        if v.var is None:
            continue
        n = variant_name(fl.ctx, a, v.var)
        spec = ALLOWED.get((a, n))
        if spec is None:
            continue
        seen.add(("read", n))
        judge_interval(fl, READ, place(fl, o, "in"), f"{what}: {n}", o, ls, spec, f"{n} is read")


def place(fl, o, side):
    """Where the version-dependent numbers are transferred."""
    fs = [f for f, _ in numbers(o.cells[(side,)]["fields"], [])]
    return fl.locate(*[f for f in fs if f[0] == "flt"][-1:] or fs[-1:])


def flag(fl, what, o, v, fields):
    """The flag follows the code of an absent history exactly when the versions ask for it."""
    h = find_aggs(fl.ctx.db, v, HIST)
    if len(h) != 1 or h[0].var is None or variant_name(fl.ctx, HIST, h[0].var) not in ("None", "Empty"):
        return
    n = variant_name(fl.ctx, HIST, h[0].var)
    a, b = interval([layer(o.facts)], EDITOR_OBJECT)
    fs = flatten(o, fields)
    has = len(fs) > 1 and fs[1][0] == "num" and fs[1][1] == 4
    if a > b:
        return
    if a >= INVARIANT_CULTURE_TEXT and has or b < INVARIANT_CULTURE_TEXT and not has:
        fl.rep.ok(FLAG, f"{what}: {n}, versions {a}..{b}, {'with' if has else 'without'} flag")
    elif murky(o) or opaque(fields):
        fl.rep.unknown(FLAG, "?", f"{what}: {n}", "path chosen by conditions not followed")
    else:
        fl.rep.violation(FLAG, fl.locate(*fs[:2]), f"{what}: {n}", f"{'with' if has else 'without'} the flag for versions {a} to {b}")


def adt_type(fl, adt):
    for i, t in fl.ctx.db.types.items():
        if t["k"] == "adt" and t["name"].endswith(adt):
            return i
    return None


def held(fl, st, adt, n, tag):
    """An arbitrary value of one variant."""
    ty = adt_type(fl, adt)
    i = variant(fl.ctx, adt, n)
    ts = fl.ip.field_types(ty, i)
    return Agg(ty, i, tuple(fl.ip.mk(st, ("held", tag, n, j), t) for j, t in enumerate(ts)))


def wrap(fl, st, v, into):
    """A property holding a struct value: as raw value, as record, or as the only element of an array."""
    ty = adt_type(fl, "gvas::properties::Property")
    i = variant(fl.ctx, "properties::Property", into)
    t, = fl.ip.field_types(ty, i)
    if into == "StructPropertyValue":
        return Agg(ty, i, (v,))
    var = 0 if into == "StructProperty" else variant(fl.ctx, "array_property::ArrayProperty", "Structs")
    fs = []
    for j, ft in enumerate(fl.ip.field_types(t, var)):
        txt = fl.ctx.db.types[ft]["text"]
        if txt.endswith("StructPropertyValue"):
            fs.append(v)
        elif "StructPropertyValue>" in txt:
            fs.append(Seq((("one", v),)))
        else:
            fs.append(fl.ip.mk(st, ("held", into, j), ft))
    return Agg(ty, i, (Agg(t, var, tuple(fs)),))


def writers(fl, seen):
    for (adt, n), spec in ALLOWED.items():
        cases = []
        if adt == SPV:
            cases = [(into, "property_write_body") for into in ("StructPropertyValue", "StructProperty", "ArrayProperty")]
        elif adt == ARG:
            cases = [(None, "farg_write")]
        elif adt == HIST:
            cases = [(None, "fhistory_write")]
        for into, root in cases:
            st = fl.E.fresh_state()
            v = held(fl, st, adt, n, into or root)
            if into is not None:
                v = wrap(fl, st, v, into)
            st.cells[("val",)] = v
            what = f"{n} in {into}" if into else n
            outs = fl.try_run(f"write {what}", root, {0: Ref(("val",))}, st=st)
            for w in outs or []:
                written(fl, what, n, w, spec, seen)
                if adt == HIST and is_ok(w):
                    flag(fl, f"write {what}", w, v, w.cells[("out",)]["fields"])
    st = fl.E.fresh_state()
    v = held(fl, st, HIST, "Empty", "fhistory_write")
    st.cells[("val",)] = v
    for w in fl.try_run("write Empty", "fhistory_write", {0: Ref(("val",))}, st=st) or []:
        if is_ok(w):
            flag(fl, "write Empty", w, v, w.cells[("out",)]["fields"])
        elif not murky(w):
            fl.rep.violation(REFUSE, "?", "Empty", "an empty text is refused")


def written(fl, what, n, w, spec, seen):
    layers = [layer(w.facts)]
    guid, lo, hi, width = spec
    a, b = interval(layers, guid)
    if is_ok(w):
        seen.add(("written", n))
        judge_interval(fl, WRITE, place(fl, w, "out"), what, w, layers, spec, f"{n} is written")
        if width:
            fs = [f for f, _ in numbers(w.cells[("out",)]["fields"], [])
                  if f[0] == "flt" or f[0] == "num" and f[1] > 1 and opaque_free(f[2]) and mentions(f[2], "held")]
            bad = [f for f in fs if f[1] != width]
            if bad:
                fl.rep.violation(WIDTH, fl.locate(*bad[:1]), what, f"{n} is written with {bad[0][1]} bytes per number")
            elif fs:
                fl.rep.ok(WIDTH, f"{what}: {width} bytes per number")
        return
    if not is_err(w):
        fl.rep.unknown(REFUSE, "?", what, f"{w.ret!r}"[:200])
        return
    if b < lo or a > hi or a > b:
        fl.rep.ok(REFUSE, f"{what}: refused for versions {a}..{b}")
    elif what.endswith("Property") or murky(w) or other_reason(w):
        pass  # strings of the record itself may be refused
    else:
        fl.rep.violation(REFUSE, "; ".join(str(x) for x in w.notes[-1:]) or "?", what,
                         f"{n} is refused for versions {a} to {b}, the format allows it from {lo} to {hi}")


def other_reason(w):
    """Is the refusal due to the value itself, not to the versions?"""
    return any(mentions(k, "held") for k in list(w.facts.bt) + list(w.facts.ge0) + list(w.facts.rng))


def opaque_free(x):
    return not opaque(x)


def mentions(x, tag):
    if isinstance(x, Lin):
        return any(mentions(a, tag) for a in x.t)
    if isinstance(x, Sym):
        return mentions(x.key, tag)
    if isinstance(x, Str):
        return mentions(x.t, tag)
    if isinstance(x, tuple):
        return any(y == tag if isinstance(y, str) else mentions(y, tag) for y in x)
    if isinstance(x, Agg):
        return any(mentions(y, tag) for y in x.f)
    return False


def passed(fl, what, o, table):
    for e in events(o, "nested", "nested write"):
        opts = e[-1]
        if opts is None:
            fl.rep.unknown(PASSED, "?", what, "no options at a nested value")
            continue
        same(fl, what, o, dict(opts)["custom_versions"], table)


def same(fl, what, o, got, want):
    if got == want:
        fl.rep.ok(PASSED, what)
    elif got[:1] == ("lost",) or want[:1] == ("lost",) or opaque(got) or murky(o):
        fl.rep.unknown(PASSED, "?", what, f"{got!r}"[:200])
    else:
        fl.rep.violation(PASSED, "?", what, f"nested values get another version table: {got!r} instead of {want!r}"[:400])


def header_versions(fl, st, file):
    """The version table in the header of a file."""
    adts = {a["name"]: a for a in fl.ctx.items["adts"]}
    i = [f["n"] for f in adts["GvasFile"]["vars"][0]["f"]].index("header")
    h = fl.ip.proj(st, file, ("f", 0, i))
    var = h.var if isinstance(h, Agg) else st.facts.var.get(h.key) if isinstance(h, Sym) else None
    if var is None and isinstance(h, Sym):
        left = [i for i in range(len(adts["GvasHeader"]["vars"])) if i not in st.facts.nvar.get(h.key, ())]
        left = [k[2].index(v) for k, v in st.facts.sub.items() if k[0] == "disc" and k[1] == h.key and v in k[2]] or left
        var = left[0] if len(left) == 1 else None
    if var is None:
        return None
    j = [f["n"] for f in adts["GvasHeader"]["vars"][var]["f"]].index("custom_versions")
    return fl.E.content(fl.ip, st, fl.ip.proj(st, h, ("f", var, j)))


def files(fl):
    from models import deref
    rep = fl.rep
    for root in ("file_read", "file_read_with_hints"):
        for o in fl.try_run(root, root) or []:
            if not is_ok(o):
                continue
            want = header_versions(fl, o, o.ret.f[0])
            for e in events(o, "nested"):
                same(fl, root.replace("_", " "), o, dict(e[-1] or ())["custom_versions"], want or ("lost",))
    for w in fl.try_run("file_write", "file_write") or []:
        es = list(events(w, "nested write"))
        if not es or not is_ok(w):
            continue
        b = fl.ctx.db.body(fl.ctx.db.root["file_write"])
        v = deref(fl.ip, w, fl.ip.mk(w, ("arg", "file_write", 0), b.locals[1]))
        want = header_versions(fl, w, v)
        for e in es:
            same(fl, "file write", w, dict(e[-1] or ())["custom_versions"], want or ("lost",))

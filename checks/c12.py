"""C12: memory reserved up front is bounded, not dictated by counts in the input."""
from flow import ALL_TYPES, Agg, Flow, Lin, Ref, Seq, Str, T, events, is_ok, murky, opaque, size, sub, atom

RESERVE = "reservation is bounded"
PROGRESS = "every stored element consumes input"
LEAST = "a value without header consumes input"

LIMIT = 16 << 20  # bytes a single reservation may take without data being held
READERS = ["ftext_read", "fhistory_read", "numfmt_read", "header_read", "file_read", "file_read_with_hints"]
PRIMITIVES = ["read_string", "read_fstring", "read_guid", "guid_parse"]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    counts = {"reservations": 0, "loops": 0, "paths": 0}
    for hdr in (True, False):
        outs = fl.try_run("record", "property_new", {1: Str(T), 2: hdr})
        look(fl, "record" + (" with header" if hdr else ""), outs, counts)
        if not hdr:
            least(fl, outs)
    for r in READERS:
        outs = fl.try_run(r, r)
        look(fl, r.replace("_", " "), outs, counts)
        if r == "ftext_read":
            least(fl, outs)
    fl.ip.cut = False
    for r in PRIMITIVES:
        look(fl, r.replace("_", " "), fl.try_run(r, r), counts)
    rep.coverage["instances"] = counts
    if not fl.aborted:
        rep.floor("parser paths", counts["paths"], 700)
        rep.floor("loops storing elements", counts["loops"], 60)
        rep.floor("reservations (the string buffers)", counts["reservations"], 2)
    fl.coverage()
    return (f"Every reservation (with_capacity, reserve, resize, filled vectors, collecting a range) on every reader path, failing "
            f"ones included: its size under the path's facts is at most {LIMIT} bytes, or a length of data already held. "
            "Every loop that stores elements consumes at least one byte per stored element, so that the stored amount "
            "is bounded by the input.")


def held_only(n):
    """Is an amount made of lengths of data already held?"""
    if isinstance(n, int):
        return True
    return isinstance(n, Lin) and all(isinstance(a, tuple) and a[0] in ("len", "blen", "nread", "n", "strsz") for a in n.t)


def look(fl, what, outs, counts):
    rep = fl.rep
    for o in outs or []:
        counts["paths"] += 1
        for _, loc, fn, n, esz, rng, before in events(o, "alloc"):
            counts["reservations"] += 1
            hi = rng[1]
            if hi is not None and hi * esz <= LIMIT:
                rep.ok(RESERVE, f"{what}: at most {hi * esz} bytes at {loc}")
            elif held_only(n) and not counted(o, n) or any(holds(o, f, n) for f in before):
                rep.ok(RESERVE, f"{what}: as much as is held at {loc}")
            elif opaque(n) or not isinstance(n, (int, Lin)):
                rep.unknown(RESERVE, f"{loc} in {fn}", fn, f"{n!r}"[:200])
            else:
                size_ = f"up to {hi} elements of {esz} bytes" if hi is not None else "an unlimited number of elements"
                rep.violation(RESERVE, f"{loc} in {fn}", fn, f"{what}: room for {size_} is reserved, as dictated by the input ({n!r})"[:300])
        if is_ok(o):
            progress(fl, what, o, counts)


def holds(o, loop, n):
    """Has a loop that is over consumed at least as many elements, each of them some bytes?"""
    if not isinstance(n, (int, Lin)) or opaque(n):
        return False
    more = o.rng(o.norm(sub(atom(("n", loop[1])), n)))[0]
    return more is not None and more >= 0 and all((smallest(o, fs) or 0) >= 1 or any(f[0] == "nt" for f in fs) for _, _, fs in loop[2])


def counted(o, n):
    """Does an amount contain the number of iterations of a loop that is still to come?"""
    return isinstance(n, Lin) and any(isinstance(a, tuple) and a[0] == "n" for a in n.t)


def loops(x, out, st, seen):
    """Loops that store elements in a value."""
    if isinstance(x, Agg):
        for y in x.f:
            loops(y, out, st, seen)
    elif isinstance(x, Seq):
        loops(x.parts, out, st, seen)
    elif isinstance(x, Ref):
        if x.cell not in seen:
            seen.add(x.cell)
            loops(st.cells.get(x.cell), out, st, seen)
    elif isinstance(x, tuple) and x[:1] != ("edited",):
        if len(x) >= 3 and x[0] in ("loop", "gloop") and isinstance(x[1], tuple):
            out.setdefault(x[1], set()).update(alt[0] for alt in x[2] if isinstance(alt, tuple) and len(alt) > 2 and alt[2])
        for y in x:
            loops(y, out, st, seen)
    return out


def consumed(fields, out):
    for f in fields:
        if f[0] == "loop":
            for alt in f[2]:
                out.setdefault(f[1], {}).setdefault(alt[0], []).append(alt[2])
                consumed(alt[2], out)
    return out


def smallest(o, fs):
    try:
        n = size(fs)
    except KeyError:
        return None
    n = o.norm(n) if isinstance(n, Lin) else n
    return n if isinstance(n, int) else o.rng(n)[0]


def progress(fl, what, o, counts):
    rep = fl.rep
    stored = loops(o.ret, {}, o, set())
    read = {}
    for c, v in o.cells.items():
        if c[0] in ("in", "stream"):
            consumed(v["fields"], read)
    for L, alts in stored.items():
        counts["loops"] += 1
        for i in alts or {0}:
            fss = read.get(L, {}).get(i)
            if fss is None:
                if opaque(o.ret) or murky(o):
                    rep.unknown(PROGRESS, "?", what, "loop not followed")
                else:
                    rep.violation(PROGRESS, "?", what, f"{what}: elements are stored in a loop that consumes no input")
                continue
            for fs in fss:
                m = smallest(o, fs)
                if m is not None and m >= 1 or any(f[0] == "nt" for f in fs):
                    rep.ok(PROGRESS, f"{what}: " + (f"at least {m} bytes" if m else "a nested value") + " per element")
                elif murky(o) or m is None:
                    rep.unknown(PROGRESS, fl.locate(*fs), what, "amount not known")
                else:
                    rep.violation(PROGRESS, fl.locate(*fs), what, f"{what}: an element can be stored without consuming input")


def least(fl, outs):
    """Values without header are the elements of containers: each takes at least one byte."""
    rep = fl.rep
    for o in outs or []:
        if not is_ok(o):
            continue
        t = o.str_norm(T)
        what = t if isinstance(t, str) else "text or other type"
        m = smallest(o, o.cells[("in",)]["fields"])
        if m is not None and m >= 1:
            rep.ok(LEAST, f"{what}: at least {m} bytes")
        elif any(f[0] == "nt" for f in o.cells[("in",)]["fields"]):
            rep.ok(LEAST, f"{what}: a nested value")  # which takes a byte, by induction over the nesting depth
        elif m is None or murky(o):
            rep.unknown(LEAST, "?", what, "amount not known")
        else:
            rep.violation(LEAST, fl.locate(*o.cells[("in",)]["fields"]), what, f"a value of {what} without header can take no bytes at all")

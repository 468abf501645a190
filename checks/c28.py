"""C28: reading and writing take place where the stream stands and leave it right behind."""
from flow import ALL_TYPES, Flow, atom, events, is_ok, murky, opaque, runs_of, sub

BEHIND = "stream left right behind what was read"
END = "stream left right behind what was written"
PLACE = "only places reached from the starting point are used"
FREE = "the outcome does not depend on the starting point"
READERS = [("ftext_read", {}), ("fhistory_read", {}), ("numfmt_read", {}), ("header_read", {})]
PRIMITIVES = ["read_string", "read_fstring", "read_guid", "read_bool", "read_b32"]
WRITERS = [
    ("property_write", {2: True}, "record with header"), ("property_write", {2: False}, "record without header"),
    ("property_write_body", {}, "record body"), ("ftext_write", {}, "text"), ("fhistory_write", {}, "text history"),
    ("farg_write", {}, "format argument"), ("numfmt_write", {}, "number format"), ("header_write", {}, "file header"),
    ("file_write", {}, "file"),
]
STRINGS = [("write_string", {}, "string"), ("write_fstring", {}, "optional string")]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n = {"read": 0, "written": 0}
    for hdr in (True, False):
        for name in ALL_TYPES + [None]:
            what = f"{name or 'other type'} {'with' if hdr else 'without'} header"
            reads(fl, what, "property_new", fl.read_property(name, hdr), n)
    for root, given in READERS:
        reads(fl, root.replace("_", " "), root, fl.try_run(root, root, given), n)
    reads(fl, "file", "file_read", fl.try_run("file_read", "file_read"), n, whole=True)
    for root, given, what in WRITERS:
        writes(fl, what, root, fl.try_run(what, root, given), n)
    fl.ip.cut = False
    for root in PRIMITIVES:
        reads(fl, root.replace("_", " "), root, fl.try_run(root, root), n)
    for root, given, what in STRINGS:
        writes(fl, what, root, fl.try_run(what, root, given), n)
    rep.coverage["successful paths"] = n
    if not fl.aborted:
        rep.floor("reading paths", n["read"], 300)
        rep.floor("writing paths", n["written"], 150)
    fl.coverage()
    return ("Every successful path of every reader and writer, the stream standing at an arbitrary position: jumps are followed by "
            "the fields they cross; a jump to a place that is not a field boundary reached from the start, a buffer that takes more "
            "from the stream than is used, a look ahead that is not consumed, an end in the middle of what was written, and any "
            "condition or value that depends on the starting position is reported.")


def reads(fl, what, root, outs, n, whole=False):
    for o in outs or []:
        if not is_ok(o):
            continue
        n["read"] += 1
        s = o.cells[("in",)]
        bad = common(fl, what, root, o, s, ("in",))
        if whole or bad:
            continue
        ahead = [e for e in events(o, "read ahead") if e[1] == ("in",)]
        rest = [f for r in runs_of(s["fields"]) for f in r if f[0] == "bytes" and isinstance(f[2], tuple) and f[2][:1] == ("rest",)]
        if ahead:
            fl.rep.violation(BEHIND, f"{ahead[0][2]} in {ahead[0][3]}", f"{what}: buffer", f"{what}: a buffer takes more from the stream "
                             "than is read through it, so what follows is lost to the caller")
        elif rest:
            fl.rep.violation(BEHIND, fl.locate(rest[0]), f"{what}: rest", f"{what}: everything behind it is read as well")
        elif s.get("again"):
            fl.rep.violation(BEHIND, fl.locate(*s["again"][:1]), f"{what}: look ahead", f"{what}: bytes behind it are looked at, which fails "
                             "where nothing follows")
        else:
            fl.rep.ok(BEHIND, f"{what}: {len(s['fields'])} fields")


def writes(fl, what, root, outs, n):
    for o in outs or []:
        if not is_ok(o):
            continue
        n["written"] += 1
        s = o.cells[("out",)]
        if common(fl, what, root, o, s, ("out",)):
            continue
        if s.get("at") is not None:
            fl.rep.violation(END, fl.locate(s["fields"][s["at"]]), f"{what}: end", f"{what}: the stream is left in the middle of what was "
                             "written, where the next write overwrites it")
        elif list(events(o, "overwritten output")):
            fl.rep.unknown(END, fl.where(root), what, "output overwritten with something of another size")
        else:
            fl.rep.ok(END, f"{what}: {len(s['fields'])} fields")


def common(fl, what, root, o, s, cell):
    """Rules for both directions; was something reported?"""
    rep, bad = fl.rep, False
    start = ("pos0", cell[0])
    jumps = [e[2:] for e in events(o, "elsewhere") if e[1] == cell] + ([s["away"]] if s.get("away") else [])
    for loc, fn, to, last in jumps:
        bad = True
        why = misplaced(o, to, last, start)
        if why is None or murky(o):
            rep.unknown(PLACE, f"{loc} in {fn}", what, "jump to a place not followed")
        else:
            rep.violation(PLACE, f"{loc} in {fn}", f"{fn}: jump", f"{what}: the stream is set to {why}")
    for e in events(o, "moved"):
        if e[1] == cell:
            rep.ok(PLACE, f"{what}: jump at {e[2]}")
    if any(f[0] in ("lost", "seek", "phi") for r in runs_of(s["fields"]) for f in r) and not bad:
        bad = True
        rep.unknown(BEHIND if cell == ("in",) else END, fl.where(root), what, "stream not followed")
    hit = next((k for m in o.facts.NAMES for k, v in getattr(o.facts, m).items() if mentions(k, start) or mentions(v, start)), None)
    if hit is None and mentions((o.ret, s["fields"]), start):
        hit = "the result"
    if hit is not None:
        if murky(o) or opaque(hit):
            rep.unknown(FREE, fl.where(root), what, f"{hit!r}"[:200])
        else:
            rep.violation(FREE, fl.where(root), f"{what}: position", f"{what}: succeeds depending on the position in the stream: {hit!r}"[:300])
    else:
        rep.ok(FREE, what)
    return bad


def misplaced(o, to, last, start):
    """What is wrong with a place, if that is certain."""
    if to == "End":
        return "its end, whatever follows"
    if to is None or opaque(to):
        return None
    to = o.norm(to)
    if not mentions(to, start):
        return f"{to!r}, whatever the place it stood at"
    if last is None or opaque(last):
        return None
    past = o.norm(sub(to, last))
    before = o.norm(sub(to, atom(start)))
    if o.rng(past)[0] is not None and o.rng(past)[0] > 0:
        return f"a place {past!r} bytes behind the last one"
    if o.rng(before)[1] is not None and o.rng(before)[1] < 0:
        return f"a place {before!r} bytes before the start"
    return None


def mentions(x, a, depth=0):
    if isinstance(x, tuple):
        return x == a or any(mentions(y, a, depth + 1) for y in x)
    t = getattr(x, "t", None)
    if isinstance(t, dict):
        return any(mentions(y, a, depth + 1) for y in t)
    for n in ("f", "parts", "key"):
        v = getattr(x, n, None)
        if isinstance(v, tuple) and mentions(v, a, depth + 1):
            return True
    return False

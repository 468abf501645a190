"""C13: no I/O or format failure is swallowed."""
from flow import Flow, Lin, Str, T, events, is_err, is_ok, murky, opaque, sub

REPORTED = "failure of a step is a failure of the operation"
COMPLETE = "transfers are complete"
FINISHED = "compression is finished with its errors seen"

READERS = ["ftext_read", "fhistory_read", "numfmt_read", "header_read", "file_read", "file_read_with_hints"]
WRITERS = ["ftext_write", "fhistory_write", "farg_write", "numfmt_write", "header_write", "file_write", "property_write_body"]
PRIMITIVES = ["read_string", "read_fstring", "read_guid", "read_bool", "read_b32", "write_string", "write_string_owned",
              "write_fstring", "write_guid", "write_bool", "write_b32"] + [
    f"{v}_enum_{e}" for v in ("read", "write") for e in ("history", "argument", "rounding", "datestyle", "transform", "compression")]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    sites = {}
    for hdr in (True, False):
        h = " with header" if hdr else ""
        analyse(fl, "record read" + h, "property_new", {1: Str(T), 2: hdr}, sites)
        analyse(fl, "record written" + h, "property_write", {2: hdr}, sites)
    for r in READERS + WRITERS:
        analyse(fl, r.replace("_", " "), r, {}, sites)
    fl.ip.cut = False
    for r in PRIMITIVES:
        analyse(fl, r.replace("_", " "), r, {}, sites)
    rep.coverage["fallible steps"] = len(sites)
    rep.coverage["fallible steps by operation"] = count(s[0] for s in sites)
    if not fl.aborted:
        rep.floor("fallible steps", len(sites), 300)
        rep.floor("failing paths", rep.rules[REPORTED][0], 2500)
        rep.floor("finished compressions", rep.rules[FINISHED][0], 2)
    fl.coverage()
    return ("Every path of every reader and writer, with each primitive step (read, write, seek, position, compression) "
            "failing once at each place it occurs: the operation must return an error. On successful paths every "
            "partial-transfer call must be known to have transferred everything, a read limited in length must be known "
            "to have reached it, and every compression stream must have been finished explicitly.")


def count(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return dict(sorted(out.items()))


def analyse(fl, what, root, given, sites):
    rep, ip = fl.rep, fl.ip
    ip.fail = True
    outs = fl.try_run(what, root, given)
    ip.fail = False
    for o in outs or []:
        if o.failed is not None:
            op, loc, fn = o.failed
            sites[o.failed] = 1
            if is_err(o):
                rep.ok(REPORTED, f"{what}: {op} at {loc}")
            elif murky(o) or not is_ok(o) and opaque(o.ret) or retried(o):
                rep.unknown(REPORTED, f"{loc} in {fn}", f"{fn}: {op}", "outcome not followed")
            else:
                rep.violation(REPORTED, f"{loc} in {fn}", f"{fn}: {op}", f"{what}: success is returned although {op} failed at {loc}")
        elif is_ok(o):
            transfers(fl, what, o)


INTERRUPTED = 35  # position in std::io::ErrorKind


def retried(o):
    """Was the failure one that asks for the step to be tried again?"""
    return any(k[0] == "ekind" and v == INTERRUPTED for k, v in o.facts.var.items() if isinstance(k, tuple) and k)


def transfers(fl, what, o):
    rep = fl.rep
    for e in events(o, "short write", "short read", "limited read"):
        kind, n, want, loc, fn = e
        if want is not None and isinstance(o.norm(sub(want, n)), int) or known(o, n):
            rep.ok(COMPLETE, f"{what}: {kind} at {loc}")
        elif murky(o) or opaque(want) or used(o, n):
            rep.unknown(COMPLETE, f"{loc} in {fn}", f"{fn}: {kind}", "amount not known")
        else:
            rep.violation(COMPLETE, f"{loc} in {fn}", f"{fn}: {kind}", f"{what}: success is returned although fewer bytes than "
                          "asked for may have been transferred")
    for e in events(o, "unfinished encoder"):
        rep.violation(FINISHED, f"{e[1]} in {e[2]}", e[2], f"{what}: success is returned although a compression stream was only "
                      "finished by dropping it, which ignores errors")
    last = {}
    for e in events(o, "buffered", "flushed"):
        last[e[1]] = e
    for e in last.values():
        if e[0] == "flushed":
            rep.ok(FINISHED, f"{what}: buffer flushed")
        else:
            rep.violation(FINISHED, f"{e[2]} in {e[3]}", f"{e[3]}: buffer", f"{what}: success is returned although buffered data is only "
                          "written by dropping the buffer, which ignores errors")
    for e in events(o, "finished encoder"):
        rep.ok(FINISHED, f"{what}: finished at {e[1]}")
    for e in events(o, "write after finish"):
        rep.violation(FINISHED, "?", what, f"{what}: data is written to a finished compression stream")


def atom_of(n):
    return next(iter(n.t)) if isinstance(n, Lin) and len(n.t) == 1 else None


def known(o, n):
    """Was the amount compared with an expected one, and found equal?"""
    a = atom_of(n)
    return a is not None and not has(o.norm(n), a)


def used(o, n):
    """Do conditions of the path depend on the amount?"""
    a = atom_of(n)
    return a is None or any(has(k, a) for d in (o.facts.ne, o.facts.bt) for k in d)


def has(x, a):
    if x == a:
        return True
    if isinstance(x, Lin):
        return any(has(y, a) for y in x.t)
    if isinstance(x, tuple):
        return any(has(y, a) for y in x)
    return False

"""C05: file header and property list are rewritten exactly as they were read."""
import prims
from flow import Flow, compare, flatten, is_ok, judge, round_trip, brief

PLAIN = 0  # the first variant of GameVersion: no container


def stream_fields(o):
    """Fields consumed from the buffer that holds the plain file."""
    fs = o.cells[("in",)]["fields"]
    inner = [v for c, v in o.cells.items() if c[0] == "stream"]
    if inner:
        return inner[-1]["fields"] if len(inner) == 1 else None
    return fs


def plain_paths(fl, outs):
    """Accepted paths of reading a file that is not in a container: all bytes go to one buffer."""
    for o in outs or []:
        if is_ok(o):
            fs = o.cells[("in",)]["fields"]
            if not [f for f in fs if f[0] == "zrest"] and len(fs) == 1 or not [c for c in o.cells if c[0] == "stream"]:
                yield o


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["guid"])
    outs = fl.try_run("header", "header_read")
    n = round_trip(fl, "file header", outs, "header_write", {}, ())
    rep.floor("accepted paths of the header", n, 2)
    outs = fl.try_run("file", "file_read")
    k = 0
    for o in plain_paths(fl, outs):
        want = stream_fields(o)
        if want is None:
            rep.unknown("file rewritten as read", "?", "plain file", "more than one buffer")
            continue
        k += 1
        # the list ends at the terminating name; anything behind it is not part of the list
        rule = "list ends at the terminating name"
        last = flatten(o, want)[-1] if want else None
        if last is not None and last[0] == "fstr" and o.str_norm(last[1][1]) == "None":
            rep.ok(rule, brief(last))
        else:
            rep.violation(rule, fl.locate(last) if last else "?", "reading", f"reading ends with {brief(last)} instead of the terminating name")
        ws = fl.write_back(o, "file_write", {})
        for w in ws or []:
            judge(fl, "plain file", o, w, want + (("num", 4, 0, "le"),), "file rewritten as read")
    if outs is not None:
        rep.floor("accepted paths of plain files", k, 2)
    fl.coverage()
    return ("Every accepting path of reading a header (both versions) and a whole plain file with an arbitrary list of "
            "properties; the properties themselves are induction hypotheses (C01-C04). The writer is followed on the "
            "result: header fields, custom version table, named properties in order, terminating name, then four zero "
            "bytes of padding.")

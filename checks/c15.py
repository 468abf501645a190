"""C15: only supported header versions are accepted, and all of them are."""
from c05 import stream_fields
from flow import Flow, Lin, brief, flatten, is_ok, murky, opaque, sub

MAGIC = 0x53415647  # "GVAS" in little-endian order
PACKAGE = range(0x205, 0x20D + 1)
UE5 = range(1000, 1009 + 1)
FORMAT = 3
COMBINATIONS = [(2, p, None) for p in PACKAGE] + [(3, p, u) for p in PACKAGE for u in UE5]
# the words up to the custom version format, for both header versions: widths, None for the ten
# bytes of the engine version, "s" for a string
LAYOUT = {2: [4, 4, 4, None, "s", 4], 3: [4, 4, 4, 4, None, "s", 4]}


def words(o, fs, layout):
    """Regroup consumed fields as the words of a layout; what is missing at the end was not read yet. None: no match"""
    out, i = [], 0
    for w in layout:
        if i >= len(fs):
            break
        if w == "s":
            if fs[i][0] != "fstr":
                return None
            out.append(fs[i])
            i += 1
            continue
        n, vals = 0, []
        while i < len(fs) and n < (w or 10):
            if fs[i][0] not in ("num", "bytes") or not isinstance(fs[i][1], int):
                return None
            n += fs[i][1]
            vals.append(fs[i])
            i += 1
        if n != (w or 10) and (i < len(fs) or n > (w or 10)):
            return None
        if w is None:
            out.append(("skip", 10))
        elif len(vals) == 1 and vals[0][0] == "num":
            out.append(vals[0])
        elif all(f[0] == "num" and isinstance(o.norm(f[2]), int) for f in vals):
            x, at = 0, 0
            for f in vals:
                x |= (o.norm(f[2]) & (1 << 8 * f[1]) - 1) << at
                at += 8 * f[1]
            out.append(("num", n, x, "le"))
        else:
            out.append(("part", vals))
    return out, len(fs) - i


def consistent(o, fs, combo):
    """Can a path be taken by a header with these versions? (words not yet read do not matter)"""
    v, p, u = combo
    g = words(o, fs, LAYOUT[v])
    if g is None:
        return False
    want = [MAGIC, v, p] + ([u] if v == 3 else []) + [None, None, FORMAT]
    s = o.clone()
    for f, x in zip(g[0], want):
        if x is not None and f[0] == "num" and not s.assume(("eq0", sub(f[2], x)), True):
            return False
    return True


def accepted(fl, what, o, fs, taken):
    rep = fl.rep
    rule = "accepted headers are supported"
    where = fl.locate(*fs[:4])
    head = words(o, fs, [4, 4])
    if opaque(tuple(fs[:10])) or murky(o) or head is None or any(f[0] != "num" for f in head[0]) or len(head[0]) < 2:
        rep.unknown(rule, where, what, "conditions not followed: " + ", ".join(brief(f) for f in fs[:4]))
        return
    v = o.rng(head[0][1][2])
    if v[0] != v[1] or v[0] not in LAYOUT:
        rep.violation(rule, where, f"{what}: save-game version", f"save-game versions {v} are accepted on one path")
        return
    n = len(LAYOUT[v[0]])
    g = words(o, fs, LAYOUT[v[0]])
    if g is None or len(g[0]) < n or any(f[0] == "part" for f in g[0]):
        rep.unknown(rule, where, f"{what}: layout", ", ".join(brief(f) for f in fs[:10]))
        return
    bounds = [("magic number", 0, MAGIC, MAGIC), ("package version", 2, PACKAGE[0], PACKAGE[-1])]
    if v[0] == 3:
        bounds.append(("engine 5 package version", 3, UE5[0], UE5[-1]))
    bounds.append(("custom version format", n - 1, FORMAT, FORMAT))
    for name, i, lo, hi in bounds:
        a, b = o.rng(g[0][i][2])
        if a is not None and b is not None and lo <= a and b <= hi:
            rep.ok(rule, f"{what}, version {v[0]}: {name} {a:#x}..{b:#x}")
        else:
            rep.violation(rule, fl.locate(g[0][i]), f"{what}, version {v[0]}: {name}",
                          f"{name} from {a} to {b} is accepted, supported are {lo} to {hi}")
    for c in COMBINATIONS:
        if c not in taken and consistent(o, fs, c):
            taken.add(c)


def too_short(o):
    """Does the path depend on how much data is left in the stream?"""
    def left(x):
        if isinstance(x, tuple):
            return x[:1] == ("left",) or any(left(y) for y in x)
        return isinstance(x, Lin) and any(left(a) for a in x.t)
    return any(left(k) for n in o.facts.NAMES for k in getattr(o.facts, n))


def rejected(fl, o, fs):
    rep = fl.rep
    rule = "supported headers are accepted"
    for c in COMBINATIONS:
        g = words(o, fs, LAYOUT[c[0]])
        if g is None or g[1] > 1:
            continue  # past the versions: the custom version table or a name
        if consistent(o, fs, c):
            where = fl.locate(*fs[-2:])
            if opaque(tuple(fs)) or murky(o) or too_short(o) or any(f[0] == "part" for f in g[0]):
                rep.unknown(rule, where, "rejection", "conditions not followed")
            else:
                rep.violation(rule, where, f"rejection after {len(fs)} fields",
                              f"a header with save-game version {c[0]}, package version {c[1]:#x}, engine 5 version {c[2]} "
                              f"can be rejected: {o.ret!r}"[:400])
            return
    rep.ok(rule, f"rejection after {len(fs)} fields: " + ", ".join(brief(f) for f in fs[-2:]))


def run(ctx, rep):
    fl = Flow(ctx, rep)
    taken = set()
    outs = fl.try_run("header", "header_read")
    n = bad = 0
    for o in outs or []:
        fs = flatten(o, o.cells[("in",)]["fields"])
        if is_ok(o):
            n += 1
            accepted(fl, "header", o, fs, taken)
        else:
            bad += 1
            rejected(fl, o, fs)
    if outs is not None:
        rep.floor("accepting paths of the header", n, 2)
        rep.floor("rejecting paths of the header", bad, 5)
        for c in COMBINATIONS:
            if c in taken:
                rep.ok("every supported combination is accepted", f"version {c[0]}, package {c[1]:#x}, engine 5 {c[2]}")
            elif not rep.undecided:
                rep.violation("every supported combination is accepted", "src/lib.rs", f"{c}",
                              f"save-game version {c[0]} with package version {c[1]:#x} and engine 5 version {c[2]} is never accepted")
    k = 0
    for root in ("file_read", "file_read_with_hints"):
        for o in fl.try_run("file", root) or []:
            if is_ok(o):
                fs = stream_fields(o)
                if fs is None:
                    rep.unknown("accepted headers are supported", root, root, "more than one buffer")
                    continue
                k += 1
                accepted(fl, root, o, flatten(o, fs), set())
    rep.floor("accepting paths of files", k, 8)
    rep.coverage["supported combinations"] = len(COMBINATIONS)
    fl.coverage()
    return ("Interval facts of the header words on every path of the header reader and of the file readers: accepting paths "
            "must confine magic, versions and format to the supported values; each of the 99 supported combinations must "
            "be consistent with an accepting path, and no rejecting path that stops before the custom version table may "
            "be consistent with one of them.")

"""C07: strings survive encoding and decoding, and absent differs from empty."""
from fields import joined, regroup
from flow import Agg, Flow, Lin, Str, add, atom, brief, flatten, is_ok, murky, neg, opaque, scale, size, sub


def rng(st, v):
    return st.rng(v)


def written(fl, root, o, limits):
    """Judge one successful path of a string writer."""
    rep = fl.rep
    fs = flatten(o, o.cells[("out",)]["fields"])
    where = fl.locate(*o.cells[("out",)]["fields"])
    if any(f[0] == "lost" for f in fs):
        rep.unknown("encoding", where, root, "output not followed")
        return
    shape = [(f[0],) + f[1:2] for f in fs]
    if root == "write_fstring" and o.norm(atom(("disc", ("arg", root, 1), (0, 1)))) == 0 or \
            root == "write_fstring" and o.facts.var.get(("arg", root, 1)) == 0:
        if len(fs) == 1 and fs[0][:3] == ("num", 4, 0):
            rep.ok("absent string", f"{root}: {brief(fs[0])}")
        else:
            rep.violation("absent string", where, root, "an absent string is written as " + ", ".join(map(brief, fs)))
        return
    if len(fs) == 1 and fs[0][:3] == ("num", 4, 0):
        rep.violation("absent string", where, root, "a present string is written like an absent one")
        return
    if len(fs) < 2 or fs[0][:2] != ("num", 4):
        rep.violation("encoding", where, root, "string written as " + ", ".join(map(brief, fs)))
        return
    n = fs[0][2]
    if o.nonneg(sub(-1, n)):
        fs = regroup(o, joined(fs), len(fs) - 2, 2)
    body, end = fs[1:-1], fs[-1]
    inst = f"{root}: {brief(fs[0])}"
    if opaque(tuple(fs)):
        rep.unknown("encoding", where, root, ", ".join(map(brief, fs)))
        return
    # the 8-bit form
    if end[:3] == ("num", 1, 0):
        text = body[0][2] if len(body) == 1 and body[0][0] == "bytes" else None
        if not body:
            text, length = ("utf8", ("?",)), 0
        else:
            length = body[0][1] if text else None
        if text is None or text[0] != "utf8":
            rep.violation("encoding", where, root, "8-bit string written as " + ", ".join(map(brief, fs)))
            return
        if o.norm(sub(n, add(length, 1))) != 0:
            rep.violation("length prefix", where, root, f"length {n!r} for {length!r} characters and the terminator")
            return
        if body and o.simp(("ascii", text[1])) is not True:
            rep.violation("8-bit form only for ASCII", where, root, "the 8-bit form is written for a string that may not be ASCII")
            return
        lo, hi = rng(o, n)
        limits["8-bit"] = max(limits.get("8-bit", 0), hi if hi is not None else 1 << 40)
        rep.ok("encoding", inst)
        return
    if end[:3] == ("num", 2, 0):
        ok = False
        if len(body) == 1 and body[0][0] == "loop":
            L, alts = body[0][1], body[0][2]
            ok = L[0] == "B" and L[1][0] == "utf16" and all(
                len(a[2]) == 1 and a[2][0][:2] == ("num", 2) and a[2][0][3] == "le" and
                a[2][0][2] == atom(("v", ("byte", L[1], "*"), 16, False)) for a in alts)
            count = atom(("n", L))
        elif len(body) == 1 and body[0][0] == "bytes" and body[0][2][0] == "utf16":
            ok, count = True, atom(("u16len", body[0][2][1]))
        elif not body:
            ok, count = True, 0
        if not ok:
            rep.violation("encoding", where, root, "16-bit string written as " + ", ".join(map(brief, fs)))
            return
        if o.norm(add(add(n, count), 1)) != 0:
            rep.violation("length prefix", where, root, f"length {n!r} for {count!r} code units and the terminator")
            return
        lo, hi = rng(o, n)
        limits["16-bit"] = max(limits.get("16-bit", 0), -lo if lo is not None else 1 << 40)
        rep.ok("encoding", inst)
        return
    rep.violation("encoding", where, root, "string written as " + ", ".join(map(brief, fs)))


def read(fl, root, o, limits):
    """Judge one successful path of a string reader."""
    rep = fl.rep
    raw = o.cells[("in",)]["fields"]
    fs = flatten(o, raw)
    where = fl.locate(*raw)
    v = o.ret.f[0]
    if any(f[0] == "lost" for f in fs) or opaque(v):
        rep.unknown("decoding", where, root, f"{v!r}"[:200])
        return
    if root == "read_fstring":
        if not isinstance(v, Agg):
            rep.unknown("decoding", where, root, repr(v)[:200])
            return
        if v.var == 0:
            if len(fs) == 1 and fs[0][:3] == ("num", 4, 0):
                rep.ok("absent string", f"{root}: length 0")
            else:
                rep.violation("absent string", where, root, "an absent string is returned for " + ", ".join(map(brief, fs)))
            return
        v = v.f[0]
    if not raw or raw[0][:2] != ("num", 4):
        rep.violation("decoding", where, root, "string read as " + ", ".join(map(brief, raw)))
        return
    n = raw[0][2]
    lo, hi = rng(o, n)
    form = "8-bit" if o.nonneg(sub(n, 1)) else "16-bit" if o.nonneg(sub(-1, n)) else None
    if form is None:
        rep.violation("absent string", where, root, f"a string is returned for lengths from {lo} to {hi}")
        return
    unit, enc = (1, "utf8") if form == "8-bit" else (2, "utf16")
    count = sub(n if form == "8-bit" else neg(n), 1)
    data = raw[1] if len(raw) > 2 else None
    if len(raw) == 3 and data[0] == "bytes" and raw[2][:2] == ("num", unit):
        if o.norm(sub(data[1], scale(count, unit))) != 0:
            rep.violation("length prefix", where, f"{root} {form}", f"length {n!r} makes the reader take {data[1]!r} bytes")
            return
        if o.norm(raw[2][2]) != 0:
            rep.violation("terminator", where, f"{root} {form}", "a string with another terminator than zero is accepted")
            return
        if isinstance(v, Str) and v.t == ("dec", enc, data[2]):
            rep.ok("decoding", f"{root}: {form} {count!r} units")
            limits[form] = min(limits.get(form, 1 << 40), hi if form == "8-bit" else -lo)
            return
        rep.violation("decoding", where, f"{root} {form}", f"the string returned is {v!r}, not the {enc} text of the data"[:300])
        return
    if len(raw) == 2 and raw[1][:2] == ("num", unit) and o.norm(count) == 0 and isinstance(v, Str) and v.t == "":
        if o.norm(raw[1][2]) != 0:
            rep.violation("terminator", where, f"{root} {form}", "a string with another terminator than zero is accepted")
        else:
            rep.ok("decoding", f"{root}: empty")
        return
    rep.violation("decoding", where, f"{root} {form}", "string read as " + ", ".join(map(brief, raw)))


def run(ctx, rep):
    fl = Flow(ctx, rep)
    fl.ip.cut = False
    wl, rl = {}, {}
    done = {}
    for root in ("write_string", "write_string_owned", "write_fstring"):
        for o in fl.try_run(root, root) or []:
            if is_ok(o):
                written(fl, root, o, wl)
                done[root] = done.get(root, 0) + 1
    for root in ("read_string", "read_fstring"):
        outs = fl.try_run(root, root)
        for o in outs or []:
            if is_ok(o):
                read(fl, root, o, rl)
                done[root] = done.get(root, 0) + 1
        for o in outs or []:
            # a zero length is an error where a string is required
            if root == "read_string" and is_ok(o) and o.simp(("eq0", o.cells[("in",)]["fields"][0][2])) is True:
                rep.violation("absent string", "src/cursor_ext.rs", root, "a zero length is accepted where a string is required")
    rep.floor("string functions analysed", len(done), 5)
    for form in ("8-bit", "16-bit"):
        if form in wl and form in rl:
            if wl[form] <= rl[form]:
                rep.ok("written lengths can be read", f"{form}: written up to {wl[form]}, read up to {rl[form]}")
            else:
                rep.violation("written lengths can be read", "src/cursor_ext.rs", form,
                              f"strings of up to {wl[form]} units are written, {rl[form]} can be read")
        else:
            rep.unknown("written lengths can be read", "src/cursor_ext.rs", form, f"not seen on both sides: {sorted(wl)} {sorted(rl)}")
    rep.coverage["length limits"] = {"written": wl, "read": rl}
    fl.coverage()
    return ("Every successful path of the string writers and readers with an arbitrary string / arbitrary bytes: the "
            "emitted fields must be the length prefix as a term over the string's length, its encoded text and a zero "
            "terminator of the same width; the reader must take the announced number of units, insist on the "
            "terminator and return the strict decoding of exactly those bytes. Lengths written must lie in the range read.")

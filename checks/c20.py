"""C20: identifier conversions are mutually inverse and the text form is canonical."""
from flow import Agg, Flow, Lin, Str, Sym, T, atom, is_ok, murky, opaque

WORDS = "words are the bytes in little-endian order"
NUMBER = "number conversions are inverse"
BYTES = "byte conversions are inverse"
ZERO = "zero test looks at every byte"
SHOW = "text form has the digits of every byte in order"
PARSE = "parsing accepts 32 digits or a zero only"
ROUND = "formatted text is parsed to the same identifier"

S = ("v", ("arg", "guid_parse", 0))
HEX = "0123456789abcdefABCDEF"
ZERO_PAD, ALTERNATE, PLUS = 1 << 24, 1 << 23, 1 << 21


class Strange(Exception):
    """A form this analysis does not understand."""


def run(ctx, rep):
    fl = Flow(ctx, rep)
    fl.ip.cut = False
    counts = {"conversions": 0, "formatting paths": 0, "parsing paths": 0, "accepting paths": 0, "round trips": 0}
    conversions(fl, counts)
    shown = display(fl, counts)
    accepted = parse(fl, counts)
    if shown is not None and accepted is not None:
        round_trip(fl, shown, accepted, counts)
    rep.coverage["instances"] = counts
    if not fl.aborted:
        rep.floor("conversions", counts["conversions"], 10)
        rep.floor("formatting paths", counts["formatting paths"], 1)
        rep.floor("accepting parsing paths", counts["accepting paths"], 1)
    fl.coverage()
    return ("Byte provenance through every conversion: each result byte is one argument byte, and the positions are inverse "
            "(and little-endian within words). The text form is a sequence of literals and hexadecimal digits of known bytes; "
            "every accepting path of the parser is a chain of removals of dashes, blanks and braces followed by tests and by "
            "the values of digit pairs. The chains are applied to the text form.")


# ---- conversions --------------------------------------------------------------------------
def single(fl, root):
    outs = fl.try_run(root, root)
    if outs is None:
        return None
    if len(outs) != 1:
        fl.rep.unknown("analysis", root, root, f"{len(outs)} paths")
        return None
    return outs[0]


def array(fl, o, v, n):
    """Elements of an array value, through wrappers."""
    while isinstance(v, (Agg, Sym)):
        ty = fl.ctx.db.types.get(v.ty) or {}
        if ty.get("k") == "array" or isinstance(v, Agg) and len(v.f) == n:
            return [fl.ip.elem(o, v, i) for i in range(n)]
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        else:
            v = fl.ip.proj(o, v, ("f", 0, 0))
    return None


def source(fl, o, root, words):
    """Bytes of the argument of a conversion, in order: {term: position}."""
    db = fl.ctx.db
    ty = db.body(db.root[root]).locals[1]
    a = fl.ip.mk(o, ("arg", root, 0), ty)
    if db.types[ty]["k"] == "ref":
        a = fl.ip.load(o, a.cell, a.path) if hasattr(a, "cell") else a
    t = db.types[a.ty if isinstance(a, (Sym, Agg)) else ty]
    if words == 1:
        bs = fl.ip.int_bytes(o, a, 16)
    else:
        es = array(fl, o, a, words)
        bs = []
        for e in es:
            bs += fl.ip.int_bytes(o, e, 16 // words)
    return {b: i for i, b in enumerate(bs)}


def places(fl, root, of, to):
    """For each byte of the result, the position of the argument byte it is; None when not understood."""
    o = single(fl, root)
    if o is None:
        return None
    src = source(fl, o, root, of)
    v = o.ret
    if to == 1:
        bs = fl.ip.int_bytes(o, v, 16)
    else:
        es = array(fl, o, v, to)
        if es is None:
            fl.rep.unknown("analysis", root, root, f"result {v!r}"[:200])
            return None
        bs = []
        for e in es:
            if not isinstance(e, (int, Lin)):
                fl.rep.unknown("analysis", root, root, f"element {e!r}"[:200])
                return None
            bs += fl.ip.int_bytes(o, o.norm(e), 16 // to)
    out = []
    for b in bs:
        if isinstance(b, int) or b in src:
            out.append(src.get(b, f"constant {b}"))
        elif opaque(b) or not isinstance(b, Lin):
            fl.rep.unknown("analysis", root, root, f"byte {b!r}"[:200])
            return None
        else:
            out.append(f"{b!r}"[:60])
    return out


def conversions(fl, counts):
    rep = fl.rep
    ident = list(range(16))

    def loc(root):
        return fl.where(root)

    for root, of, to in (("guid_from_u8", 16, 16), ("guid_to_u8", 16, 16)):
        p = places(fl, root, of, to)
        if p is None:
            continue
        counts["conversions"] += 1
        judge(rep, BYTES, p, ident, loc(root), root)
    for root, of, to in (("guid_from_u32", 4, 16), ("guid_into_from_u32", 4, 16), ("guid_to_u32", 16, 4), ("guid_into_u32", 16, 4)):
        p = places(fl, root, of, to)
        if p is None:
            continue
        counts["conversions"] += 1
        judge(rep, WORDS, p, ident, loc(root), root)
    come = {r: places(fl, r, 1, 16) for r in ("guid_from_u128", "guid_into_from_u128")}
    go = {r: places(fl, r, 16, 1) for r in ("guid_to_u128", "guid_into_u128")}
    for a, p in come.items():
        for b, q in go.items():
            if p is None or q is None:
                continue
            counts["conversions"] += 1
            both = [p[x] if isinstance(x, int) else x for x in q]
            judge(rep, NUMBER, both, ident, loc(a) + ", " + loc(b), f"{a} then {b}")
            if not all(isinstance(x, int) for x in p):
                judge(rep, NUMBER, p, ident, loc(a), a)
    outs = fl.try_run("guid_is_zero", "guid_is_zero")
    if outs is not None:
        zero_test(fl, outs)


def judge(rep, rule, got, want, where, root):
    what = root.replace("_", " ")
    if got == want:
        rep.ok(rule, what)
        return
    i = next(i for i in range(16) if got[i] != want[i])
    rep.violation(rule, where, root, f"{what}: byte {i} of the result comes from byte {got[i]} of the argument, expected {want[i]}")


def zero_bytes(fl, o, cond, src):
    """Bytes that a condition says are zero; None when not understood."""
    if cond is True:
        return set()
    if isinstance(cond, tuple) and cond[0] == "and":
        a, b = zero_bytes(fl, o, cond[1], src), zero_bytes(fl, o, cond[2], src)
        return None if a is None or b is None else a | b
    if isinstance(cond, tuple) and cond[0] == "eq0":
        bs = fl.ip.known_bytes(o, cond[1])
        return None if bs is None else {b for b in bs if isinstance(b, Lin)}
    if isinstance(cond, tuple) and cond[0] == "aeq" and ("const",) + (0,) * 16 in cond:
        other = next((x for x in cond[1:] if x[:1] != ("const",)), None)
        return {b for b in src if any(other in a[1] for a in b.t)} if other is not None else None
    return None


def known_zero(fl, o, src):
    """Bytes that are zero on a path."""
    zero = {b for b in src if o.norm(b) == 0}
    for a, v in o.facts.sub.items():
        if v == 0 and a[0] == "cat":
            zero |= set(a[1]) & set(src)
    for c, v in o.facts.bt.items():
        if v is True:
            zero |= zero_bytes(fl, o, c, src) or set()
    return zero


def untold(o):
    """Are there conditions on a path, such as those of loops, that are not understood here?"""
    return murky(o) or any(isinstance(a, tuple) and a[0] not in ("cat", "v", "rng") for a in list(o.facts.sub) + list(o.facts.rng)) \
        or any(not (isinstance(c, tuple) and c[0] in ("aeq", "eq0")) for c in o.facts.bt) or loops_passed(o)


def loops_passed(o):
    return bool(getattr(o, "all", None)) or any(e[0] == "in loop" for e in o.events)


def zero_test(fl, outs):
    where = fl.where("guid_is_zero")
    for o in outs:
        src = source(fl, o, "guid_is_zero", 16)
        r = o.simp(o.ret) if isinstance(o.ret, tuple) else o.ret
        zero = known_zero(fl, o, src)
        if r is False:
            if any(not o.rng(b)[0] is None and o.rng(b)[0] > 0 or b in o.facts.ne for b in src) or set(src) - zero:
                fl.rep.ok(ZERO, "not zero")
            continue
        z = zero_bytes(fl, o, r, src)
        if z is not None:
            z |= zero
        if z == set(src):
            fl.rep.ok(ZERO, "all sixteen bytes")
        elif z is None or untold(o):
            fl.rep.unknown(ZERO, where, "is_zero", f"{o.ret!r}"[:200])
        else:
            fl.rep.violation(ZERO, where, "is_zero",
                             f"the zero test ignores byte {min(set(src.values()) - {src.get(b) for b in z}, default='?')}")


# ---- text form ----------------------------------------------------------------------------
def digits(fl, o, p):
    """Characters of a formatted piece: literal characters and ('x', byte, 1 or 0 for high and low digit)."""
    if p[0] == "s":
        if not isinstance(p[1], str):
            raise Strange(f"text {p[1]!r}")
        return list(p[1])
    _, kind, opts, v, ty = p
    opts = dict(opts)
    flags = opts.get("flags", 0)
    t = fl.ctx.db.types.get(ty) or {}
    while t.get("k") == "ref":
        t = fl.ctx.db.types.get(t.get("t")) or {}
    if kind in ("upper_hex", "lower_hex") and t.get("k") == "int" and not flags & (ALTERNATE | PLUS) and "prec" not in opts:
        n = t["bits"] // 8
        w = opts.get("width", 0)
        if w < 2 * n or not flags & ZERO_PAD:
            return [("short", v)]
        bs = fl.ip.int_bytes(o, v, n)
        out = ["0"] * (w - 2 * n)
        for b in reversed(bs):
            if isinstance(b, int):
                out += list(f"{b:02X}")
            else:
                out += [("x", b, 1), ("x", b, 0)]
        return out
    raise Strange(f"{kind} of {v!r}")


def display(fl, counts):
    """[(path, characters, bytes known to be zero)] of formatting an identifier."""
    outs = fl.try_run("guid_display", "guid_display")
    if outs is None:
        return None
    res = []
    for o in outs:
        if not is_ok(o):
            continue
        counts["formatting paths"] += 1
        try:
            if murky(o):
                raise Strange("path not followed")
            cs = []
            for p in o.cells[("fmt",)]["p"]:
                cs += digits(fl, o, p)
        except Strange as e:
            fl.rep.unknown(SHOW, fl.where("guid_display"), "display", str(e)[:200])
            return None
        src = source(fl, o, "guid_display", 16)
        bad = next((c for c in cs if isinstance(c, tuple) and c[0] == "short"), None)
        if bad:
            fl.rep.violation(SHOW, fl.where("guid_display"), "display", f"the number of digits of {bad[1]!r} varies with its value"[:200])
            continue
        xs = [c for c in cs if isinstance(c, tuple)]
        want = [("x", b, h) for b in src for h in (1, 0)]
        zero = known_zero(fl, o, src)
        if not xs and set(src) == zero:
            fl.rep.ok(SHOW, "zero as " + repr("".join(cs)))
        elif not xs and untold(o):
            fl.rep.unknown(SHOW, fl.where("guid_display"), "display", "zero test not understood")
            return None
        elif not xs:
            i = min(src[b] for b in src if b not in zero)
            fl.rep.violation(SHOW, fl.where("guid_display"), "display",
                             f"an identifier is shown as {''.join(cs)!r} whatever its byte {i} is")
            continue
        elif xs == want:
            fl.rep.ok(SHOW, "digits of bytes 0 to 15")
        else:
            i = next((i for i, (a, b) in enumerate(zip(xs, want)) if a != b), min(len(xs), len(want)))
            fl.rep.violation(SHOW, fl.where("guid_display"), "display",
                             f"digit {i} of the text is {name(xs, i, src)}, expected {name(want, i, src)}")
            continue
        res.append((o, cs, zero, src))
    return res


def name(xs, i, src):
    if i >= len(xs):
        return "missing"
    return f"the {'high' if xs[i][2] else 'low'} digit of byte {src.get(xs[i][1], '?')}"


# ---- parsing ------------------------------------------------------------------------------
REMOVALS = {"replace", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches",
            "strip_prefix", "strip_suffix"}
KEEP = {"to_ascii_uppercase", "to_ascii_lowercase", "to_uppercase", "to_lowercase", "to_string", "to_owned"}


def chain(t):
    """Operations that lead from the argument to a string: [(operation, arguments, string it is applied to)]."""
    out = []
    while t != S:
        if t[0] == "sop":
            op, args, base = t[1], t[3], t[2]
        elif t[0] == "v" and t[1][0] == "f" and t[1][1][0] == "sopt" and t[1][1][1][0] == "sop":
            op, args, base = t[1][1][1][1], t[1][1][1][3], t[1][1][1][2]
        else:
            raise Strange(f"text {t!r}")
        if op not in REMOVALS and op not in KEEP:
            raise Strange(f"operation {op}")
        out.append((op, tuple(args), base))
        t = base
    return out[::-1]


def removed(op, args):
    """Characters an operation may remove."""
    if op in KEEP:
        return ""
    if op in ("trim", "trim_start", "trim_end"):
        return " "
    try:
        vals = [eval(a, {"__builtins__": {}}) if isinstance(a, str) else None for a in args]
    except Exception:
        raise Strange(f"{op}{args}")
    if not vals or not isinstance(vals[0], (str, tuple, list)):
        raise Strange(f"{op}{args}")
    if op == "replace" and (len(vals) != 2 or vals[1] != ""):
        raise Strange(f"{op}{args}") if len(vals) != 2 else Adds(f"{vals[0]!r} is replaced by {vals[1]!r}")
    return "".join(vals[0])


class Adds(Exception):
    """Characters are put in."""


def pair(fl, o, b):
    """(string, first, end) of the digits a result byte has the value of."""
    if isinstance(b, Lin) and b.c == 0 and len(b.t) == 1:
        (a, k), = b.t.items()
        if k == 1 and a[0] == "v" and a[2] == 8 and isinstance(a[1], tuple) and a[1][0] == "parse":
            if a[1][1] != 16:
                raise Adds(f"digits are read with base {a[1][1]}")
            return span(a[1][2], 2, 0)
        if k == 1 and a[0] == "rng" and a[1][0] == "byteof":
            _, v, i, n = a[1]
            if len(v.t) == 1 and v.c == 0:
                (a, k), = v.t.items()
                if k == 1 and a[0] == "v" and isinstance(a[1], tuple) and a[1][:2] == ("parse", 16):
                    return span(a[1][2], 2 * n, 2 * (n - 1 - i))
    raise Strange(f"byte {b!r}")


def span(t, n, at):
    lo = 0
    if t[0] == "substr":
        lo, hi = t[2], t[3]
        if not isinstance(lo, int) or not isinstance(hi, int) or hi - lo != n:
            raise Strange(f"digits {t!r}")
        t = t[1]
    return t, lo + at, lo + at + 2


KNOWN = {"blen", "sopt", "sop", "parsed", "parse", "substr", "disc", "v", "f", "allhex", "ascii", "allin", "arg", "mget"}


def odd_condition(o, t):
    """Conditions of a path about a string that are not of the known kinds."""
    def has(x):
        return x == t or isinstance(x, tuple) and any(has(y) for y in x) or isinstance(x, Lin) and any(has(a) for a in x.t)
    for kind in ("bt", "ne", "var", "rng", "sub", "seq", "sne"):
        for k in getattr(o.facts, kind):
            if has(k):
                tag = k[0] if isinstance(k, tuple) else next(iter(k.t))[0] if isinstance(k, Lin) else "?"
                if tag not in KNOWN:
                    return True
    return murky(o)


def parse(fl, counts):
    """[(path, kind, string, spans)] of the accepting paths."""
    outs = fl.try_run("guid_parse", "guid_parse")
    if outs is None:
        return None
    rep, where = fl.rep, fl.where("guid_parse")
    res = []
    for o in outs:
        counts["parsing paths"] += 1
        if not is_ok(o):
            continue
        counts["accepting paths"] += 1
        try:
            bs = array(fl, o, o.ret.f[0], 16)
            if bs is None or murky(o):
                raise Strange(f"result {o.ret!r}")
            if all(b == 0 for b in bs):
                t = next((k for k, v in o.facts.seq.items() if v == "0"), None)
                if t is None:
                    if not odd_condition(o, S):
                        rep.violation(PARSE, where, "from_str", f"zero is returned for a text that is not a single zero ({conditions(o)})"[:300])
                    else:
                        rep.unknown(PARSE, where, "from_str", "zero returned")
                        return None
                    continue
                cleaning(rep, where, t)
                res.append((o, "zero", t, None))
                continue
            spans = [pair(fl, o, b) for b in bs]
            t = spans[0][0]
            cleaning(rep, where, t)
            n = o.norm(atom(("blen", t)))
            hexes = any(o.facts.bt.get(("allhex", x)) is True for x in [t] + [b for _, _, b in chain(t)])
            if any(s[0] != t for s in spans):
                raise Strange("digits of different texts")
            if [s[1:] for s in spans] != [(2 * i, 2 * i + 2) for i in range(16)]:
                i = next(i for i in range(16) if spans[i][1:] != (2 * i, 2 * i + 2))
                rep.violation(PARSE, where, "from_str", f"byte {i} is taken from digits {spans[i][1]} to {spans[i][2] - 1}")
            elif n != 32:
                lo, hi = o.rng(n)
                if odd_condition(o, t):
                    rep.unknown(PARSE, where, "from_str", f"length {n!r}"[:200])
                else:
                    rep.violation(PARSE, where, "from_str", f"a text of {lo} to {hi if hi is not None and hi < 1 << 40 else 'any number of'} characters is accepted")
            elif not hexes:
                if odd_condition(o, t):
                    rep.unknown(PARSE, where, "from_str", "digit test not understood")
                else:
                    rep.violation(PARSE, where, "from_str", "text is accepted without testing that every character is a digit "
                                  "(a number may start with a sign)")
            else:
                rep.ok(PARSE, "32 digits after " + (", ".join(c[0] for c in chain(t)) or "nothing"))
            res.append((o, "digits", t, spans))
        except Adds as e:
            rep.violation(PARSE, where, "from_str", str(e))
        except Strange as e:
            rep.unknown(PARSE, where, "from_str", str(e)[:200])
            return None
    return res


def conditions(o):
    return ", ".join(f"{k[0]}: {v}" for k, v in list(o.facts.seq.items())[:3]) or "no condition on the text"


def cleaning(rep, where, t):
    for op, args, base in chain(t):
        extra = set(removed(op, args)) - set("-{} ")
        if extra:
            rep.violation(PARSE, where, "from_str", f"{op} removes {''.join(sorted(extra))!r} from the text")
        if op == "replace" and set(removed(op, args)) - {"-"}:
            rep.violation(PARSE, where, "from_str", f"{op} removes {removed(op, args)!r} inside the digits")


# ---- round trip ---------------------------------------------------------------------------
def apply(o, cs, t):
    """Characters of a string of the parser for a given text, or None when the path is not taken."""
    cs = list(cs)
    for x in chain_terms(t):
        op, args = x[0], x[1]
        if op in KEEP:
            continue
        gone = removed(op, args)
        if op == "replace":
            if len(gone) != 1:
                raise Strange(f"replace {gone!r}")
            cs = [c for c in cs if c != gone]
            continue
        if op in ("trim", "trim_start", "trim_end"):
            gone = " \t\n\r"
        first = op in ("trim", "trim_start", "trim_matches", "trim_start_matches", "strip_prefix")
        last = op in ("trim", "trim_end", "trim_matches", "trim_end_matches", "strip_suffix")
        if op.startswith("strip"):
            if len(gone) != 1:
                raise Strange(f"{op} {gone!r}")
            here = bool(cs) and cs[0 if first else -1] == gone
            if here != x[3]:
                return None
            if here:
                cs = cs[1:] if first else cs[:-1]
            continue
        while first and cs and isinstance(cs[0], str) and cs[0] in gone:
            cs = cs[1:]
        while last and cs and isinstance(cs[-1], str) and cs[-1] in gone:
            cs = cs[:-1]
    return cs


def chain_terms(t):
    for op, args, base in chain(t):
        yield op, args, base, op.startswith("strip")


def untaken(o, cs, t):
    """Strip operations that this path says did not apply: is that so for the text?"""
    for k, v in list(o.facts.var.items()) + [(a[1], v) for a, v in o.facts.sub.items() if a[0] == "disc"]:
        if k[0] == "sopt" and k[1][0] == "sop" and k[1][1].startswith("strip") and v == 0:
            base = apply(o, cs, k[1][2])
            if base is None:
                return False
            gone = removed(k[1][1], k[1][3])
            if base and base[0 if "prefix" in k[1][1] else -1] == gone:
                return False
    return True


def round_trip(fl, shown, accepted, counts):
    rep = fl.rep
    where = fl.where("guid_display") + ", " + fl.where("guid_parse")
    for o, cs, zero, src in shown:
        counts["round trips"] += 1
        text = "".join(c if isinstance(c, str) else "X" for c in cs)
        hit = []
        try:
            for p, kind, t, spans in accepted:
                r = apply(p, cs, t)
                if r is None or not untaken(p, cs, t):
                    continue
                if kind == "zero":
                    if r == ["0"]:
                        hit.append([0] * 16)
                elif len(r) == 32 and all(isinstance(c, tuple) or c in HEX for c in r):
                    bs = []
                    for _, lo, hi in spans:
                        a, b = r[lo:hi] if hi <= 32 else (None, None)
                        if isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1] and (a[2], b[2]) == (1, 0):
                            bs.append(a[1])
                        elif isinstance(a, str) and isinstance(b, str):
                            bs.append(int(a + b, 16))
                        else:
                            bs.append((a, b))
                    hit.append(bs)
        except (Strange, Adds) as e:
            rep.unknown(ROUND, where, text, str(e)[:200])
            continue
        want = [0 if b in zero else b for b in src]
        if not hit:
            rep.violation(ROUND, where, text, f"the text form {text} is not accepted by the parser")
        elif all([0 if b in zero else b for b in h] == want for h in hit):
            rep.ok(ROUND, text)
        else:
            h = next(h for h in hit if h != want)
            i = next(i for i in range(16) if h[i] != want[i])
            rep.violation(ROUND, where, text, f"parsing the text form {text} gives another byte {i}")

"""C26: engine versions are recognised by their numbers, and version tables follow their order."""
import re

from common import CheckError
from flow import Agg, Flow, Ref, Sym, atom, is_int, murky, opaque, sub

KNOWN = [(4, n) for n in range(28)] + [(5, n) for n in range(3)]
NAMED = "a known pair of numbers is the version of that name"
OTHERS = "any other pair is unknown"
FREE = "only the two numbers decide"
ONCE = "an engine version occurs once"
ORDER = "later engine versions have no smaller numbers"
CODES = "numbers are those of the newest or an earlier version"
TABLES = [("table_editor", "FEditorObjectVersion"), ("table_release", "FUE5ReleaseStreamObjectVersion")]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    names = variants(ctx, "engine_version::EngineVersion")
    numbered = {}
    for i, v in enumerate(names):
        m = re.match(r"^\D*?(\d)_(\d+)$", v)
        if m:
            numbered[i] = (int(m[1]), int(m[2]))
    rep.coverage["versions"] = {names[i]: f"{a}.{b}" for i, (a, b) in numbered.items()}
    rep.floor("numbered engine versions", len(numbered), len(KNOWN))
    recognise(fl, names, numbered)
    entries = 0
    for root, enum in TABLES:
        entries += table(fl, root, enum, names, numbered, codes(ctx, enum))
    rep.coverage["table entries"] = entries
    rep.floor("table entries", entries, 17)
    fl.coverage()
    return ("Every path of the recognition of engine versions, for each known pair of numbers and for all others; every entry of the "
            "tables from engine versions to custom versions, compared in the order of the engine versions.")


def variants(ctx, name):
    a = [a for a in ctx.items["adts"] if a["name"] == name]
    if len(a) != 1:
        raise CheckError(f"{name} not found")
    return [v["n"] for v in a[0]["vars"]]


def codes(ctx, enum):
    a = [a for a in ctx.items["adts"] if a["name"].endswith("::" + enum)]
    if len(a) != 1:
        raise CheckError(f"{enum} not found")
    return {v["n"]: int(v["d"]) for v in a[0]["vars"] if v.get("d") is not None}


def recognise(fl, names, numbered):
    rep = fl.rep
    root = "engine_version"
    arg = ("*", ("arg", root, 0))
    fields = [f["n"] for a in fl.ctx.items["adts"] if a["name"] == "engine_version::FEngineVersion" for f in a["vars"][0]["f"]]
    if "major" not in fields or "minor" not in fields:
        raise CheckError("numbers of an engine version not found")
    major, minor = (atom(("v", ("f", arg, 0, fields.index(n)), 16, False)) for n in ("major", "minor"))
    where = fl.where(root)
    byname = {p: i for i, p in numbered.items()}
    outs = fl.try_run("engine version", root) or []
    rep.coverage["recognition paths"] = len(outs)
    for p in KNOWN:
        hit = []
        for o in outs:
            s = o.clone()
            if s.assume(("eq0", sub(major, p[0])), True) and s.assume(("eq0", sub(minor, p[1])), True):
                hit.append((s, o))
        inst = f"{p[0]}.{p[1]}"
        got = {result(fl, s, o.ret) for s, o in hit}
        if p not in byname:
            rep.violation(NAMED, where, inst, f"there is no version {inst}")
        elif got == {byname[p]}:
            rep.ok(NAMED, inst)
        elif not got or None in got or any(murky(o) for _, o in hit):
            rep.unknown(NAMED, where, inst, "result not followed")
        else:
            rep.violation(NAMED, where, inst, f"engine version {inst} is taken for {', '.join(names[g] for g in sorted(got))}")
    for o in outs:
        s = o.clone()
        # what is left of this path when every known pair is taken away
        for a in sorted({p[0] for p in KNOWN}):
            mine = [p[1] for p in KNOWN if p[0] == a]
            if s.norm(sub(major, a)) == 0:
                for b in mine:
                    if not s.assume(("eq0", sub(minor, b)), False):
                        s = None
                        break
            if s is None:
                break
        if s is None:
            continue
        r = result(fl, s, o.ret)
        if r is not None and r not in numbered:
            rep.ok(OTHERS, names[r])
        elif r is None or murky(o) or s.norm(major) == major and s.norm(minor) == minor:
            rep.unknown(OTHERS, where, "others", f"{o.ret!r}"[:200])
        else:
            ra, rb = s.rng(major), s.rng(minor)
            rep.violation(OTHERS, where, names[r], f"numbers {ra[0]}..{ra[1]}.{rb[0]}..{rb[1]} are taken for {names[r]}")
    for o in outs:
        free = all(about(k, arg, fields) for m in o.facts.NAMES for k in getattr(o.facts, m))
        if free:
            rep.ok(FREE)
        elif murky(o):
            rep.unknown(FREE, where, "conditions", "not followed")
        else:
            rep.violation(FREE, where, "conditions", "the version depends on more than its two numbers")


def about(k, arg, fields):
    """Is a condition about the two numbers only?"""
    if isinstance(k, tuple):
        if k[:2] == ("f", arg):
            return fields[k[3]] in ("major", "minor")
        return all(about(x, arg, fields) for x in k)
    return all(about(a, arg, fields) for a in getattr(k, "t", ()))


def result(fl, s, v):
    if isinstance(v, Agg):
        return v.var
    if isinstance(v, Sym):
        return s.facts.var.get(v.key)
    return None


def table(fl, root, enum, names, numbered, code):
    rep = fl.rep
    n = 0
    for o in fl.try_run(enum, root) or []:
        v = fl.ip.load(o, o.ret.cell, o.ret.path) if isinstance(o.ret, Ref) else o.ret
        at = [c["at"] for c in fl.ctx.items["consts"] if f"{enum} as " in c["name"] and c["name"].endswith("::VERSION_MAPPINGS")]
        where = f"{at[0].split('/repo/')[-1] if at else '?'} in the table of {enum}"
        if not isinstance(v, Agg) or any(not isinstance(e, Agg) or len(e.f) != 2 or not isinstance(e.f[0], Agg) or not isinstance(e.f[1], int)
                                         for e in v.f):
            rep.unknown(ORDER, where, enum, "table not followed")
            continue
        es = sorted((e.f[0].var, e.f[1]) for e in v.f)
        n += len(es)
        for (a, x), (b, y) in zip(es, es[1:]):
            if a == b:
                rep.violation(ONCE, where, f"{enum}: {names[a]}", f"{names[a]} has the numbers {x} and {y}")
            else:
                rep.ok(ONCE)
            if x > y:
                rep.violation(ORDER, where, f"{enum}: {names[b]}", f"{names[a]} has the number {x}, the later {names[b]} has {y}")
            else:
                rep.ok(ORDER, f"{enum}: {names[a]} {x}, {names[b]} {y}")
        for a, x in es:
            if x in code.values():
                rep.ok(CODES)
            else:
                rep.violation(CODES, where, f"{enum}: {names[a]}", f"{x} is no number of {enum}")
    return n

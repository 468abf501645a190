"""C25: nesting of the input is bounded."""
import re

from c23 import Graph
from flow import ALL_TYPES, CheckError, Flow, events, is_int, is_ok, murky, opaque, sub

GROWS = "each level of nesting is counted"
BOUNDED = "the count is bounded where the next level begins"
FAILS = "beyond the bound reading fails"
ACYCLIC = "no other cycle of reading steps"
LIMIT = 1024
READERS = ("property_new", "ftext_read", "fhistory_read", "header_read", "file_read", "file_read_with_hints")
STREAM = re.compile(r"\bIn\b|std::io::Cursor<|\bR\b|dyn .*Read")


def run(ctx, rep):
    fl = Flow(ctx, rep)
    db = ctx.db
    g = Graph(db)
    counts = {"cycles": 0, "functions on cycles": 0, "levels": 0, "other cycles": 0, "empty": 0}
    missing = [r for r in READERS if r not in db.root]
    if missing:
        raise CheckError("entry points not found: " + ", ".join(missing))
    reached = g.reach([db.root[r] for r in READERS])
    comps = [c for c in components(sorted(reached), g.next) if any(reads(db, i) for i in c)]
    for c in comps:
        counts["cycles"] += 1
        counts["functions on cycles"] += len(c)
        other(fl, g, c, counts)
    comp = {i: n for n, c in enumerate(comps) for i in c}
    # records within records
    new = fl.E.zone_of("gvas::properties::Property::new")
    stack0 = entry(fl)
    for name in list(ALL_TYPES) + [None]:
        for hdr in (True, False):
            outs = fl.read_property(name, hdr)
            for o in outs or []:
                for e in events(o, "descend"):
                    if any(comp.get(i) is not None and comp.get(i) == comp.get(e[1]) for i in new):
                        level(fl, f"reading {name or 'another type'}" + (" with header" if hdr else ""), e, stack0, o, counts)
            for o in outs or []:
                silent(fl, f"reading {name or 'another type'}" + (" with header" if hdr else ""), o, counts)
    # texts within texts: every function a nested text may be entered by
    todo, done = [], set()
    for o in fl.try_run("text", "ftext_read") or []:
        todo += [e[1] for e in events(o, "descend")]
    for o in fl.try_run("text history", "fhistory_read") or []:
        todo += [e[1] for e in events(o, "descend")]
    while todo:
        i = todo.pop()
        if i in done or comp.get(i) is None:
            continue
        done.add(i)
        root = f"nested {db.insts[i]['name']}"
        db.root[root] = i
        mine = dict(stack0)
        outs = run_own(fl, root)
        for o in outs or []:
            silent(fl, short(db.insts[i]["def"]), o, counts)
            for e in events(o, "descend"):
                todo.append(e[1])
                if comp.get(e[1]) == comp.get(i):
                    first = {("argument", k): a for k, a in enumerate(fl.entry_args) if is_int(a)}
                    level(fl, short(db.insts[i]["def"]), e, {**mine, **first}, o, counts, e[1] == i)
    rep.coverage.update(counts=counts)
    rep.floor("cycles of reading steps", counts["cycles"], 4)
    rep.floor("functions on cycles", counts["functions on cycles"], 20)
    rep.floor("places where a level begins", counts["levels"], 15)
    return ("Cycles of the call graph of the monomorphised reader. Every cycle passes through reading a record or a text; each of "
            "these is run abstractly from an arbitrary depth, and wherever it begins the next level a count kept by the program "
            "(an argument, an option, the length of the path of names) must be greater than at its own start and bounded by what "
            f"was checked before (at most {LIMIT} levels). Other cycles must not exist.")


def run_own(fl, root):
    """Paths of a function that is itself a nested operation."""
    E, db = fl.E, fl.ctx.db
    st = E.fresh_state()
    _, fl.entry_args = E.args(st, root, {})
    old = E.run

    def run(r, given=None, st=None, own=True, stable=True):
        return old(r, given, st=st, own=False, stable=stable)
    E.run = run
    try:
        return fl.try_run(root, root)
    finally:
        E.run = old


def entry(fl):
    """What the options hold on entering."""
    E = fl.E
    st = E.fresh_options()
    out = {}
    v = E.ip.load(st, ("sym", ("options",)), ())
    for j, n in enumerate(E.options_fields):
        x = E.content(E.ip, st, E.ip.proj(st, v, ("f", 0, j)))
        if is_int(x):
            out[("option", n)] = x
        elif not x or isinstance(x[0], tuple):
            out[("length of", n)] = E.ip.parts_len(st, x)
    return out


def level(fl, what, e, start, o, counts, same=True):
    _, inst, ms, at, fn = e
    rep = fl.rep
    counts["levels"] += 1
    target = short(fl.ctx.db.insts[inst]["def"])
    where = f"{at} in {short(fn)}"
    grown, unsure = [], False
    for name, v, hi in ms:
        if name[0] == "argument" and not same:
            # another function: any argument of it may carry the count on
            olds = [x for k, x in start.items() if k[0] == "argument"]
        else:
            olds = [start[name]] if name in start else []
        for old in olds:
            if opaque(v):
                unsure = True
                continue
            d = o.norm(sub(v, old))
            lo = d if isinstance(d, int) else o.rng(d)[0]
            up = d if isinstance(d, int) else o.rng(d)[1]
            if lo is not None and lo >= 1:
                grown.append((name, v, hi, d == 1))
            elif up is not None and up <= -1:
                unsure = True  # counted down from where it started
    inst = f"{what}: {target} from {short(fn)}"
    if not grown:
        if unsure:
            rep.unknown(GROWS, where, inst, f"{ms!r}"[:200])
        else:
            rep.violation(GROWS, where, inst, f"{what}: {short(fn)} begins another level of {target} without any count growing")
        return
    rep.ok(GROWS, f"{inst}: {' '.join(grown[0][0][:1] + tuple(str(x) for x in grown[0][0][1:]))}")
    tops = [x[2] for x in grown if x[2] is not None and x[2] < 1 << 48]
    if not tops and any(step and excluded(o, v) for _, v, _, step in grown):
        rep.unknown(BOUNDED, where, inst, "one value of the count is excluded; whether it can be passed over is not followed")
        return
    if tops and min(tops) <= LIMIT + 1:
        rep.ok(BOUNDED, f"{inst}: at most {min(tops)}")
    else:
        rep.violation(BOUNDED, where, inst, f"{what}: {short(fn)} begins another level of {target} although its count "
                      + (f"may be as great as {min(tops)}" if tops else "is not bounded"))


def silent(fl, what, o, counts):
    """A value returned without reading anything, depending on how deep it is."""
    if not is_ok(o) or o.cells[("in",)]["fields"]:
        return
    counts["empty"] += 1
    if murky(o):
        fl.rep.unknown(FAILS, "?", what, "conditions not followed")
    elif any(depth_term(k) for n in ("rng", "ge0", "sub") for k in getattr(o.facts, n)):
        fl.rep.violation(FAILS, "?", what, f"{what}: beyond some depth a value is made up without reading anything")
    else:
        fl.rep.ok(FAILS, what)


def depth_term(k):
    t = repr(k)
    return "('options',)" in t or "('arg', 'nested " in t


def excluded(o, v):
    atoms = set(getattr(v, "t", ()))
    return any(atoms & set(getattr(k, "t", ())) for k in o.facts.ne)


def other(fl, g, c, counts):
    """Cycles that do not pass through the operations followed above."""
    db, rep = fl.ctx.db, fl.rep
    rest = [i for i in c if i not in fl.E.zone]
    left = components(rest, lambda i: [j for j in g.next(i) if j in set(rest)])
    if not left:
        rep.ok(ACYCLIC, ", ".join(short(db.insts[i]["def"]) for i in c[:4]))
    for d in left:
        counts["other cycles"] += 1
        names = sorted(short(db.insts[i]["def"]) for i in d if db.insts[i]["crate"] == "gvas")
        where = db.where(db.insts[d[0]]["sp"])
        ints = any(db.types[t]["k"] == "int" for i in d if db.insts[i]["crate"] == "gvas"
                   for t in db.body(i).locals[1:db.body(i).argc + 1])
        if ints or not names:
            rep.unknown(ACYCLIC, where, " -> ".join(names[:4]), "a cycle with a number as argument; not followed")
        else:
            rep.violation(ACYCLIC, where, " -> ".join(names[:4]), f"{' and '.join(names[:4])} call each other without a count of levels")


def reads(db, i):
    inst = db.insts[i]
    if inst["crate"] != "gvas":
        return False
    b = db.body(i)
    return b is not None and any(STREAM.search(db.types[t]["text"]) and "dyn" not in db.types[t]["text"]
                                 for t in b.locals[1:b.argc + 1])


def short(d):
    return re.sub(r"gvas::(properties::)?", "", d or "?")


def components(nodes, succ):
    """Strongly connected components that contain a cycle."""
    index, low, stack, on, out = {}, {}, [], set(), []
    nodes = list(nodes)
    ok = set(nodes)
    memo = {}

    def nexts(v):
        if v not in memo:
            memo[v] = [w for w in succ(v) if w in ok]
        return memo[v]
    for r in nodes:
        if r in index:
            continue
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        work = [(r, iter(nexts(r)))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(nexts(w))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in nexts(v):
                        out.append(c)
    return out

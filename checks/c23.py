"""C23: reading and writing depend on their arguments only."""
import re

from common import CheckError, rel

AMBIENT = "nothing but the arguments is consulted"
GLOBAL = "no global state that can change"
ORDERED = "nothing is enumerated in an arbitrary order"
SHARED = "data can be sent to and shared between threads"
PLAIN = "data changes through exclusive references only"
BORROWED = "writing borrows the value"
CONTROL = "example is reported"

SOURCES = (
    (re.compile(r"^std::time::(Instant|SystemTime)::(now|elapsed)$"), "the clock"),
    (re.compile(r"^std::env::"), "the environment"),
    (re.compile(r"^std::(fs|net|os|process|path::Path::(exists|is_file|is_dir|metadata|canonicalize))\b"), "the operating system"),
    (re.compile(r"^std::io::(stdin|Stdin)"), "standard input"),
    (re.compile(r"^std::thread::(current|park|sleep|spawn|scope|available_parallelism|Builder|ThreadId|panicking)|^std::sync::mpsc::"), "threads"),
    (re.compile(r"^std::thread::LocalKey::"), "thread-local state"),
    (re.compile(r"^(rand|getrandom|fastrand|rand_core|oorandom)::|^std::random::"), "randomness"),
    (re.compile(r"^std::backtrace::|^std::panic::(catch_unwind|take_hook|set_hook)$"), "the state of the process"),
)
# randomly keyed hashing used for its value; tables keep it to themselves
RANDOM_HASH = re.compile(r"RandomState as std::hash::BuildHasher>::(build_hasher|hash_one)$|^std::hash::BuildHasher::(build_hasher|hash_one)$")
ENUMERATE = re.compile(r"^std::collections::Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|"
                       r"extract_if|difference|symmetric_difference|intersection|union)$|"
                       r"^<(&'a (mut )?|&(mut )?)?std::collections::Hash(Map|Set)<.*> as std::iter::IntoIterator>::into_iter$|"
                       r"^<std::collections::Hash(Map|Set)<.*> as std::fmt::Debug>::fmt$")
ADDRESS = re.compile(r"::(addr|expose_provenance|expose_addr)$")
# the order of what was enumerated no longer matters after these
SORT = re.compile(r"::sort(_by|_by_key|_unstable|_unstable_by|_unstable_by_key|_by_cached_key|_keys|_unstable_keys)?$|\bBTree(Map|Set)\b")
WHOLE = re.compile(r"Iterator::(min|max|sum|count|all|any|collect)$")
UNORDERED = re.compile(r"\bhash_(map|set)::|\bHash(Map|Set)<")
# these consult a random key that does not influence what they return
STOP = re.compile(r"RandomState|^std::panicking|^core::panicking|^std::rt::|^std::alloc::|^std::fmt::|^core::fmt::")
DATA = ("GvasFile", "GvasHeader", "Property", "Error", "PropertyOptions", "FText", "Guid")
WRITERS = re.compile(r"(^|::)write(_\w+)?$")


def run(ctx, rep):
    db, items = ctx.db, ctx.items
    g = Graph(db)
    counts = {"functions": 0, "calls": 0, "types": 0, "writers": 0}
    wanted = [r for n, r in db.root.items() if not n.startswith("control_")]
    wanted += [i["id"] for i in db.insts if i["crate"] == "gvas" and i["def"].endswith(" as std::ops::Drop>::drop")]
    reached = g.reach(wanted)
    mine = [i for i in reached if db.insts[i]["crate"] == "gvas"]
    for i in sorted(mine):
        function(g, rep, i, counts)
    controls = {n: r for n, r in db.root.items() if n.startswith("control_")}
    for n, r in sorted(controls.items()):
        if findings(g, r):
            rep.ok(CONTROL, n)
        else:
            raise CheckError(f"the example {n} is not reported")
    types(items, rep, counts)
    writers(items, rep, counts)
    rep.coverage.update(counts=counts, reached=len(reached))
    rep.floor("examples that must be reported", len(controls), 8)
    rep.floor("functions of the crate", counts["functions"], 300)
    rep.floor("calls", counts["calls"], 1500)
    rep.floor("data types", counts["types"], 50)
    rep.floor("functions that write", counts["writers"], 20)
    return ("Call graph of the monomorphised program from every reading and writing entry point: each function of the crate is "
            "inspected for calls (directly or through library code) that consult the clock, the environment, files, threads, "
            "thread-local state or randomness, for statics that can change, for enumeration of randomly keyed hash tables and "
            "for addresses turned into numbers. The compiler answers for every data type whether it is Send, Sync and free of "
            "interior mutability; writing functions must take the value by shared reference.")


class Graph:
    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.facts = {}

    def sites(self, i):
        """[(callee text, resolved definition, instance or None, type arguments, span)] and other facts of a body."""
        f = self.facts.get(i)
        if f is None:
            out, statics, casts = [], [], []
            b = self.db.insts[i]["body"]
            for blk in (b or {"blocks": []})["blocks"]:
                t = blk["t"]
                c = t.get("call")
                if c:
                    inst = c["inst"]
                    d = self.db.insts[inst]["def"] if inst is not None else c["def"]
                    out.append((c["def"], d, inst, c.get("targs") or [], t["sp"]))
                for s in blk["s"]:
                    rv = s.get("rv")
                    if isinstance(rv, dict) and "Cast" in rv and str(rv["Cast"][0]).startswith("PointerExpose"):
                        casts.append(s["sp"])
                pointers(blk["s"], statics)
                pointers(t, statics)
            f = self.facts[i] = (out, statics, casts)
        return f

    def next(self, i):
        out = []
        for _, _, j, targs, _ in self.sites(i)[0]:
            if j is not None:
                out.append(j)
            # functions handed to library code, which may call them
            for t in targs:
                t = self.db.types.get(t) if isinstance(t, int) else None
                if t and t["k"] in ("closure", "fndef") and isinstance(t.get("inst"), int):
                    out.append(t["inst"])
        return out

    def reach(self, roots):
        seen, work = set(roots), list(roots)
        while work:
            for j in self.next(work.pop()):
                if j not in seen:
                    seen.add(j)
                    work.append(j)
        return seen

    def consulted(self, i):
        """What a library function consults, through other library functions: {(what, definition)}."""
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = set()
        out = set()
        inst = self.db.insts[i]
        if not STOP.search(inst["def"]):
            for c, d, j, targs, _ in self.sites(i)[0]:
                out |= self.judge(c, d, j, targs, False)
        self.memo[i] = out
        return out

    def judge(self, c, d, j, targs, direct):
        out = set()
        for name in {c, d}:
            for p, what in SOURCES:
                if p.search(name):
                    out.add((AMBIENT, what, name))
        if ENUMERATE.search(c) or ENUMERATE.search(d):
            text = " ".join(self.db.text(t) for t in targs if isinstance(t, int))
            if j is not None:
                text += " " + self.db.insts[j]["name"]
            if "RandomState" in text or not re.search(r"\bBuildHasherDefault\b|\bHasher", text):
                out.add((ORDERED, "a randomly keyed table is enumerated", d))
        if direct and (RANDOM_HASH.search(d) or RANDOM_HASH.search(c)):
            text = " ".join(self.db.text(t) for t in targs if isinstance(t, int))
            if "RandomState" in text or "RandomState" in d:
                out.add((AMBIENT, "randomness", d))
        if direct and ADDRESS.search(d):
            out.add((AMBIENT, "the address of a value", d))
        if not out and j is not None and self.db.insts[j]["crate"] not in ("gvas", "vroots"):
            out |= self.consulted(j)
        return out


def pointers(x, out):
    if isinstance(x, dict):
        p = x.get("provenance")
        if isinstance(p, dict):
            out.extend(a for _, a in p.get("ptrs", []))
        for v in x.values():
            if isinstance(v, (dict, list)):
                pointers(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                pointers(v, out)


def findings(g, i, counts=None):
    """[(rule, place, what, name, sure)] of one function."""
    db = g.db
    out = []
    sites, statics, casts = g.sites(i)
    for c, d, j, targs, sp in sites:
        if counts is not None:
            counts["calls"] += 1
        for rule, what, name in sorted(g.judge(c, d, j, targs, True)):
            sure = not (rule == ORDERED and any(orderless(db, s) for s in sites))
            out.append((rule, db.where(sp), what, name, sure))
    for sp in casts:
        out.append((AMBIENT, db.where(sp), "the address of a value", "pointer to integer", True))
    for a in sorted(set(statics)):
        s = db.allocs.get(a, {})
        if "static" not in s:
            continue
        u = s["use"]
        if not u["mut"] and not u["thread"] and not u["foreign"] and u["share"][2]:
            continue
        if not u["mut"] and filled_once(g, u, sites):
            continue
        out.append((GLOBAL, db.where(db.insts[i]["sp"]), f"{s['static']}: {u['ty']}", s["static"], True))
    return out


def orderless(db, site):
    """Does this call make something of an enumeration that does not depend on its order?"""
    c, d, _, targs, _ = site
    texts = [db.text(t) for t in targs if isinstance(t, int)]
    if SORT.search(c) or SORT.search(d) or any(SORT.search(t) for t in texts):
        return True
    if not WHOLE.search(c) or not texts or not UNORDERED.search(texts[0]):
        return False
    return not c.endswith("collect") or UNORDERED.search(texts[-1])


def filled_once(g, u, sites):
    """A cell that is filled once by code that takes nothing from the call that happens to come first."""
    if not re.match(r"^(std::sync::|once_cell::sync::)?(LazyLock|OnceLock|Lazy|OnceCell)<", u["ty"]) or not u["held"] or not u["held"][2]:
        return False
    if "Lazy" in u["ty"].split("<")[0]:
        return True
    for c, d, j, targs, _ in sites:
        if re.search(r"Once(Lock|Cell)::<.*>::", d):
            if not d.endswith("::get_or_init"):
                return False
            f = g.db.types[targs[-1]]
            if f["k"] not in ("closure", "fndef") or f["k"] == "closure" and captures(g.db, f):
                return False
    return True


def captures(db, f):
    ups = f.get("up")
    if isinstance(ups, int):
        t = db.types[ups]
        return t["k"] != "tuple" or bool(t["ts"])
    return ups is None or bool(ups)


def function(g, rep, i, counts):
    counts["functions"] += 1
    inst = g.db.insts[i]
    bad = findings(g, i, counts)
    for rule, where, what, name, sure in bad:
        fn = short(inst["def"])
        if not sure:
            rep.unknown(rule, where, fn, f"{what} ({name}), but what is found there is put in order or counted")
            continue
        rep.violation(rule, where, f"{fn}: {name}", f"{fn} consults {what} ({name})" if rule == AMBIENT else f"{fn}: {what} ({name})")
    for rule in (AMBIENT, GLOBAL, ORDERED):
        if not any(b[0] == rule for b in bad):
            rep.ok(rule, f"{inst['name'][:120]}")


def short(d):
    return d.replace("gvas::", "")


def types(items, rep, counts):
    adts = {a["name"]: a for a in items["adts"]}
    names = {a["name"].split("::")[-1] for a in items["adts"]}
    missing = [n for n in DATA if n not in names]
    if missing:
        rep.unknown(SHARED, "-", ", ".join(missing), "type not found")
    # the data types: what is public and everything contained in it
    want, work = set(), [a["name"] for a in items["adts"] if a["pub"]]
    while work:
        n = work.pop()
        if n in want:
            continue
        want.add(n)
        for v in adts[n]["vars"]:
            for f in v["f"]:
                for m in re.findall(r"[A-Za-z_][\w:]*", f["ty"]):
                    if m in adts and m not in want:
                        work.append(m)
    for n in sorted(want):
        a = adts[n]
        counts["types"] += 1
        if a["share"] is None:
            rep.unknown(SHARED, rel(a["at"]), n, "generic over constants")
            continue
        send, sync, freeze = a["share"]
        if send and sync:
            rep.ok(SHARED, n)
        else:
            rep.violation(SHARED, rel(a["at"]), n, f"{n} is not {'Send' if not send else 'Sync'}: {culprit(a)}")
        if freeze:
            rep.ok(PLAIN, n)
        else:
            rep.violation(PLAIN, rel(a["at"]), n, f"{n} can change through a shared reference: {culprit(a)}")


def culprit(a):
    """The fields that look responsible."""
    fs = [f"{f['n']}: {f['ty']}" for v in a["vars"] for f in v["f"]]
    odd = [x for x in fs if re.search(r"\b(Rc|Cell|RefCell|OnceCell|Weak|Mutex\w*|Atomic\w*|OnceLock|LazyLock|NonNull)\b|\*(mut|const)", x)]
    return "; ".join(odd or fs[:4])


def writers(items, rep, counts):
    data = {a["name"] for a in items["adts"]}
    for f in items["fns"]:
        if not WRITERS.search(f["name"]) or not f["sig"] or not f.get("args"):
            continue
        m = re.match(r"(?:for<[^>]*> )?(?:unsafe )?fn\((.*)\)(?: -> .*)?$", f["sig"])
        if not m:
            continue
        counts["writers"] += 1
        bad = [p for p in split(m.group(1)) if re.match(r"&('\w+ )?mut ", p) and
               re.sub(r"^&('\w+ )?mut ", "", p).split("<")[0] in data and "PropertyOptions" not in p]
        if bad:
            rep.violation(BORROWED, rel(f["at"]), f["name"], f"{f['name']} takes {bad[0]}: writing may change the value")
        else:
            rep.ok(BORROWED, f["name"])


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]

"""Reader and writer runs of the analysis engine, shared by the checks about effects."""
import re
import signal
import time
import traceback

from common import CheckError

from analysis import *  # noqa: F401,F403
from interp import Abort

SCALARS = ["Int8Property", "ByteProperty", "Int16Property", "UInt16Property", "IntProperty", "UInt32Property",
           "Int64Property", "UInt64Property", "FloatProperty", "DoubleProperty", "BoolProperty", "EnumProperty",
           "StrProperty", "NameProperty", "ObjectProperty", "DelegateProperty", "MulticastInlineDelegateProperty",
           "MulticastSparseDelegateProperty", "FieldPathProperty"]
CONTAINERS = ["ArrayProperty", "SetProperty", "MapProperty"]
STRUCTS = ["StructProperty"]
TEXTS = ["TextProperty"]
ALL_TYPES = SCALARS + CONTAINERS + STRUCTS + TEXTS
T = ("v", ("arg", "T"))

OPAQUE = {"call", "lost", "last", "app"}


def opaque(x, seen=None):
    """Does a term stem from something the analysis did not follow?"""
    if isinstance(x, Top):
        return True
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in OPAQUE:
            return True
        return any(opaque(y) for y in x)
    if isinstance(x, Lin):
        return any(opaque(a) for a in x.t)
    if isinstance(x, Sym):
        return opaque(x.key)
    if isinstance(x, Str):
        return opaque(x.t)
    if isinstance(x, Seq):
        return opaque(x.parts)
    if isinstance(x, Agg):
        return any(opaque(y) for y in x.f)
    if isinstance(x, Obj):
        return any(opaque(y) for y in x.d.values())
    return False


def lost_track(events):
    """Did something happen to memory or streams that the analysis could not follow?"""
    return any(e[0] in ("stream lost", "lost write") or e[0] == "in loop" and lost_track(e[2]) for e in events)


def murky(st, base=None):
    """Was this path chosen by conditions the analysis did not follow?"""
    for n in st.facts.NAMES:
        old = getattr(base.facts, n) if base is not None else {}
        for k, v in getattr(st.facts, n).items():
            if k not in old and (opaque(k) or n == "sub" and opaque(v) or n in ("seq", "sne") and k[0] == "substr"):
                return True  # (what parts of a string say about all of it is not followed)
    for c in (("in",), ("out",)):
        v = st.cells.get(c)
        old = base.cells.get(c) if base is not None else None
        if v is not None and v is not old and guessed(v["fields"][len(old["fields"]) if old is not None else 0:]):
            return True
    return lost_track(st.events)


def guessed(fields):
    """Is some kind of iteration told apart by a condition the analysis did not follow?"""
    for f in fields:
        if f[0] == "loop":
            for _, d, fs in f[2]:
                if any(opaque(k) or n in ("seq", "sne") and k[0] == "substr" for n, t in d.d.items() for k in t) or guessed(fs):
                    return True
    return False


RUN_SECONDS = 150
ALL_SECONDS = 420
started = time.time()


class deadline:
    """Ends a run of the engine that takes too long; the rule it served stays undecided."""

    def __enter__(self):
        left = min(RUN_SECONDS, ALL_SECONDS - (time.time() - started))
        if left <= 0:
            raise Abort("no time left")
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, left, 0.5)

    def fire(self, *_):
        raise Abort("took too long")

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def engine(ctx):
    try:
        return Engine(ctx.db)
    except LookupError as e:
        raise CheckError(str(e))


class Flow:
    def __init__(self, ctx, rep):
        self.ctx = ctx
        self.rep = rep
        self.E = engine(ctx)
        opts = [a for a in ctx.items["adts"] if a["name"].endswith("properties::PropertyOptions")]
        if len(opts) != 1:
            raise CheckError("the options of property readers and writers were not found")
        self.E.options_fields = [f["n"] for f in opts[0]["vars"][0]["f"]]
        self.ip = self.E.ip
        self.aborted = []

    def try_run(self, what, root, given=None, st=None):
        """Paths of a root, or None when the analysis gave up."""
        if root not in self.ctx.db.root:
            raise CheckError(f"entry point {root} not found")
        try:
            with deadline():
                return self.E.run(root, given, st=st)
        except Abort as e:
            self.aborted.append((what, str(e)))
            self.rep.unknown("analysis", root, what, str(e))
            return None
        except Exception as e:
            at = traceback.extract_tb(e.__traceback__)[-1]
            why = f"{type(e).__name__} at {at.name}:{at.lineno}: {e}"
            self.aborted.append((what, why))
            self.rep.unknown("analysis", root, what, why)
            return None

    def read_property(self, name, hdr):
        """Accepted paths of reading a record of a named type (None: any type not in ALL_TYPES)."""
        outs = self.try_run(f"read {name or 'other'}" + (" with header" if hdr else ""), "property_new",
                            {1: Str(name if name is not None else T), 2: hdr})
        if outs is None:
            return None
        if name is None:
            outs = [o for o in outs if o.str_norm(T) not in ALL_TYPES]
        return outs

    def write_back(self, o, root, given):
        """Paths of writing the value a reading path returned."""
        s = o.clone()
        s.cells[("val",)] = o.ret.f[0]
        s.ret = None
        g = dict(given)
        g[0] = Ref(("val",))
        return self.try_run("write back", root, g, st=s)

    def locate(self, *fields):
        out = []
        for f in fields:
            for l, fn in self.ip.field_locs.get(f, [])[:2]:
                t = f"{l} in {fn}"
                if t not in out:
                    out.append(t)
        return "; ".join(out[:3]) or "?"

    def where(self, root):
        """The library function an entry point forwards to."""
        db = self.ctx.db
        todo, seen = [db.root[root]], set()
        while todo:
            i = todo.pop(0)
            if i in seen:
                continue
            seen.add(i)
            inst = db.insts[i]
            if inst["crate"] == "gvas":
                return f"{db.where(inst['sp'])} in {inst['name']}"
            b = db.body(i)
            for bb in b.blocks if b else ():
                c = bb["t"].get("call") if isinstance(bb["t"], dict) else None
                if c and c.get("inst") is not None:
                    todo.append(c["inst"])
        return root

    def coverage(self):
        self.rep.coverage["analysis"] = dict(self.E.stats, unmodelled=dict(list(self.ip.unmodelled.items())[:20]))


def round_trip(fl, what, outs, write, given, prefix, rule="rewritten as read", expect=None):
    """Compare what is written with what was read, on every accepted path; number of accepted paths."""
    rep = fl.rep
    n = 0
    for o in outs or []:
        if not is_ok(o):
            continue
        n += 1
        ws = fl.write_back(o, write, given)
        if ws is None:
            continue
        read = expect(o) if expect else o.cells[("in",)]["fields"]
        for w in ws:
            judge(fl, what, o, w, prefix + read, rule)
    return n


def judge(fl, what, o, w, want, rule):
    rep = fl.rep
    if not is_ok(w):
        if murky(w, o) or opaque(w.ret):
            rep.unknown(rule, "?", what, "a refusal the analysis can not judge")
            return False
        rep.violation(rule, refusal(w), f"{what}: refused",
                      f"a value accepted on reading ({describe(o)}) is refused on writing")
        return False
    got = w.cells[("out",)]["fields"]
    m = compare(w, want, got)
    if m is None:
        rep.ok(rule, f"{what}: {len(got)} fields, e.g. " + ", ".join(brief(f) for f in got[:6])[:300])
        return True
    where = fl.locate(m.a, m.b)
    if isinstance(m, Unknown) or opaque(m.a) or opaque(m.b) or murky(w, o):
        rep.unknown(rule, where, what, repr(m)[:300])
        return False
    rep.violation(rule, where, f"{what}: {m.what}", f"{m!r}"[:500] + f" ({describe(o)})")
    return False


def refusal(w):
    return "; ".join(str(n) for n in w.notes[-1:]) or "writer"


def describe(o):
    """The conditions of a path, briefly."""
    fs = []
    for k, v in list(o.facts.seq.items())[:6]:
        fs.append(f"{fmt_key(k)} = {v!r}")
    for k, v in list(o.facts.var.items())[:6]:
        fs.append(f"{fmt_key(k)} is variant {v}")
    for k, v in list(o.facts.sub.items())[:6]:
        fs.append(f"{fmt_key(k)} = {v!r}")
    return "on the path with " + ", ".join(fs)[:300] if fs else "on every path"


def properties(fl, names, other, rule="rewritten as read"):
    """Round trip of property records; returns accepted paths per type."""
    counts = {}
    for hdr in (True, False):
        for name in names + ([None] if other else []):
            what = f"{name or 'other type'} {'with' if hdr else 'without'} header"
            outs = fl.read_property(name, hdr)
            pre = (("fstr", ("some", name if name is not None else T)),) if hdr else ()
            counts[what] = round_trip(fl, what, outs, "property_write", {2: hdr}, pre, rule)
    fl.rep.coverage["accepted paths per type"] = counts
    return counts


def events(o, *kinds):
    """Events of a path, those inside loops included."""
    def walk(evs):
        for e in evs:
            if e[0] == "in loop":
                yield from walk(e[2])
            elif e[0] in kinds:
                yield e
    return walk(o.events)


def runs_of(fields):
    """Every straight run of consumed fields: the outer one and one per loop alternative."""
    yield fields
    for f in fields:
        if f[0] == "loop":
            for alt in f[2]:
                yield from runs_of(alt[-1] if isinstance(alt[-1], tuple) else ())


def variant(ctx, adt, name):
    """Index of a named variant."""
    for a in ctx.items["adts"]:
        if a["name"] == adt or a["name"].endswith("::" + adt):
            for i, v in enumerate(a["vars"]):
                if v["n"] == name:
                    return i
    raise CheckError(f"variant {adt}::{name} not found")


def variant_name(ctx, adt, i):
    for a in ctx.items["adts"]:
        if a["name"] == adt or a["name"].endswith("::" + adt):
            return a["vars"][i]["n"]
    raise CheckError(f"type {adt} not found")


def find_aggs(db, x, adt, out=None):
    """Values of a type inside a value."""
    out = [] if out is None else out
    if isinstance(x, Agg):
        if x.ty is not None and (db.adt_name(x.ty) or "").endswith(adt):
            out.append(x)
        for y in x.f:
            find_aggs(db, y, adt, out)
    elif isinstance(x, Seq):
        find_aggs(db, x.parts, adt, out)
    elif isinstance(x, tuple):
        for y in x:
            find_aggs(db, y, adt, out)
    return out

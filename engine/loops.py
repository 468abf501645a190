"""Loop summaries: unrolling when the iterator decides, otherwise a fixpoint over changed slots."""
from fields import size
from state import *
from vals import *

MAX_UNROLL = 80


class NeedGeneric(Exception):
    """An iterator was advanced whose next element is not known individually."""

    def __init__(self, cell, path):
        self.cell = cell
        self.path = path


class Phi:
    __slots__ = ("sid", "cell", "path", "init", "kind", "val", "ty", "atom")


# ---- substitution -----------------------------------------------------------------------------
class Subst:
    """Rewrites values: atoms, spliced parts/fields and memory cells."""

    def __init__(self, atoms=None, splice=None, cells=None):
        self.atoms = atoms or {}
        self.splice = splice or {}
        self.cells = cells or {}
        self.memo = {}

    def empty(self):
        return not (self.atoms or self.splice or self.cells)

    def lin(self, v):
        out = v.c
        changed = False
        for a, k in v.t.items():
            n = self.at(a)
            if n is not a:
                changed = True
            out = add(out, scale(n if not isinstance(n, tuple) else atom(n), k))
        return out if changed else v

    def at(self, a):
        """Rewritten atom: the atom itself, another atom (tuple) or a Lin/int."""
        if a in self.atoms:
            return self.atoms[a]
        if isinstance(a, tuple):
            n = self.tup(a)
            return a if n == a else n
        return a

    def tup(self, x):
        out = []
        for e in x:
            if isinstance(e, tuple) and e in self.splice and not (x and x[0] in ("len", "phisize")):
                out.extend(self.splice[e])
            else:
                out.append(self.val(e))
        return tuple(out)

    def val(self, v):
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        k = id(v)
        m = self.memo.get(k)
        if m is not None:
            return m[1]
        r = self.val0(v)
        self.memo[k] = (v, r)
        return r

    def val0(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if isinstance(v, tuple):
            if v in self.atoms:  # boolean or string term used directly
                r = self.atoms[v]
                return r
            return self.tup(v)
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, tuple(self.val(x) for x in v.f))
        if isinstance(v, Seq):
            return Seq(self.tup(v.parts), v.map)
        if isinstance(v, Ref):
            c = self.cells.get(v.cell)
            if c is None:
                p = self.val(v.path)
                return v if p == v.path else Ref(v.cell, p)
            return Ref(c, self.val(v.path))
        if isinstance(v, Str):
            return Str(self.val(v.t))
        if isinstance(v, Sym):
            return Sym(self.val(v.key), v.ty)
        if isinstance(v, Obj):
            return v.with_(**{k: self.val(x) for k, x in v.d.items()})
        if isinstance(v, Delta):
            return self.delta(v)
        return v

    def delta(self, d):
        out = {}
        for n, x in d.d.items():
            y = {}
            for k, v in x.items():
                k2 = self.at(k) if n in ("sub", "rng") else self.val(k)
                if n in ("sub", "rng") and not isinstance(k2, tuple):
                    continue
                if n in ("ge0", "ne") and not isinstance(k2, Lin):
                    continue
                if n == "bt" and isinstance(k2, bool):
                    continue
                y[k2] = self.val(v) if n in ("sub", "seq") else v
            if y:
                out[n] = y
        return Delta(out)


def mentions(x, loop):
    """Does a term mention a slot of this loop?"""
    if isinstance(x, Lin):
        return any(mentions(a, loop) for a in x.t)
    if isinstance(x, tuple):
        if len(x) >= 3 and x[0] in ("phi", "phisize") and x[1] == loop:
            return True
        return any(mentions(a, loop) for a in x)
    if isinstance(x, Agg):
        return any(mentions(a, loop) for a in x.f)
    if isinstance(x, Seq):
        return mentions(x.parts, loop)
    if isinstance(x, Str):
        return mentions(x.t, loop)
    if isinstance(x, Sym):
        return mentions(x.key, loop)
    if isinstance(x, Obj):
        return any(mentions(v, loop) for v in x.d.values())
    return False


# ---- driver -----------------------------------------------------------------------------------
def summarise(ip, st, run_iter, name):
    """Run a loop; returns the states after it."""
    from interp import Abort
    st, run_iter = rotated(ip, st, ending(ip, run_iter))
    conc0 = len([n for n in st.notes if n[0] == "conc"])
    exits = []
    work = [(st, 0)]
    total = 0
    while work:
        s, k = work.pop()
        total += 1
        if total > 3000:
            raise Abort(f"loop {name}")
        for tag, x in advance(ip, s, run_iter, name, k):
            if x.dead:
                continue
            if tag == "back":
                work.append((x, k + 1))
            else:
                exits.append(x)
    for x in exits:
        conc = 0
        keep = []
        for n in x.notes:
            if n[0] == "conc":
                conc += 1
                if conc > conc0:
                    continue
            keep.append(n)
        x.notes = tuple(keep)
    return exits


def last_string(st):
    """(input, term) of strings that were the last thing read from an input."""
    for c, v in st.cells.items():
        if isinstance(v, Obj) and v.kind == "in" and v.get("replay") is None and not v.get("again") and v["fields"]:
            f = v["fields"][-1]
            if f[0] == "fstr" and f[1][0] == "some":
                yield c, f[1][1]


def switched(v, w):
    """Was a flag set, or a value replaced by one of another kind?"""
    if isinstance(v, bool) or isinstance(w, bool):
        return isinstance(v, bool) and isinstance(w, bool) and v != w
    if isinstance(v, Agg) and isinstance(w, Agg):
        return v.ty == w.ty and (v.var != w.var or len(v.f) == len(w.f) <= 16 and any(switched(a, b) for a, b in zip(v.f, w.f)))
    return False


def ending(ip, run_iter):
    """An iteration after which the loop ends, by a flag it set, leaves the loop."""
    def run(x):
        fid = x.frames[-1].fid if x.frames else None
        start = {c: v for c, v in x.cells.items() if c[0] == fid and isinstance(v, (bool, Agg))}
        out = []
        for tag, y in run_iter(x):
            if tag == "back" and not y.dead and any(switched(v, y.cells.get(c)) for c, v in start.items()):
                np, outer, ip.decisions = len(ip.panics), ip.decisions, None
                ip.quiet += 1
                try:
                    res = run_iter(y.clone())
                except NeedGeneric:
                    res = [("back", None)]
                finally:
                    ip.quiet -= 1
                    ip.decisions = outer
                    del ip.panics[np:]
                if res and all(t != "back" for t, _ in res) and all(streams(z) == streams(y) for _, z in res if not z.dead):
                    out += res
                    continue
            out.append((tag, y))
        return out
    return run


def streams(st):
    return {c: v["fields"] for c, v in st.cells.items() if isinstance(v, Obj) and v.kind in ("in", "out")}


def named(v, t):
    """Does a value hold this string?"""
    return v.t == t if isinstance(v, Str) else isinstance(v, Agg) and any(named(x, t) for x in v.f)


def rotated(ip, st, run_iter):
    """A loop entered with a string read ahead that reads the next one at the end of each iteration is the loop that
    reads the string at the beginning."""
    fid = st.frames[-1].fid if st.frames else None
    found = [(i, t, [c for c, v in st.cells.items() if c[0] == fid and isinstance(v, (Str, Agg)) and named(v, t)])
             for i, t in last_string(st) if t not in st.facts.seq]
    found = [x for x in found if x[2]]
    if len(found) != 1:
        return st, run_iter
    inp, t0, slots = found[0]
    np, outer, ip.decisions = len(ip.panics), ip.decisions, None
    ip.quiet += 1
    ip.loop_stack.append(st.cells)
    try:
        res = run_iter(st.clone())
    except NeedGeneric:
        return st, run_iter
    finally:
        ip.loop_stack.pop()
        ip.quiet -= 1
        ip.decisions = outer
        del ip.panics[np:]
    backs = [y for tag, y in res if tag == "back" and not y.dead]
    for y in backs:
        t = dict(last_string(y)).get(inp)
        slots = [c for c in slots if t is not None and t != t0 and y.cells.get(c) == Subst({t0: t}).val(st.cells[c])]
    if not backs or not slots:
        return st, run_iter
    s = st.clone()
    mark = ("v", ("read ahead", s.fresh()))
    lost = Subst({t0: ("?", "first of a loop")})
    for c, v in list(s.cells.items()):
        if c in slots:
            s.cells[c] = Subst({t0: mark}).val(v)
        elif c == inp:
            s.cells[c] = v.with_(fields=v["fields"][:-1])
        elif c[0] == fid:
            s.cells[c] = lost.val(v)
    s.facts.sne.pop(t0, None)

    def first(x):
        t = ("v", ("r", x.fresh()))
        f = ("fstr", ("some", t))
        if ("fstr", ("some", t0)) in ip.field_locs:
            ip.field_locs[f] = ip.field_locs[("fstr", ("some", t0))]
        x.cells[inp] = x.cells[inp].with_(fields=x.cells[inp]["fields"] + (f,))
        for c in slots:
            x.cells[c] = Subst({mark: t}).val(s.cells[c])
        cs = ()
        if t0 in ip.site_of:
            ip.site_of[t] = ip.site_of[t0]
            cs = ip.str_sites.get(ip.site_of[t0], ())
        out = []
        for k in cs:
            y = x.clone()
            if y.assume(("streq", t, k), True):
                out.append(y)
        if all([x.assume(("streq", t, k), False) for k in cs]):
            out.append(x)
        return out

    def run(x):
        res, ends = [], []
        for y in first(x):
            for tag, z in run_iter(y):
                if tag != "back":
                    res.append((tag, z))
                    continue
                t = dict(last_string(z)).get(inp)
                if t is None or any(z.cells.get(c) != Subst({mark: t}).val(s.cells[c]) for c in slots):
                    z.event("unmodelled", "string read ahead")
                else:
                    z.cells[inp] = z.cells[inp].with_(fields=z.cells[inp]["fields"][:-1])
                    given = z.facts.seq.pop(t, None)
                    z.facts.sne.pop(t, None)
                    if given is not None:
                        ends.append(z)
                        for c in slots:
                            z.cells[c] = s.cells[c]
                        continue
                for c in slots:
                    z.cells[c] = s.cells[c]
                res.append((tag, z))
        # the next string being one of those looked for makes no difference before it is looked at
        for z in ends:
            if not any(tag == "back" and w.cells == z.cells for tag, w in res):
                res.append(("back", z))
        return res
    return s, run


def advance(ip, s, run_iter, name, k):
    conc0 = sum(1 for n in s.notes if n[0] == "conc")
    np = len(ip.panics)
    t = s.clone()
    ip.loop_stack.append(s.cells)
    try:
        res = run_iter(t)
        need = None
    except NeedGeneric as e:
        need = e
    finally:
        ip.loop_stack.pop()
    if need is not None:
        if need.cell not in s.cells:
            raise need
        del ip.panics[np:]
        return generic(ip, s, run_iter, (need.cell, need.path), name)
    tags = {tag for tag, _ in res}
    decided = any(sum(1 for n in x.notes if n[0] == "conc") > conc0 for _, x in res)
    listed = replayed(ip, s, None) is not None and any(
        e[0] == "replay mismatch" for _, x in res for e in x.events[len(s.events):])
    if decided or (len(tags) <= 1 and k < MAX_UNROLL and not listed):
        return res
    del ip.panics[np:]
    return generic(ip, s, run_iter, None, name)


def feeds_of(ip, s, slot):
    """(loop id, [(label, facts, iterator for one iteration)], iterator afterwards, count)"""
    it = ip.load(s, *slot)
    return feeds(ip, s, it)


def with_ops(it, L, parts, kind):
    ops = tuple(("enumerate", atom(("idx", L))) if o[0] == "enumerate" and not isinstance(o[1], Lin)
                and o[1] == 0 else o for o in it["ops"])
    return Obj("iter", base=("seq", parts, kind), ops=ops)


def feeds(ip, s, it):
    b = it["base"]
    if b[0] == "range":
        lo, hi = s.norm(b[1]), s.norm(b[2])
        n = s.norm(sub(hi, lo))
        L = None
        if isinstance(n, Lin) and len(n.t) == 1 and n.c == 0:
            (a, k), = n.t.items()
            if k == 1 and a[0] == "n":
                L = a[1]
        if L is None:
            L = ("L", s.fresh())
            if not s.nonneg(n):
                n = atom(("max0", n))
            s.facts.sub[("n", L)] = n
        idx = atom(("idx", L))
        d = NODELTA
        gen = with_ops(it, L, (("one", add(lo, idx)),), "val")
        return L, [(None, d, gen)], with_ops(it, L, (), "val"), n
    if b[0] == "zip":
        L, fs, rest, n = feeds(ip, s, b[1])
        L2, fs2, rest2, n2 = feeds(ip, s, b[2])
        out = []
        for lab, d, g in fs:
            for lab2, d2, g2 in fs2:
                if L2 == L and lab != lab2:
                    continue
                out.append((lab, d.merged(d2), Obj("iter", base=("zip", g, g2), ops=it["ops"])))
        return L, out, Obj("iter", base=("zip", rest, rest2), ops=it["ops"]), n
    if b[0] == "chain":
        L, fs, rest, n = feeds(ip, s, b[1])
        return (L, [(lab, d, g) for lab, d, g in fs],
                Obj("iter", base=("chain", rest, b[2]), ops=it["ops"]), n)
    parts, kind = b[1], b[2]
    p, rest = parts[0], parts[1:]
    r = with_ops(it, None, rest, kind)
    k = p[0]
    if k == "sym":
        L = ("S", p[1])
        if isinstance(p[2], tuple):
            e = Agg(None, 0, (ip.mk(s, ("el", p[1], "k"), p[2][0]), ip.mk(s, ("el", p[1], "v"), p[2][1])))
            ip.map_keys[L] = e.f[0]
        else:
            e = ip.mk(s, ("el", p[1]), p[2])
        return L, [(None, NODELTA, with_ops(it, L, (("one", e),), kind))], r, atom(("n", L))
    if k == "loop":
        L = p[1]
        live = [a for a in p[2] if s.norm(atom(("cnt", L, a[0]))) != 0] or p[2]
        return L, [(j, d, with_ops(it, L, ps, kind)) for j, d, ps in live], r, atom(("n", L))
    if k == "gloop":
        L0 = p[1]
        L = ("G", L0)
        key = Str(("gk", L0))
        common = None
        for _, d, (kj, _) in p[2]:
            ex = excluded(d, kj.t)
            common = ex if common is None else common.meet(ex)
        d = NODELTA
        if common is not None and common.names:
            d = Delta({"sne": {("gk", L0): frozenset(common.names)}})
        e = Agg(None, 0, (key, Seq((("gvals", L0, p[2]),))))
        return L, [(None, d, with_ops(it, L, (("one", e),), kind))], r, atom(("n", L))
    if k == "gvals":
        L0 = p[1]
        L = ("GI", L0)
        out = []
        for j, d, (kj, vj) in p[2]:
            d2 = d.merged(Delta({"seq": {("gk", L0): kj.t}}))
            out.append((j, d2, with_ops(it, L, (("one", vj),), kind)))
        return L, out, r, atom(("n", L))
    if k in ("bytes", "u16"):
        L = ("B", p[1])
        e = atom(("v", ("byte", p[1], "*"), 8 if k == "bytes" else 16, False))
        if p[2] != atom(("n", L)):
            s.facts.sub[("n", L)] = p[2]
        return L, [(None, NODELTA, with_ops(it, L, (("one", e),), kind))], r, p[2]
    if k == "chunks":
        L = ("B", p[1])
        if s.norm(s.facts.sub.get(("n", L), p[2])) == s.norm(p[2]):
            e = atom(("v", ("byte", p[1], "*"), 8 * p[3], False))
            e = Agg(None, 0, tuple(ip.byteof(e, i, p[3]) for i in range(p[3])))
            s.facts.sub[("n", L)] = p[2]
            return L, [(None, NODELTA, with_ops(it, L, (("one", e),), kind))], r, p[2]
    if k == "rep":
        L = ("L", s.fresh())
        s.facts.sub[("n", L)] = p[2]
        return L, [(None, NODELTA, with_ops(it, L, (("one", p[1]),), kind))], r, p[2]
    L = ("L", s.fresh())
    if k in ("over", "gpush"):
        s.event("lossy", k)
    return L, [(None, NODELTA, with_ops(it, L, (("one", Top("element of " + k)),), kind))], r, atom(("n", L))


class excluded:
    """Constants a string term is known to differ from: given names, or all but one."""

    def __init__(self, d, t):
        self.only = None
        self.names = set()
        if isinstance(t, str):
            self.only = t
            return
        c = d.d.get("seq", {}).get(t)
        if isinstance(c, str):
            self.only = c
        self.names = set(d.d.get("sne", {}).get(t, ()))

    def has(self, x):
        return x != self.only if self.only is not None else x in self.names

    def meet(self, o):
        r = excluded.__new__(excluded)
        r.only = None
        r.names = {x for x in self.names | o.names if self.has(x) and o.has(x)}
        return r


def iter_empty(it):
    b = it["base"]
    if b[0] == "seq":
        return not b[1]
    if b[0] == "zip":
        return iter_empty(b[1]) or iter_empty(b[2])
    if b[0] == "chain":
        return iter_empty(b[1])
    return False


def drive(ip, x, run_iter, slot, name):
    """Run iterations until the elements given to the iterator are used up (or once)."""
    from interp import Abort
    out = []
    work = [(x, 0)]
    while work:
        s, k = work.pop()
        if slot is not None:
            it = ip.load(s, *slot)
            if not isinstance(it, Obj) or it.kind != "iter":
                out.append(("exit", s))
                continue
            if iter_empty(it):
                out.append(("back", s))
                continue
            if k > 50:
                raise Abort(f"loop {name}")
            for tag, y in advance_in(ip, s, run_iter, name):
                if y.dead:
                    continue
                if tag == "back":
                    work.append((y, k + 1))
                else:
                    out.append((tag, y))
        else:
            for tag, y in advance_in(ip, s, run_iter, name, once=True):
                if not y.dead:
                    out.append((tag, y))
    return out


def advance_in(ip, s, run_iter, name, once=False):
    t = s.clone()
    ip.loop_stack.append(s.cells)
    try:
        return run_iter(t)
    except NeedGeneric as e:
        need = e
    finally:
        ip.loop_stack.pop()
    if need.cell not in s.cells:
        raise need
    return generic(ip, s, run_iter, (need.cell, need.path), name)


def diff(a, b, path, taken, out):
    """Paths at which two values differ, not looking below slots already known."""
    if a is b or path in taken:
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f) and len(a.f) <= 64:
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            if x is not y:
                diff(x, y, path + (("f", a.var, i),), taken, out)
        return
    if a != b:
        out.append((path, a, b))


def kept(o):
    """What a loop must leave as it is in a stream for its reads or writes to be summed up."""
    return {k: v for k, v in o.d.items() if k not in ("fields", "ahead") and v is not None and v != ()}


def make_phi(ip, s, L, sid, cell, path, init, back):
    p = Phi()
    p.sid, p.cell, p.path, p.init = sid, cell, path, init
    p.ty = None
    p.atom = None
    ty = slot_type(ip, s, cell, path)
    if is_int(init) and is_int(back):
        t = ip.db.types.get(ty) if ty is not None else None
        bits, signed = (t["bits"], t["signed"]) if t is not None and t["k"] == "int" else (None, None)
        p.atom = ("phi", L, sid, bits, signed)
        p.kind, p.val = "int", atom(p.atom)
    elif isinstance(init, Seq) and isinstance(back, Seq):
        p.kind = "seq"
        p.val = Seq((("phi", L, sid),), init.map)
    elif isinstance(init, Obj) and isinstance(back, Obj) and init.kind == back.kind and init.kind in ("in", "out") \
            and kept(init) == kept(back):
        p.kind = "stream"
        if init.get("ahead") is None and back.get("ahead") is not None:
            p.init = init = init.with_(ahead=back["ahead"])
        p.val = init.with_(fields=(("phi", L, sid),))
    elif isinstance(init, (bool, tuple)) and isinstance(back, (bool, tuple)):
        p.kind = "bool"
        p.val = ("bv", ("phi", L, sid))
    elif isinstance(init, Str) and isinstance(back, Str):
        p.kind = "str"
        p.val = Str(("v", ("phi", L, sid)))
    else:
        p.kind = "opaque"
        t = ty
        if t is None:
            for v in (init, back):
                if isinstance(v, (Agg, Sym)) and v.ty is not None:
                    t = v.ty
        p.ty = t
        if t is None or isinstance(init, Obj) or isinstance(back, Obj) or isinstance(back, Ref):
            p.val = Top("loop value")
            p.ty = None
        else:
            p.val = ip.mk(s, ("phi", L, sid), t)
    return p


def slot_type(ip, s, cell, path):
    for fr in s.frames:
        if cell[0] == fr.fid and len(cell) == 2:
            ty = fr.body.locals[cell[1]]
            for q in path:
                if ty is None:
                    return None
                if q[0] != "f":
                    return None
                ts = ip.field_types(ty, q[1])
                ty = ts[q[2]] if ts is not None and q[2] < len(ts) else None
            return ty
    return None


def generic(ip, s, run_iter, slot, name):
    from interp import Abort
    if slot is not None:
        it = ip.load(s, *slot)
        if not isinstance(it, Obj) or it.kind != "iter":
            raise Abort(f"iterator of {name}")
        L, fds, rest, count = feeds(ip, s, it)
        count = s.norm(count)
    else:
        L = ("L", s.fresh())
        fds, rest, count = [(None, NODELTA, None)], None, None
    given = replayed(ip, s, count)
    if slot is None and given is not None:
        if reads_elements(ip, s, run_iter, given, name):
            L = given[4]
        else:
            given = None
    if slot is not None and count == 0:
        e = s.clone()
        ip.store(e, slot[0], slot[1], rest)
        return [("back", e)]
    S = s.clone()
    if slot is not None:
        if not S.assume_ge0(add(atom(("n", L)), -1)):
            e = s.clone()
            ip.store(e, slot[0], slot[1], rest)
            return [("back", e)]
        S.facts.rng[("idx", L)] = (0, BIG)
        S.assume_ge0(sub(add(count, -1), atom(("idx", L))))
    if given is not None:
        fds = [(lab, d.merged(NODELTA), g, fs) for _, _, g in fds for lab, d, fs in given[2]]
    phis = {}
    order = []
    backs = exits = None
    np = None

    def run_all(base, n0):
        """One generic iteration from every feed."""
        bs, es = [], []
        for lab, d, g, *fs in fds:
            x = base.clone()
            x.n = n0
            x.facts.add(d)
            if fs:
                if given[3] is not None:
                    x.vars[("src", L)] = given[3]
                x.cells[given[0]] = x.cells[given[0]].with_(replay=fs[0] + (("end",),))
            if slot is not None:
                ip.store(x, slot[0], slot[1], g)
                k = source_key(ip, x, g)
                if k is not None:
                    x.vars[("src", L)] = k
            got = drive(ip, x, run_iter, slot, name)
            for tag, y in got if fs else ():
                if not isinstance(y.cells[given[0]], Obj):
                    y.event("replay mismatch", "stream not followed")
                    continue
                left = y.cells[given[0]].get("replay")
                if tag == "back":
                    if left != (("end",),):
                        y.event("replay mismatch", "another part of the element is read")
                    y.cells[given[0]] = y.cells[given[0]].with_(replay=given[1])
                elif slot is None and left == (("end",),):
                    y.cells[given[0]] = y.cells[given[0]].with_(replay=given[1][1:])
                elif slot is None and left == fs[0] + (("end",),):
                    y.dead = True  # left without looking at an element: see below
            got = [g for g in got if not g[1].dead]
            b = [y for tag, y in got if tag == "back"]
            es += [(lab, y) for tag, y in got if tag != "back"]
            for i, y in enumerate(b):
                if lab is None:
                    bs.append((len(bs), y))
                else:
                    bs.append((lab if len(b) == 1 else ("s", lab, i), y))
        if slot is None and given is not None:
            # what comes when all elements have been read
            x = base.clone()
            x.n = n0
            x.cells[given[0]] = x.cells[given[0]].with_(replay=given[1][1:])
            es += [("end", y) for tag, y in drive(ip, x, run_iter, None, name) if tag != "back"]
        return bs, es

    outer, ip.decisions = ip.decisions, []
    ranged = bounded = False
    for rounds in range(14):
        ip.quiet += 1
        p0 = ip.pcount
        try:
            backs, exits = run_all(S, S.n)
        finally:
            ip.quiet -= 1
        np = ip.pcount - p0
        new = []
        for _, y in backs:
            for cell, v in S.cells.items():
                w = y.cells.get(cell)
                if w is None or w is v:
                    continue
                taken = {p for (c, p) in phis if c == cell}
                if slot is not None and cell == slot[0]:
                    taken = taken | {slot[1]}
                out = []
                diff(v, w, (), taken, out)
                for path, a, b in out:
                    if (cell, path) not in phis and (cell, path) not in [n[:2] for n in new]:
                        new.append((cell, path, a, b))
        if new:
            for cell, path, a, b in new:
                # a slot above existing ones replaces them
                for c, p in list(phis):
                    if c == cell and p[:len(path)] == path:
                        order.remove(phis.pop((c, p)))
                ph = make_phi(ip, s, L, len(order) + 100 * rounds, cell, path, ip.load(s, cell, path), b)
                phis[(cell, path)] = ph
                if ph.kind == "seq":
                    ip.key_shapes.pop(("phi", L, ph.sid), None)
                    ip.empty_phis.discard(("phi", L, ph.sid))
                    if not ph.init.parts:
                        ip.empty_phis.add(("phi", L, ph.sid))
                order.append(ph)
                ip.store(S, cell, path, ph.val)
            continue
        if not ranged:
            ranged = True
            again = False
            for ph in order:
                if ph.kind == "int":
                    ds = [deltas(ip, y, ph, L) for _, y in backs]
                    lo, hi = s.rng(ph.init)
                    if all(d is not None for d in ds):
                        if all((y.rng(d)[0] or 0) >= 0 and y.rng(d)[0] is not None
                               for d, (_, y) in zip(ds, backs)) and lo is not None:
                            wide = ph.atom[3] in (64, None)
                            S.facts.rng[ph.atom] = (lo, 1 << 60 if wide else None)
                            again = True
                        elif all(y.rng(d)[1] is not None and y.rng(d)[1] <= 0
                                 for d, (_, y) in zip(ds, backs)) and hi is not None:
                            S.facts.rng[ph.atom] = (None, hi)
                            again = True
                elif ph.kind == "opaque" and isinstance(ph.val, Sym):
                    pass
            if again:
                continue
        if slot is None and not bounded:
            bounded = True
            if bound_counters(ip, s, S, order, backs, ip.decisions, L):
                continue
        break
    else:
        ip.decisions = outer
        raise Abort(f"no fixpoint for loop {name}")

    log, ip.decisions = ip.decisions, outer
    if outer is not None:
        outer += log
    b = invariant_choice(s, S, log, backs, fds, L)
    if b is not None:
        # the iterations differ by a condition that does not change: decide it before the loop
        results = []
        if outer is not None:
            outer.append(b)
        for truth in (True, False):
            x = s.clone()
            if x.assume(b, truth):
                results += generic(ip, x, run_iter, slot, name)
        return results

    nmax = max([y.n for _, y in backs] + [y.n for _, y in exits] + [S.n]) + 1

    # --- summaries -----------------------------------------------------------------------------
    inside = {}
    for ph in order:
        if ph.kind == "int":
            ds = [deltas(ip, y, ph, L) for _, y in backs]
            if ds and all(isinstance(d, int) for d in ds) and len(set(ds)) == 1:
                inside[ph.atom] = add(ph.init, scale(atom(("idx", L)), ds[0]))
        if ph.kind == "seq":
            app = [appended(y, ph, L) for _, y in backs]
            if app and all(a is not None and len(a) == 1 and a[0][0] == "one" for a in app):
                n0 = ip.seq_len(s, ph.init)
                if not isinstance(n0, Top):
                    inside[("len", ("phi", L, ph.sid))] = add(n0, atom(("idx", L)))
    extra = {}
    alts = []
    for lab, y in backs:
        cm = {}
        for c in y.cells:
            if c not in S.cells and not (isinstance(c[0], int)):
                cm[c] = ("lc", L, lab, c)
        sb = Subst(inside, None, cm)
        for c, n in cm.items():
            extra[n] = sb.val(y.cells[c])
        alts.append((lab, y, sb, sb.delta(y.facts.delta(S.facts))))

    def summary(Lx):
        atoms, splice, vals, lost = {}, {}, {}, []
        for ph in order:
            if ph.kind == "int":
                ds = [deltas(ip, y, ph, L) for _, y, _, _ in alts]
                if ds and all(d is not None for d in ds):
                    if Lx == L or all(isinstance(d, int) for d in ds):
                        tot = mk_sum(Lx, tuple((lab, d) for (lab, _, _, _), d in zip(alts, ds)))
                    else:
                        tot = mk_sum(Lx, tuple((lab, d) for (lab, _, _, _), d in zip(alts, ds)))
                    vals[ph] = add(ph.init, tot)
                else:
                    vals[ph] = atom(("last", Lx, ph.sid)) if ph.atom[3] is None else \
                        atom(("v", ("last", Lx, ph.sid), ph.atom[3], ph.atom[4]))
                    if alts:
                        lost.append(ph)
                atoms[ph.atom] = vals[ph]
            elif ph.kind == "seq":
                app = [appended(y, ph, L) for _, y, _, _ in alts]
                if all(a is not None for a in app):
                    parts = seq_summary(Lx, [(lab, d, sb.tup(a)) for (lab, y, sb, d), a in zip(alts, app)])
                    vals[ph] = Seq(ph.init.parts + parts, ph.init.map)
                else:
                    vals[ph] = Seq((("last", Lx, ph.sid),), ph.init.map)
                splice[("phi", L, ph.sid)] = vals[ph].parts
                n = ip.seq_len(s, vals[ph])
                if not isinstance(n, Top):
                    atoms[("len", ("phi", L, ph.sid))] = n
            elif ph.kind == "stream":
                app = []
                for _, y, _, _ in alts:
                    v = ip.load(y, ph.cell, ph.path)
                    f = v["fields"]
                    app.append(f[1:] if f and f[0] == ("phi", L, ph.sid) else None)
                if all(a is not None for a in app):
                    fs = tuple((lab, d, sb.tup(a)) for (lab, y, sb, d), a in zip(alts, app))
                    vals[ph] = ph.init.with_(fields=ph.init["fields"] + loop_field(Lx, fs))
                else:
                    vals[ph] = ph.init.with_(fields=ph.init["fields"] + (("lost", Lx),))
                splice[("phi", L, ph.sid)] = vals[ph]["fields"]
                atoms[("phisize", L, ph.sid)] = size_or_top(vals[ph]["fields"])
            elif ph.kind == "bool":
                vals[ph] = ("bv", ("last", Lx, ph.sid))
                atoms[ph.val] = vals[ph]
            elif ph.kind == "str":
                vals[ph] = Str(("v", ("last", Lx, ph.sid)))
                atoms[ph.val.t] = vals[ph].t
            else:
                vals[ph] = ip.mk(s, ("last", Lx, ph.sid), ph.ty) if ph.ty is not None else Top("loop value")
        return Subst(atoms, splice), vals

    evs = []
    for _, y in backs:
        for e in y.events[len(S.events):]:
            if e not in evs:
                evs.append(e)
    results = []
    if slot is not None:
        E = s.clone()
        E.n = nmax
        _, vals = summary(L)
        for ph in order:
            ip.store(E, ph.cell, ph.path, vals[ph])
        E.cells.update(extra)
        ip.store(E, slot[0], slot[1], rest)
        alive = set()
        for lab, _ in backs:
            alive.add(base_of(lab))
        if given is not None:
            E.cells[given[0]] = E.cells[given[0]].with_(replay=given[1][1:])
        labs = [f[0] for f in fds if f[0] is not None]
        if not backs:
            # no iteration completes: there was none
            if not E.assume(("eq0", atom(("n", L))), True):
                E.dead = True
        elif any(lab not in alive for lab in labs):
            for lab in labs:
                if lab not in alive:
                    E.facts.sub[("cnt", L, lab)] = 0
            left = [lab for lab in labs if lab in alive]
            if len(left) == 1:
                E.facts.sub[("cnt", L, left[0])] = E.norm(atom(("n", L)))
        if labs:
            iteration_facts(E, L, labs, alts)
        if evs:
            E.event("in loop", L, tuple(evs))
        E.notes = E.notes + (("loop", L, name),)
        results.append(("back", E))
    if exits or np:
        base = S.clone()
        bs2, es2 = run_all(base, nmax)
        ends = {}
        for lab, y in es2:
            within = slot is not None or given is not None and lab != "end"
            if within not in ends:
                ends[within] = summary(("pre", L) if within else L)
            sb, vals = ends[within]
            for c in list(y.cells):
                v = y.cells[c]
                y.cells[c] = sb.val(v)
            for ph in order:
                # untouched opaque slots
                if ph.kind == "opaque" and ip.load(y, ph.cell, ph.path) == ph.val:
                    ip.store(y, ph.cell, ph.path, vals[ph])
            for c, v in extra.items():
                y.cells.setdefault(c, v)
            y.ret = sb.val(y.ret) if y.ret is not None else None
            refit_facts(ip, s, S, y, sb, L, order, backs, within)
            if evs:
                y.events = y.events + (("in loop", ("pre", L) if within else L, tuple(evs)),)
            y.notes = y.notes + (("loop", L, name),)
            if not y.dead:
                results.append(("exit", y))
    if not results:
        ip.unmodelled.setdefault("loop without exit", name)
    return results


def replayed(ip, s, count):
    """A stream whose given contents continue with a list of as many elements: (cell, contents, alternatives, key, loop)."""
    for c, v in s.cells.items():
        if isinstance(v, Obj) and v.kind == "in" and v.get("replay") and v["replay"][0][0] == "loop":
            f = v["replay"][0]
            if count is None or s.norm(sub(count, atom(("n", f[1])))) == 0:
                return c, v["replay"], f[2], ip.map_keys.get(f[1]), f[1]
    return None


def reads_elements(ip, s, run_iter, given, name):
    """Does every iteration read one element of the list given?"""
    cell, _, alts, _, _ = given
    seen = False
    for _, d, fs in alts:
        x = s.clone()
        x.facts.add(d)
        x.cells[cell] = x.cells[cell].with_(replay=fs + (("end",),))
        ip.quiet += 1
        try:
            backs = [y for tag, y in drive(ip, x, run_iter, None, name) if tag == "back"]
        finally:
            ip.quiet -= 1
        if not all(isinstance(y.cells[cell], Obj) and y.cells[cell].get("replay") == (("end",),) for y in backs):
            return False
        seen = seen or bool(backs)
    return seen


def invariant_choice(s, S, log, backs, fds, L):
    """A condition over values from before the loop that tells iterations apart."""
    if len(backs) < 2:
        return None
    feed = set()
    for _, d, g, *_ in fds:
        if g is not None:
            leaves(g, feed)
    done = set()
    for b in log:
        if b in done:
            continue
        done.add(b)
        if s.simp(b) != b or not invariant(b, S.n, feed, L):
            continue
        truths = {y.simp(b) for _, y in backs if isinstance(y.simp(b), bool)}
        if len(truths) == 2:
            return b
    return None


def leaves(v, out):
    """Provenance keys occurring in a value."""
    if isinstance(v, Lin):
        for a in v.t:
            leaves(a, out)
    elif isinstance(v, tuple):
        if v and v[0] in ("r", "nt", "el", "byte", "gk", "at"):
            out.add(v)
        for x in v:
            leaves(x, out)
    elif isinstance(v, Agg):
        for x in v.f:
            leaves(x, out)
    elif isinstance(v, Seq):
        leaves(v.parts, out)
    elif isinstance(v, Str):
        leaves(v.t, out)
    elif isinstance(v, Sym):
        leaves(v.key, out)
    elif isinstance(v, Obj):
        for x in v.d.values():
            leaves(x, out)


def invariant(t, n0, feed, L):
    if isinstance(t, Lin):
        return all(invariant(a, n0, feed, L) for a in t.t)
    if isinstance(t, tuple):
        if t in feed or len(t) >= 2 and t[0] in ("phi", "phisize", "idx", "byte", "gk") or t == L:
            return False
        if t and t[0] == "v" and len(t) == 4:
            return invariant(t[1], n0, feed, L)
        if t and t[0] in ("rng", "wrap", "ovf", "lo", "hi", "isvar", "sym", "disc", "f") and len(t) > 1:
            return invariant(t[1], n0, feed, L)
        return all(invariant(x, n0, feed, L) for x in t)
    if isinstance(t, bool) or t is None or isinstance(t, str):
        return True
    if isinstance(t, int):
        return t <= n0
    return False


def iteration_facts(E, L, labs, alts):
    """Variants known in every iteration over an existing sequence, per kind of element."""
    per = {}
    for lab, y, sb, d in alts:
        vs = d.d.get("var", {})
        b = base_of(lab)
        per[b] = vs if b not in per else {k: v for k, v in per[b].items() if vs.get(k, "?") == v}
    whole = None
    for b, vs in per.items():
        whole = vs if whole is None else {k: v for k, v in whole.items() if vs.get(k, "?") == v}
    for b, vs in list(per.items()) + [("*", whole or {})]:
        if vs:
            old = E.vars.get(("lf", L, b))
            d = Delta({"var": dict(vs)})
            E.vars[("lf", L, b)] = old.merged(d) if old is not None else d


def source_key(ip, x, it):
    """Key of the element an iteration over a map sees."""
    b = it["base"]
    if b[0] == "seq" and b[2] in ("mapref", "mapval", "mapk") and len(b[1]) == 1 and b[1][0][0] == "one":
        e = b[1][0][1]
        if isinstance(e, Agg) and len(e.f) == 2:
            return e.f[0]
    return None


def base_of(lab):
    while isinstance(lab, tuple) and lab and lab[0] == "s":
        lab = lab[1]
    return lab


def size_or_top(fields):
    try:
        return size(fields)
    except KeyError:
        return atom(("unknown size", len(fields)))


def deltas(ip, y, ph, L):
    v = ip.load(y, ph.cell, ph.path)
    if not is_int(v):
        return None
    v = y.norm(v)
    d = y.norm(sub(v, atom(ph.atom)))
    if isinstance(d, Lin) and mentions(d, L):
        return None
    return d


def appended(y, ph, L):
    v = y.cells.get(ph.cell)
    for p in ph.path:
        if not isinstance(v, Agg):
            return None
        v = v.f[p[2]]
    if not isinstance(v, Seq) or not v.parts or v.parts[0] != ("phi", L, ph.sid):
        return None
    return v.parts[1:]


def opening(p):
    """Putting a list of one value under a new key opens a group."""
    if p[0] == "one" and isinstance(p[1], Agg) and len(p[1].f) == 2:
        k, v = p[1].f
        if isinstance(v, Seq) and len(v.parts) == 1 and v.parts[0][0] == "one":
            return ("gpush", k, "new", v.parts[0][1])
    return p


def seq_summary(L, alts):
    """Parts describing what a loop appended to a sequence."""
    if not any(ps for _, _, ps in alts):
        return ()
    if any(p[0] == "gpush" for _, _, ps in alts for p in ps):
        alts = tuple((j, d, tuple(map(opening, ps))) for j, d, ps in alts)
        if all(len(ps) == 1 and (p := ps[0])[0] == "gpush" and p[2] in ("new", "last", "mid") for _, _, ps in alts):
            L = ("regroup", L) if any(ps[0][2] == "mid" for _, _, ps in alts) else L
            return (("gloop", L, tuple((j, d, (ps[0][1], ps[0][3])) for j, d, ps in alts)),)
    if L[0] == "G" and len(alts) == 1 and len(alts[0][2]) == 1 and alts[0][2][0][0] == "loop" \
            and alts[0][2][0][1] == ("GI", L[1]):
        return (("loop", L[1], alts[0][2][0][2]),)
    if L[0] == "B" and len(alts) == 1:
        # a buffer gone through and kept as it is
        for k, bits in (("bytes", 8), ("u16", 16)):
            if alts[0][2] == (("one", atom(("v", ("byte", L[1], "*"), bits, False))),):
                return ((k, L[1], atom(("n", L))),)
    return (("loop", L, tuple((j, d, ps) for j, d, ps in alts)),)


def loop_field(L, alts):
    if not any(fs for _, _, fs in alts):
        return ()
    if L[0] == "G" and len(alts) == 1 and len(alts[0][2]) == 1:
        f = alts[0][2][0]
        if f[0] == "loop" and f[1] == ("GI", L[1]):
            return (("loop", L[1], f[2]),)
    return (("loop", L, tuple(alts)),)


def refit_facts(ip, s, S, y, sb, L, order, backs, within):
    """Restate the facts of a path leaving the loop in terms of the summaries."""
    d = y.facts.delta(S.facts)
    events = y.events
    y.facts = s.facts.copy()
    n = atom(("n", L))
    if not within:
        trip_count(ip, s, y, d, L, order, backs)
    for a, v in d.d.get("sub", {}).items():
        x = sb.at(a)
        v2 = sb.val(v)
        if isinstance(x, tuple) and x not in y.facts.sub:
            y.facts.sub[x] = v2
        else:
            x = atom(x) if isinstance(x, tuple) else x
            if not y.assume(("eq0", sub(x, v2)) if isinstance(sub(x, v2), Lin) else sub(x, v2) == 0, True):
                y.dead = True
    for a, (lo, hi) in d.d.get("rng", {}).items():
        x = sb.at(a)
        x = atom(x) if isinstance(x, tuple) else x
        ok = True
        if lo is not None:
            ok = ok and y.assume_ge0(sub(x, lo))
        if hi is not None:
            ok = ok and y.assume_ge0(sub(hi, x))
        if not ok:
            y.dead = True
    for g in d.d.get("ge0", {}):
        if not y.assume_ge0(sb.val(g)):
            y.dead = True
    for g in d.d.get("ne", {}):
        v = sb.val(g)
        v = y.norm(v)
        if isinstance(v, Lin):
            y.facts.ne[v] = True
        elif v == 0:
            y.dead = True
    for b, t in d.d.get("bt", {}).items():
        v = sb.val(b)
        if isinstance(v, bool):
            if v != t:
                y.dead = True
        else:
            y.facts.bt[v] = t
    for nme in ("var", "nvar", "seq", "sne"):
        m = getattr(y.facts, nme)
        for k, v in d.d.get(nme, {}).items():
            m[sb.val(k)] = v if nme != "seq" else sb.val(v)


def counters(ip, s, order, backs, L):
    """[(atom, value before the loop, step)] of what every iteration moves by one."""
    for ph in order:
        if ph.kind == "int":
            ds = [deltas(ip, x, ph, L) for _, x in backs]
            if ds and all(isinstance(k, int) for k in ds) and len(set(ds)) == 1 and ds[0] in (1, -1):
                yield ph.atom, ph.init, ds[0]
        elif ph.kind == "seq":
            app = [appended(y, ph, L) for _, y in backs]
            if app and all(a is not None and len(a) == 1 and a[0][0] == "one" for a in app):
                n0 = ip.seq_len(s, ph.init)
                if not isinstance(n0, Top):
                    yield ("len", ("phi", L, ph.sid)), n0, 1


def bound_counters(ip, s, S, order, backs, log, L):
    """A counter that is compared with a fixed bound before every step never passes it."""
    found = False
    for a, init, step in list(counters(ip, s, order, backs, L)):
        done = set()
        for b in log:
            while isinstance(b, tuple) and b and b[0] == "not":
                b = b[1]
            if not (isinstance(b, tuple) and len(b) == 2 and b[0] in ("lt0", "eq0") and isinstance(b[1], Lin)) or b in done:
                continue
            done.add(b)
            k = b[1].t.get(a)
            if k not in (1, -1):
                continue
            e = scale(sub(b[1], scale(atom(a), k)), -k)
            if mentions(e, L) or not s.nonneg(scale(sub(e, init), step)):
                continue
            # with a not past e, every iteration starts short of e
            room = add(scale(sub(e, atom(a)), step), -1)
            if all(x.nonneg(room) or x.simp(("eq0", sub(e, atom(a)))) is False for _, x in backs):
                if not S.nonneg(add(room, 1)) and S.assume_ge0(add(room, 1)):
                    found = True
    return found


def trip_count(ip, s, y, d, L, order, backs):
    """Number of iterations of a counting loop from its exit condition."""
    n = ("n", L)
    for a, init, step in counters(ip, s, order, backs, L):
        up = step == 1
        cands = []
        lo, hi = d.d.get("rng", {}).get(a, (None, None))
        if up and lo is not None:
            cands.append(lo)
        if not up and hi is not None:
            cands.append(hi)
        if a in d.d.get("sub", {}):
            cands.append(d.d["sub"][a])
        for g in d.d.get("ge0", {}):
            k = g.t.get(a)
            if k == step:
                e = scale(sub(g, scale(atom(a), k)), -k)
                if not mentions(e, L):
                    cands.append(e)
        for b, t in d.d.get("bt", {}).items():
            if t and b[0] == "eq0" and isinstance(b[1], Lin) and b[1].t.get(a) in (1, -1):
                k = b[1].t[a]
                e = scale(sub(b[1], scale(atom(a), k)), -k)
                if not mentions(e, L):
                    cands.append(e)
        for e in cands:
            # every iteration started before the bound was reached
            room = sub(add(e, -1), atom(a)) if up else sub(atom(a), add(e, 1))
            if all(x.nonneg(room) or x.simp(("eq0", sub(e, atom(a)))) is False for _, x in backs):
                cnt = sub(e, init) if up else sub(init, e)
                if not s.nonneg(cnt):
                    cnt = atom(("max0", cnt)) if isinstance(cnt, Lin) else max(0, cnt)
                if n not in y.facts.sub:
                    y.facts.sub[n] = cnt
                return

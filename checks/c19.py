"""C19: equality and hashing agree, and equality sees everything."""
import re

from common import rel
from flow import Agg, Flow, Obj, Ref, Seq, Str, Sym, deref, is_int, murky, opaque, sub

DERIVED = "derived comparison covers every part"
ORDER = "ordered tables are compared in order"
WHOLE = "equal values agree in every part"
CONTENT = "hash depends on what is compared only"
EQ = re.compile(r"cmp::PartialEq(<.*>)?$")
HASH = re.compile(r"hash::Hash$")
UNORDERED = re.compile(r"\b(indexmap::(map::)?IndexMap|indexmap::(set::)?IndexSet)<")
# identity or layout of a value rather than its content
NOT_CONTENT = re.compile(r"::capacity$|::as_ptr$|::as_mut_ptr$|::addr$|::expose_provenance$|RandomState|ptr::hash$|ptr::addr_eq$|type_name|"
                         r"::type_id$|std::time|std::env|thread::current")
BITS = re.compile(r"<impl f(32|64)>::(to_bits|to_ne_bytes|to_le_bytes|to_be_bytes)$")


def run(ctx, rep):
    fl = Flow(ctx, rep)
    fl.ip.eq_cut = True
    items, db = ctx.items, ctx.db
    eqs = [i for i in items["impls"] if EQ.search(i["trait"] or "")]
    hashes = [i for i in items["impls"] if HASH.search(i["trait"] or "")]
    counts = {"derived equality": 0, "hand-written equality": 0, "derived hash": 0, "hand-written hash": 0, "compared fields": 0}
    adts = {base(a["name"]): a for a in items["adts"]}
    manual = {}
    for i in eqs:
        if not i["derived"]:
            manual[base(i["self"])] = i
    # derived: every field takes part; tables must be wrapped in a type with an ordered comparison
    for i in eqs:
        if not i["derived"]:
            continue
        counts["derived equality"] += 1
        a = adts.get(base(i["self"]))
        if a is None:
            rep.unknown(DERIVED, rel(i["at"]), i["self"], "definition not found")
            continue
        for v in a["vars"]:
            for f in v["f"]:
                counts["compared fields"] += 1
                where = f"{rel(a['at'])} {a['name']}::{f['n']}"
                if UNORDERED.search(f["ty"]):
                    rep.violation(ORDER, where, f"{a['name']}::{f['n']}",
                                  f"field of type {f['ty']} is compared by its own equality, which ignores the order of the entries")
                else:
                    rep.ok(DERIVED, where)
    for i in eqs:
        if not i["derived"]:
            counts["hand-written equality"] += 1
            equality(fl, i, counts)
    bits_compared = set()
    for name, i in manual.items():
        if any(BITS.search(d) for k in insts(db, i, "eq") for d, _ in calls(db, k)):
            bits_compared.add(name)
    for i in hashes:
        if i["derived"]:
            counts["derived hash"] += 1
            rep.ok(CONTENT, f"{rel(i['at'])} {i['self']}: derived")
            continue
        counts["hand-written hash"] += 1
        hashing(fl, i, base(i["self"]) in bits_compared)
    rep.coverage["instances"] = counts
    rep.floor("comparable types", counts["derived equality"] + counts["hand-written equality"], 60)
    rep.floor("hashable types", counts["derived hash"] + counts["hand-written hash"], 50)
    fl.coverage()
    return ("Every comparison and hash implementation of the crate, as listed by the compiler. Derived ones cover every field; "
            "no field of such a type may be a bare ordered table, whose own equality ignores order. Hand-written comparisons are "
            "analysed on two arbitrary values: on every path that answers 'equal' the facts must make every part equal. "
            "Hand-written hashes, with the functions they call, must not use addresses, capacities or the bits of numbers that "
            "compare equal with different bits.")


def base(name):
    return re.sub(r"<.*", "", name).removeprefix("gvas::")


def insts(db, impl, method):
    """Instances of a method of an implementation."""
    out = []
    ms = [m for m in impl["items"] if m.rsplit("::", 1)[1] == method]
    for k in db.insts:
        if k["crate"] == "gvas" and k["body"] is not None and (k["def"] in ms or same_method(k["def"], impl, method)):
            out.append(k["id"])
    return out


def same_method(d, impl, method):
    m = re.match(r"<(.*) as (.*)>::(\w+)$", d)
    return bool(m) and m.group(3) == method and base(m.group(1)) == base(impl["self"]) and base(m.group(2)) == base(impl["trait"])


def calls(db, inst):
    """Calls of a function, of the crate's functions it calls and of closures it makes."""
    todo, seen, out = [inst], set(), []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        b = db.body(i)
        for bb in b.blocks if b else ():
            c = bb["t"].get("call") if isinstance(bb["t"], dict) else None
            if not c or c.get("inst") is None:
                continue
            j = c["inst"]
            k = db.insts[j]
            out.append((k["def"], f"{db.where(bb['t'].get('sp', k['sp']))} in {db.insts[i]['def']}"))
            if k["crate"] == "gvas" and not k.get("derived") and not re.search(r"(Hash>::hash|PartialEq.*>::(eq|ne))$", k["def"]):
                todo.append(j)
    return out


# ---- equality -----------------------------------------------------------------------------
def equality(fl, impl, counts):
    db, rep = fl.ctx.db, fl.rep
    where = f"{rel(impl['at'])} impl PartialEq for {impl['self']}"
    m = re.search(r"PartialEq<(.*)>$", impl["trait"])
    if m and base(m.group(1)) != base(impl["self"]):
        rep.ok(WHOLE, where + ": with another type")
        return
    ids = insts(db, impl, "eq") + insts(db, impl, "ne")
    if not ids:
        rep.unknown(WHOLE, where, impl["self"], "not reachable from the analysed entry points")
        return
    for k in ids:
        one(fl, k, where)


def one(fl, k, where):
    db, rep, ip = fl.ctx.db, fl.rep, fl.ip
    inst = db.insts[k]
    ne = inst["def"].endswith("::ne")
    name = f"inst:{k}"
    db.root[name] = k
    ty = db.pointee(db.body(k).locals[1])
    st = fl.E.fresh_state()
    st.cells[("left",)] = ip.mk(st, ("arg", "left"), ty)
    st.cells[("right",)] = ip.mk(st, ("arg", "right"), ty)
    outs = fl.try_run(inst["name"], name, {0: Ref(("left",)), 1: Ref(("right",))}, st=st)
    if outs is None:
        return
    n = 0
    for o in outs:
        for s, r in (ip.decide(o, o.ret) if isinstance(o.ret, tuple) else [(o, o.ret)]):
            if not isinstance(r, bool):
                rep.unknown(WHOLE, where, inst["name"], f"result {r!r}"[:200])
                continue
            if r == ne:
                continue
            n += 1
            bad = apart(fl, s, s.cells[("left",)], s.cells[("right",)], ty, "value")
            if bad is None:
                rep.ok(WHOLE, f"{where}: {inst['name']}")
            elif bad[1] or murky(s) or not understood(s):
                rep.unknown(WHOLE, where, f"{inst['def']}: {bad[0]}", f"not shown equal; facts {facts(s)}"[:300])
            else:
                rep.violation(WHOLE, where, f"{inst['def']}: {bad[0]}",
                              f"two values compare equal although {bad[0]} may differ ({inst['name']}; known: {facts(s)})"[:400])
    if not n:
        rep.unknown(WHOLE, where, inst["name"], "no path answers 'equal'")


def facts(s):
    return [k for k, v in s.facts.bt.items()][:4]


def understood(s):
    """Do only comparisons of parts lead here, and no loops?"""
    for k in s.facts.bt:
        if not (isinstance(k, tuple) and k[0] in ("eqv", "itereq", "streq", "streqic", "isvar", "aeq", "pointwise")):
            return False
    return not s.facts.seq and not any(e[0] in ("in loop", "loop") for e in s.events)


def equals(fl, s):
    """Pairs of values known to be equal, those of tuples taken apart."""
    out = []

    def add(a, b, ty):
        a, b = deref(fl.ip, s, a), deref(fl.ip, s, b)
        out.append((a, b, ty))
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f) and a.var == b.var:
            for x, y in zip(a.f, b.f):
                add(x, y, ty)
    for k, v in s.facts.bt.items():
        if v is True and isinstance(k, tuple) and k[0] in ("eqv", "streq"):
            add(k[1] if k[0] == "eqv" else Str(k[1]), k[2] if k[0] == "eqv" else Str(k[2]), k[3] if k[0] == "eqv" else "str")
    return out


def held(fl, s, a, b):
    for x, y, ty in equals(fl, s):
        if (x, y) == (a, b) or (y, x) == (a, b):
            return ty
    return None


def apart(fl, s, a, b, ty, path, depth=0):
    """None if the facts make a and b equal, else (part that may differ, is it unclear)."""
    ip, db = fl.ip, fl.ctx.db
    a, b, ty = deref(ip, s, a), deref(ip, s, b), through(fl, ty)
    if a == b:
        return None
    if is_int(a) and is_int(b):
        return None if s.norm(sub(a, b)) == 0 else (path, False)
    if isinstance(a, Str) and isinstance(b, Str):
        if s.str_norm(a.t) == s.str_norm(b.t) or held(fl, s, a, b):
            return None
        return (path, False)
    k = held(fl, s, a, b)
    if k is not None:
        if UNORDERED.search(k):
            return (f"the order of entries of {path}", False)
        return None
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        return None if s.simp(a) == s.simp(b) else (path, False)
    if isinstance(a, Seq) and isinstance(b, Seq):
        kinds = set()
        for k, v in s.facts.bt.items():
            if v is True and isinstance(k, tuple) and k[0] == "pointwise":
                kinds |= walked(fl, s, k, a, b)
            if v is True and isinstance(k, tuple) and k[0] == "itereq":
                c = same_walk(k[1], k[2], a, b) or same_walk(k[2], k[1], a, b)
                if c is not None:
                    kinds.add(c)
        if "entry" in kinds or {"keys", "values"} <= kinds or "element" in kinds:
            return None
        if "?" in kinds:
            return (path, True)
        if kinds:
            return ("the values of " + path if "keys" in kinds else "the keys of " + path, False)
        return ("the entries of " + path, False)
    if depth > 4:
        return (path, True)
    if isinstance(a, (Sym, Agg)) and isinstance(b, (Sym, Agg)):
        t = db.types[ty]
        if t.get("vars") is not None or t["k"] in ("tuple", "adt"):
            n = len(t["vars"]) if t.get("vars") is not None else 1
            va, vb = variant(s, a, n), variant(s, b, n)
            if va is None or vb is None:
                return (f"the kind of {path}", False)
            if va != vb:
                return (f"the kind of {path}", False)
            for i, fty in enumerate(ip.field_types(ty, va) or ()):
                fa, fb = ip.proj(s, a, ("f", va, i)), ip.proj(s, b, ("f", va, i))
                bad = apart(fl, s, fa, fb, fty, f"{path}.{i}", depth + 1)
                if bad is not None:
                    return bad
            return None
    if isinstance(a, Obj) or isinstance(b, Obj):
        return (path, True)
    return (path, opaque(a) or opaque(b))


def variant(s, v, n):
    if n <= 1:
        return 0
    if isinstance(v, Agg):
        return v.var
    return next((i for i in range(n) if s.simp(("isvar", v.key, i, n)) is True), None)


def same_walk(x, y, a, b):
    """What two iterators over the two tables yield: 'entry', 'keys', 'values', 'element', or '?' if adapted."""
    if not (isinstance(x, Obj) and isinstance(y, Obj) and x.kind == y.kind == "iter"):
        return "?"
    bx, by = x["base"], y["base"]
    if bx[0] != "seq" or by[0] != "seq" or bx[1] != a.parts or by[1] != b.parts:
        return None
    if x["ops"] or y["ops"] or bx[2] != by[2]:
        return "?"
    return {"mapk": "keys", "mapv": "values", "keys": "keys", "values": "values"}.get(bx[2], "entry" if a.map else "element")


LOOKUP = re.compile(r"::get_index$|::get_index_of$|::get_full$|::nth$|::next$|::position$|::enumerate$")


def walked(fl, s, fact, a, b):
    """What a predicate holding for all pairs of elements (or all elements of one side) establishes."""
    inst, x, ty, outs = fl.ip.preds[fact[2]]
    over = fact[1]
    if len(over) == 1:
        # a look-up in the other table by key does not see the order
        return {"?"} if any(LOOKUP.search(d) for d, _ in calls(fl.ctx.db, inst)) else set()
    c = same_walk(over[0], over[1], a, b) or same_walk(over[1], over[0], a, b)
    if c is None:
        return set()
    if s.norm(sub(fl.ip.seq_len(s, a), fl.ip.seq_len(s, b))) != 0:
        return set()
    t = fl.ip.field_types(ty, 0) or ()
    if len(t) != 2:
        return {"?"}
    for o, r in outs:
        for o2, r2 in (fl.ip.decide(o, r) if isinstance(r, tuple) else [(o, r)]):
            if r2 is False:
                continue
            l, m = (deref(fl.ip, o2, fl.ip.proj(o2, x, ("f", 0, i))) for i in (0, 1))
            bad = apart(fl, o2, l, m, through(fl, t[0]), "element", 1)
            if bad is not None:
                return {"?"} if bad[1] or not understood(o2) else set()
    return {c}


def through(fl, ty):
    while fl.ctx.db.types[ty]["k"] == "ref":
        ty = fl.ctx.db.pointee(ty)
    return ty


# ---- hashing ------------------------------------------------------------------------------
def hashing(fl, impl, bits):
    db, rep = fl.ctx.db, fl.rep
    where = f"{rel(impl['at'])} impl Hash for {impl['self']}"
    ids = insts(db, impl, "hash")
    if not ids:
        rep.unknown(CONTENT, where, impl["self"], "not reachable from the analysed entry points")
        return
    bad = set()
    for k in ids:
        for d, at in calls(db, k):
            if NOT_CONTENT.search(d):
                bad.add((at, d, f"uses {d}, which equal values need not share"))
            elif BITS.search(d) and not bits:
                bad.add((at, d, f"hashes the bits of a number ({d}), but zero and minus zero compare equal"))
        b = db.body(k)
        for bb in b.blocks:
            for s in bb["s"]:
                if "PointerExposeProvenance" in repr(s):
                    bad.add((where, "address", "hashes an address"))
    for at, d, why in sorted(bad):
        rep.violation(CONTENT, at, f"{impl['self']}: {d}", why)
    if not bad:
        rep.ok(CONTENT, f"{where}: {len(ids)} instances")

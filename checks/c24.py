"""C24: unsafe operations are confined to plain-data reinterpretation and the path-entry guard."""
import re

from common import rel
from flow import Flow, Ref, Top, deref, opaque, sub

INTS = r"[ui](8|16|32|64|128|size)"
PLAIN = re.compile(rf"^({INTS}|\[{INTS}; \d+\]|f32|f64)$")
PTR_READ = re.compile(r"^std::ptr::(mut_ptr|const_ptr|non_null)::<impl .*>::(as_mut|as_ref)$|^std::ptr::NonNull::<T>::(as_mut|as_ref)$")


def bodies(db):
    for i in db.insts:
        if i["crate"] == "gvas" and i["body"]:
            yield i


def run(ctx, rep):
    unsafe = [u for u in ctx.items_serde["unsafe"] if not u.get("derived")]
    plain = [u for u in ctx.items["unsafe"] if not u.get("derived")]
    for u in plain:
        if u not in unsafe:
            unsafe.append(u)
    rep.floor("functions of the crate", len(ctx.items["fns"]), 300)
    guards = set()
    for u in unsafe:
        where = rel(u["at"])
        if u["kind"] != "block":
            rep.violation("unsafe item", where, u["text"] or u["kind"],
                          f"unsafe {u['kind']} is not one of the confined operations")
            continue
        if not u["ops"]:
            rep.ok("unsafe block without unsafe operation")
        for o in u["ops"]:
            inst = f"{u['fn']}: {o.get('callee', o['op'])}"
            at = rel(o["at"])
            if o["op"] == "call" and o["callee"] == "std::mem::transmute_copy":
                a, b = span_of(o["in"][0].lstrip("&")), span_of(o["out"])
                if a and b and a[0] == b[0]:
                    rep.ok("reinterpretation of plain integers", f"{at} {o['in'][0]} -> {o['out']}")
                else:
                    rep.violation("reinterpretation of plain integers", at, inst,
                                  f"transmute_copy {o['in']} -> {o['out']} is not between equally sized plain integer arrays")
                continue
            if o["op"] == "call" and o["callee"] in ("std::intrinsics::transmute", "std::mem::transmute",
                                                     "core::mem::transmute"):
                if all(PLAIN.match(t) for t in o["in"] + [o["out"]]):
                    rep.ok("reinterpretation of plain integers", f"{at} {o['in'][0]} -> {o['out']}")
                else:
                    rep.violation("reinterpretation of plain integers", at, inst,
                                  f"transmute {o['in']} -> {o['out']} is not between plain integer arrays")
                continue
            if o["op"] == "deref" or o["op"] == "call" and READ.match(o["callee"]):
                bad = plain_reads(ctx.db, u["fn"])
                if bad == []:
                    rep.ok("reinterpretation of plain integers", f"{at} through a pointer")
                    continue
                if bad:
                    rep.violation("reinterpretation of plain integers", at, inst, bad[0])
                    continue
            m = re.match(r"<(\S+?)(<.*>)? as std::ops::Drop>::drop$", u["fn"])
            is_ptr = o["op"] == "deref" or (o["op"] == "call" and PTR_READ.match(o["callee"]))
            if m and is_ptr:
                guards.add((m.group(1), at, inst))
                continue
            rep.violation("unsafe operation", at, inst,
                          "unsafe operation outside the identifier conversion and the path-entry guard")
    for g in sorted({g for g, _, _ in guards}):
        Guard(ctx, rep, g).check()
    for g, at, inst in sorted(guards):
        rep.ok("pointer access in the destructor of the guard", at)
    rep.coverage["unsafe_operations"] = sum(len(u.get("ops", ())) for u in unsafe)
    rep.coverage["guards"] = sorted({g for g, _, _ in guards})
    return ("Every unsafe block, fn, impl, extern block and mutable static of the crate (with and without the "
            "serialisation feature) is enumerated from HIR with type information; each unsafe operation must be a "
            "transmute between plain integer arrays or a pointer access in the destructor of a guard. For every guard "
            "a provenance analysis over MIR shows that its pointer refers to a place that outlives it at every creation "
            "site, that it is never leaked, and abstract interpretation of its constructor and destructor shows that the "
            "destructor removes exactly the entry the constructor added.")


READ = re.compile(r"^std::ptr::(const_ptr|mut_ptr)::<impl .*>::read(_unaligned)?$|^std::ptr::read(_unaligned)?$")
SAME_PTR = re.compile(r"slice::<impl \[T\]>::as_(mut_)?ptr$|::<impl \*(const|mut) T>::cast(_mut|_const)?$|^std::ptr::from_(ref|mut)$")


def span_of(text):
    """Size and alignment of a plain number or array of them."""
    m = re.match(r"^(?:\[)?[uif](8|16|32|64|128|size)(?:; (\d+)\])?$", text)
    if not m:
        return None
    w = 8 if m.group(1) == "size" else int(m.group(1)) // 8
    return w * int(m.group(2) or 1), w


def plain_reads(db, fn):
    """Reads of a function through raw pointers: what is wrong with them, or None if they were not followed."""
    out, found = [], 0
    for i in bodies(db):
        if re.sub(r"<impl.*?>", "<impl>", i["def"]) != re.sub(r"<impl.*?>", "<impl>", "gvas::" + fn) and i["def"] != fn:
            continue
        b = i["body"]
        defs = {}
        for blk in b["blocks"]:
            for s in blk["s"]:
                if "rv" in s and not s["a"]["projection"]:
                    defs.setdefault(s["a"]["local"], []).append(s["rv"])
            t = blk["t"]
            if "call" in t and not t["dest"]["projection"]:
                defs.setdefault(t["dest"]["local"], []).append({"call": t})

        def source(L, depth=0):
            """Type of the place a pointer was taken from."""
            ds = defs.get(L, ())
            if 1 <= L <= b["argc"] and not ds:
                t = db.types[b["locals"][L]]
                return t["t"] if t["k"] == "ref" else None
            if len(ds) != 1 or depth > 12:
                return None
            rv = ds[0]
            if "call" in rv:
                c = rv["call"]
                if not SAME_PTR.search(c["call"].get("def", "")):
                    return None
                ps = list(moved(c["args"][0]))
            elif "Cast" in rv or "Use" in rv:
                ps = list(moved(rv.get("Cast") or rv.get("Use")))
            else:
                k = next(iter(rv))
                if k not in ("Ref", "AddressOf", "RawPtr"):
                    return None
                p = [x for x in rv[k] if isinstance(x, dict) and "local" in x][0]
                if p["projection"] == ["Deref"]:
                    return source(p["local"], depth + 1)
                return place_type(p)
            return source(ps[0]["local"], depth + 1) if len(ps) == 1 and not ps[0]["projection"] else None

        def place_type(p):
            ty = b["locals"][p["local"]]
            for x in p["projection"]:
                if x == "Deref":
                    ty = db.pointee(ty)
                elif isinstance(x, dict) and "Field" in x:
                    ty = x["Field"][1]
                else:
                    return None
            return ty

        def judge(L, to, aligned):
            nonlocal found
            found += 1
            a, z = source(L), span_of(db.text(to))
            a = span_of(db.text(a)) if a is not None else None
            if a is None or z is None:
                return False
            if a[0] != z[0]:
                out.append(f"{z[0]} bytes are read through a pointer to {a[0]} bytes")
            elif aligned and z[1] > a[1]:
                out.append(f"a value aligned to {z[1]} bytes is read through a pointer to a place aligned to {a[1]}")
            return True
        for blk in b["blocks"]:
            for s in blk["s"]:
                for p in moved(s["rv"]) if "rv" in s else ():
                    if p["projection"][:1] == ["Deref"] and db.types[b["locals"][p["local"]]]["k"] == "ptr":
                        if len(p["projection"]) > 1 or not judge(p["local"], db.pointee(b["locals"][p["local"]]), True):
                            return None
                for k in ("Ref", "AddressOf", "RawPtr"):
                    for p in s.get("rv", {}).get(k, ()):
                        if isinstance(p, dict) and p.get("projection", [])[:1] == ["Deref"] and \
                                db.types[b["locals"][p["local"]]]["k"] == "ptr":
                            return None
                if "a" in s and s["a"]["projection"][:1] == ["Deref"] and db.types[b["locals"][s["a"]["local"]]]["k"] == "ptr":
                    return None
            t = blk["t"]
            if "call" in t and READ.match(t["call"].get("def", "")):
                ps = list(moved(t["args"][0]))
                if len(ps) != 1 or ps[0]["projection"] or \
                        not judge(ps[0]["local"], t["dt"], not t["call"]["def"].endswith("unaligned")):
                    return None
    return out if found else None


PRIVATE = "guard fields are private"
BUILT = "guard is built by its constructor"
SCOPE = "guard stays in its scope"
ALIVE = "the pointer of a guard refers to a living place"
PUSHED = "creating a guard adds one entry"
POPPED = "dropping a guard restores the entries"
LEAKS = re.compile(r"^(std::mem::forget|std::mem::ManuallyDrop::<T>::new|std::boxed::Box::<.*>::(leak|into_raw)|std::rc::Rc|std::sync::Arc)")


class Guard:
    """A type whose destructor follows a raw pointer."""

    def __init__(self, ctx, rep, name):
        self.ctx, self.rep, self.name, self.db = ctx, rep, name, ctx.db
        self.fl = Flow(ctx, rep)
        self.makers = {}  # instance returning a guard -> index of the argument its pointer comes from
        self.bodies = [i for i in bodies(self.db) if any(self.is_guard(t) for t in i["body"]["locals"])]

    def is_guard(self, t):
        x = self.db.types.get(t)
        return x is not None and x["k"] == "adt" and (x["name"] == self.name or x["name"].endswith("::" + self.name))

    def fn(self, i):
        return re.sub(r"::<.*?>$", "", i["def"])

    def check(self):
        adt = [a for a in self.ctx.items["adts"] if a["name"] == self.name]
        if not adt:
            self.rep.unknown(PRIVATE, self.name, self.name, "type of the guard not found")
            return
        for v in adt[0]["vars"]:
            for f in v["f"]:
                if f["vis"]:
                    self.rep.violation(PRIVATE, rel(adt[0]["at"]), f"{self.name}.{f['n']}",
                                       "the pointer of the guard can be replaced from outside")
                else:
                    self.rep.ok(PRIVATE)
        new = 1
        while new:
            new = 0
            for i in self.bodies:
                if i["id"] not in self.makers and self.is_guard(i["body"]["locals"][0]):
                    a = self.maker(i)
                    if a is not None:
                        self.makers[i["id"]] = a
                        new += 1
        uses = sum(self.sites(i) for i in self.bodies)
        self.rep.coverage["guard_uses"] = uses
        self.rep.floor("guards created", uses, 3)
        self.balanced()

    # ---- provenance of pointers -----------------------------------------------------------
    def defs(self, body):
        out = {}
        for blk in body["blocks"]:
            for s in blk["s"]:
                if "rv" in s:
                    out.setdefault(s["a"]["local"], []).append((s["a"]["projection"], s["rv"]))
            t = blk["t"]
            if "call" in t:
                out.setdefault(t["dest"]["local"], []).append((t["dest"]["projection"], {"call": t}))
        return out

    def origins(self, i, place, defs, seen=None):
        """Where the pointer read from a place comes from: ('arg', n), ('local', n) or ('?', why)."""
        seen = set() if seen is None else seen
        L = place["local"]
        if L in seen:
            return set()
        seen.add(L)
        if 1 <= L <= i["body"]["argc"] and not defs.get(L):
            return {("arg", L)}
        out = set()
        first = next((p["Field"][0] for p in place["projection"] if isinstance(p, dict) and "Field" in p), None)
        for proj, rv in defs.get(L, ()):
            k = next(iter(rv))
            if k in ("Ref", "AddressOf", "RawPtr"):
                p = [x for x in rv[k] if isinstance(x, dict) and "local" in x][0]
                out |= self.place_origin(i, p, defs, seen)
            elif k == "call":
                t = rv[k]
                args = [a for a, ty in zip(t["args"], t["ats"]) if self.points(ty)]
                if t["call"].get("inst") in self.makers:
                    args = [t["args"][self.makers[t["call"]["inst"]] - 1]]
                if not args:
                    out.add(("?", t["call"].get("def", "call")))
                for a in args:
                    for p in moved(a):
                        out |= self.origins(i, p, defs, seen)
            elif k == "Aggregate":
                ops = rv[k][1]
                for n, a in enumerate(ops):
                    if first is None or n == first:
                        for p in moved(a):
                            out |= self.origins(i, p, defs, seen)
            else:
                ps = list(moved(rv[k]))
                if not ps:
                    continue
                for p in ps:
                    out |= self.origins(i, p, defs, seen)
        if not out and not defs.get(L):
            out.add(("?", f"_{L}"))
        return out

    def place_origin(self, i, p, defs, seen):
        if any(x == "Deref" for x in p["projection"]):
            return self.origins(i, p, defs, seen)
        return {("local", p["local"])}

    def points(self, ty):
        t = self.db.types.get(ty)
        if t is None:
            return False
        if t["k"] in ("ref", "ptr"):
            return True
        return t["k"] == "adt" and any(self.points(a) for a in t.get("args") or () if isinstance(a, int))

    def maker(self, i):
        """Argument that a function returning a guard takes the pointer from."""
        o = self.origins(i, {"local": 0, "projection": []}, self.defs(i["body"]))
        a = {x[1] for x in o if x[0] == "arg"}
        return next(iter(a)) if len(a) == 1 and len(o) == 1 else None

    # ---- creation sites -------------------------------------------------------------------
    def sites(self, i):
        db, rep, b, fn = self.db, self.rep, i["body"], self.fn(i)
        own = self.name.split("::")[-1] in i["def"] or self.name in i["name"]
        gl = {n for n, t in enumerate(b["locals"]) if self.is_guard(t)}
        defs = self.defs(b)
        uses = 0
        for bi, blk in enumerate(b["blocks"]):
            for s in blk["s"]:
                if "rv" not in s:
                    continue
                k = next(iter(s["rv"]))
                if k == "Aggregate" and isinstance(s["rv"][k][0], dict) and "Adt" in s["rv"][k][0] and self.is_guard(s["ty"]):
                    if own:
                        rep.ok(BUILT, fn)
                    else:
                        rep.violation(BUILT, db.where(s["sp"]), fn, "the guard is built outside its own module")
                    continue
                for pl in moved(s["rv"][k]):
                    if pl["local"] in gl and not pl["projection"] and not own and s["a"]["local"] not in gl:
                        rep.unknown(SCOPE, db.where(s["sp"]), fn, "the guard is moved into another value")
            t = blk["t"]
            if "call" not in t:
                continue
            for a in t["args"]:
                if "Move" in a and a["Move"]["local"] in gl and not a["Move"]["projection"] and not own:
                    d = t["call"].get("def", "")
                    if d == "std::mem::drop":
                        continue
                    if LEAKS.match(d):
                        rep.violation(SCOPE, db.where(t["sp"]), fn, f"the guard is leaked through {d}: its entry is never removed")
                    else:
                        rep.unknown(SCOPE, db.where(t["sp"]), fn, f"the guard is handed to {d}")
            if t["dest"]["local"] not in gl or own:
                continue
            uses += 1
            m = self.makers.get(t["call"].get("inst"))
            if m is None:
                rep.unknown(ALIVE, db.where(t["sp"]), fn, "origin of the pointer not followed")
                continue
            rep.ok(SCOPE, f"{fn} at {db.where(t['sp'])}")
            for p in moved(t["args"][m - 1]):
                for kind, x in self.origins(i, p, defs):
                    if kind == "arg":
                        rep.ok(ALIVE, f"{fn} at {db.where(t['sp'])}: behind argument {x}")
                    elif kind == "?":
                        rep.unknown(ALIVE, db.where(t["sp"]), fn, f"pointer from {x}")
                    elif self.dies(b, t["target"], x, gl):
                        rep.violation(ALIVE, db.where(t["sp"]), fn,
                                      "the place the guard points to is dropped or moved before the guard: the destructor would follow a dangling pointer")
                    else:
                        rep.ok(ALIVE, f"{fn} at {db.where(t['sp'])}: local that outlives the guard")
        return uses

    def dies(self, b, start, x, gl):
        """Can the local x be dropped or moved before any of the guards is dropped?"""
        todo, seen = [start], set()
        while todo:
            n = todo.pop()
            if n in seen or n is None:
                continue
            seen.add(n)
            blk = b["blocks"][n]
            t = blk["t"]
            if any(self.mentions(s, gl) for s in blk["s"]) or "drop" in t and t["drop"]["local"] in gl:
                continue
            if "drop" in t and t["drop"]["local"] == x or \
                    any("Move" in a and a["Move"] == {"local": x, "projection": []} for a in t.get("args", ())) or \
                    any(p == {"local": x, "projection": []} for s in blk["s"] if "rv" in s for p in only_moves(s["rv"])):
                return True
            todo += successors(t)
        return False

    def mentions(self, s, gl):
        return "rv" in s and any(p["local"] in gl for p in moved(s["rv"]))

    # ---- what constructor and destructor do -----------------------------------------------
    def balanced(self):
        db, fl, rep = self.db, self.fl, self.rep
        drops = {}
        for i in db.insts:
            if i["crate"] == "gvas" and i["body"] and i["def"].endswith(" as std::ops::Drop>::drop"):
                p = db.pointee(i["body"]["locals"][1])
                if self.is_guard(p):
                    drops[p] = i["id"]
        made = 0
        for i in self.bodies:
            own = self.name.split("::")[-1] in i["def"]
            b = i["body"]
            if not own or i["id"] not in self.makers or b["locals"][0] not in drops:
                continue
            made += 1
            name, where = self.fn(i), db.where(i["sp"])
            st = fl.E.fresh_state()
            m = self.makers[i["id"]]
            vals = {}
            for k in range(b["argc"]):
                ty = b["locals"][k + 1]
                v = fl.ip.mk(st, ("arg", k), ty)
                if k + 1 == m:
                    before = deref(fl.ip, st, v)
                    target = v
                vals[k] = v
            n0 = fl.ip.seq_len(st, before)
            db.root[f"fn:{i['id']}"] = i["id"]
            outs = fl.try_run(name, f"fn:{i['id']}", vals, st=st)
            d = drops[b["locals"][0]]
            db.root[f"fn:{d}"] = d
            for o in outs or ():
                seq = deref(fl.ip, o, target)
                grown = growth(fl, o, seq, n0)
                if grown == 1:
                    rep.ok(PUSHED, f"{where} {name}")
                elif isinstance(grown, int) and not opaque(seq):
                    rep.violation(PUSHED, where, name, f"{grown} entries are added instead of one")
                else:
                    rep.unknown(PUSHED, where, name, f"{seq!r}"[:120])
                    continue
                s2 = o.clone()
                cell = ("sym", ("guard",))
                s2.cells[cell] = o.ret
                for q in fl.try_run(f"drop of {name}", f"fn:{d}", {0: Ref(cell, ())}, st=s2) or ():
                    after = deref(fl.ip, q, target)
                    left = growth(fl, q, after, n0)
                    if left == 0 and after == before:
                        rep.ok(POPPED, f"{db.where(db.insts[d]['sp'])} {self.fn(db.insts[d])}")
                    elif left is not None and not opaque(after):
                        rep.violation(POPPED, db.where(db.insts[d]["sp"]), self.fn(db.insts[d]),
                                      "after creating and dropping a guard the path is not what it was: "
                                      + (f"{left} entries more" if left != 0 else "other entries remain"))
                    else:
                        rep.unknown(POPPED, db.where(db.insts[d]["sp"]), self.fn(db.insts[d]), f"{after!r}"[:120])
        if drops and not fl.aborted:
            rep.floor("guard constructors", made, 1)


def growth(fl, st, seq, n0):
    n = fl.ip.seq_len(st, seq)
    return None if isinstance(n, Top) else st.norm(sub(n, n0))


def successors(t):
    out = []
    if "target" in t:
        out.append(t["target"])
    if "br" in t:
        out += [x for _, x in t["br"]] + [t["other"]]
    if "goto" in t:
        out.append(t["goto"])
    return [x for x in out if isinstance(x, int)]


def moved(v):
    if isinstance(v, dict):
        if "Move" in v:
            yield v["Move"]
        elif "Copy" in v:
            yield v["Copy"]
        else:
            for x in v.values():
                yield from moved(x)
    elif isinstance(v, list):
        for x in v:
            yield from moved(x)


def only_moves(v):
    if isinstance(v, dict):
        if "Move" in v:
            yield v["Move"]
        else:
            for x in v.values():
                yield from only_moves(x)
    elif isinstance(v, list):
        for x in v:
            yield from only_moves(x)

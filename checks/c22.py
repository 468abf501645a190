"""C22: constructors and accessors are faithful."""
import re

from common import rel
from flow import Agg, Flow, Lin, Obj, Ref, Seq, Str, Sym, deref, is_int, murky, opaque, sub

STORES = "a constructor stores each argument in the field it names"
KEEPS = "no argument of a constructor is dropped"
KIND = "an accessor answers exactly for its kind"
PLACE = "an accessor gives access to the held value"
WRAPS = "a conversion wraps the value unchanged under its own kind"
UNWRAPS = "a conversion back succeeds exactly for its kind"
FIELD = "a field accessor returns that field"


def run(ctx, rep):
    C = Checker(ctx, rep)
    for f in ctx.db.fns:
        if f["inst"] is not None:
            C.function(f)
    n = C.counts
    rep.coverage["instances"] = n
    if not C.fl.aborted and not rep.undecided:
        rep.floor("constructors", n["constructors"], 35)
        rep.floor("shared accessors", n["accessors"], 30)
        rep.floor("mutable accessors", n["mutable accessors"], 30)
        rep.floor("conversions", n["conversions"], 35)
        rep.floor("conversions back", n["conversions back"], 20)
    else:
        rep.floor("functions", sum(n.values()), 100)
    C.fl.coverage()
    return ("Every function of the crate whose signature makes it a constructor, a typed accessor, a field accessor or a "
            "conversion between a data type and the kinds it wraps. Each is analysed on an arbitrary value: provenance of every "
            "field of the result, and for accessors the kind facts of every path against the place the result refers to.")


def strip(t):
    return t.replace("gvas::", "")


class Checker:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.fl = Flow(ctx, rep)
        self.ip, self.db = self.fl.ip, ctx.db
        self.adts = {a["name"]: a for a in ctx.items["adts"]}
        self.args = {f["name"]: f.get("args") for f in ctx.items["fns"]}
        self.counts = {"constructors": 0, "accessors": 0, "mutable accessors": 0, "conversions": 0, "conversions back": 0, "field accessors": 0}

    def adt(self, ty):
        t = self.db.types[ty]
        return self.adts.get(strip(t["name"])) if t["k"] == "adt" else None

    def function(self, f):
        inst = f["inst"]
        b = self.db.body(inst)
        i = self.db.insts[inst]
        if b is None or i["derived"] or i["crate"] != "gvas":
            return
        name = strip(f["name"])
        short = name.rsplit("::", 1)[-1]
        tys = [b.locals[k + 1] for k in range(b.argc)]
        where = f"{self.db.where(i['sp'])} {name}"
        ret = b.locals[0]
        m = re.match(r"^<(.*) as std::convert::(From|TryInto)<(.*)>>::(from|try_into)$", name)
        if m and len(tys) == 1:
            if m.group(2) == "From" and self.adt(ret) is not None:
                self.wraps(where, name, inst, tys[0], ret)
            elif m.group(2) == "TryInto" and self.adt(tys[0]) is not None:
                self.unwraps(where, name, inst, tys[0], ret)
            return
        if name.startswith("<"):
            return
        owner = self.adts.get(name.rsplit("::", 1)[0])
        if owner is None:
            return
        if re.match(r"^new(_|$)", short) and tys and not any(self.db.types[t]["k"] == "ref" and self.db.types[t]["mut"] for t in tys):
            made = ret
            if self.db.types[ret].get("name", "").endswith("result::Result"):
                made = self.db.types[ret]["args"][0]
            if self.adt(made) is owner:
                self.constructor(where, name, inst, tys, made, made != ret)
            return
        if len(tys) == 1 and self.db.types[tys[0]]["k"] == "ref" and self.adt(self.db.pointee(tys[0])) is owner:
            t = self.db.types[ret]
            if t.get("name", "").endswith("option::Option") and self.db.types[t["args"][0]]["k"] == "ref":
                self.accessor(where, name, inst, tys[0], t["args"][0], owner)
            elif t["k"] == "ref":
                self.field(where, name, inst, tys[0], owner, short)

    def run(self, name, inst, vals, st):
        key = f"fn:{inst}"
        self.db.root[key] = inst
        return self.fl.try_run(name, key, dict(enumerate(vals)), st=st)

    # ---- constructors ---------------------------------------------------------------------
    def constructor(self, where, name, inst, tys, made, fallible):
        names = self.args.get(name) or []
        if len(names) != len(tys) or None in names:
            self.rep.unknown(STORES, where, name, "names of the arguments not known")
            return
        self.counts["constructors"] += 1
        st = self.fl.E.fresh_state()
        vals = [self.ip.mk(st, ("arg", n), t) for n, t in zip(names, tys)]
        outs = self.run(name, inst, vals, st)
        for o in outs or ():
            v = o.ret
            if fallible:
                if not (isinstance(v, Agg) and v.var == 0):
                    continue
                v = v.f[0]
            v = deref(self.ip, o, v)
            found = {}
            self.named(v, made, found, 0)
            text = repr(v)
            for n, a, t in zip(names, vals, tys):
                for fv in found.get(n, ()):
                    r = self.is_arg(o, fv, a)
                    if r is True:
                        self.rep.ok(STORES, f"{where}: {n}")
                    elif opaque(fv) or murky(o) or r is None:
                        self.rep.unknown(STORES, where, f"{name}: {n}", f"holds {fv!r}"[:150])
                    else:
                        self.rep.violation(STORES, where, f"{name}: {n}", f"field {n} of the result holds {short(fv)} instead of the argument {n}")
                if n not in found:
                    if self.mentions(v, n) or self.known(o, n):
                        self.rep.ok(KEEPS, f"{where}: {n}")
                    elif opaque(v) or murky(o) or "Top" in text:
                        self.rep.unknown(KEEPS, where, f"{name}: {n}", "result not followed")
                    else:
                        self.rep.violation(KEEPS, where, f"{name}: {n}", f"argument {n} has no influence on the result {short(v)}")

    def named(self, v, ty, out, depth):
        """{field name: values} of the fields of a constructed value, nested ones included."""
        if depth > 4 or not isinstance(v, Agg):
            return
        ty = v.ty if v.ty is not None else ty
        a = self.adt(ty) if ty is not None else None
        fts = self.ip.field_types(ty, v.var) if ty is not None else None
        for i, x in enumerate(v.f):
            if a is not None:
                fs = a["vars"][v.var]["f"]
                if i < len(fs) and not fs[i]["n"].isdigit():
                    out.setdefault(fs[i]["n"], []).append(x)
            if fts and i < len(fts):
                self.named(x, fts[i], out, depth + 1)

    def is_arg(self, o, v, a, depth=0):
        """Does v hold exactly the argument a (wrapped or unwrapped)? True, False or None."""
        v, a = deref(self.ip, o, v), deref(self.ip, o, a)
        if v == a:
            return True
        if is_int(v) and is_int(a):
            return o.norm(sub(v, a)) == 0
        if isinstance(v, Str) and isinstance(a, Str):
            return o.str_norm(v.t) == o.str_norm(a.t)
        if isinstance(v, Seq) and isinstance(a, Seq):
            return v.parts == a.parts
        if isinstance(v, (tuple, bool)) and isinstance(a, (tuple, bool)):
            return o.simp(v) == o.simp(a)
        if depth > 3:
            return None
        if isinstance(v, Agg) and isinstance(a, Agg) and len(v.f) == len(a.f) and v.var == a.var:
            rs = [self.is_arg(o, x, y, depth + 1) for x, y in zip(v.f, a.f)]
            return False if False in rs else None if None in rs else True
        if isinstance(v, Agg) and isinstance(a, Sym) and self.rebuilt(o, v, a):
            return True
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.is_arg(o, v.f[0], a, depth + 1)  # wrapped
        if isinstance(a, Sym) and a.ty is not None:
            t = self.db.types[a.ty]
            n = len(t["vars"]) if t.get("vars") is not None else 1
            var = 0 if n == 1 else next((i for i in range(n) if o.simp(("isvar", a.key, i, n)) is True), None)
            if var is not None and len(self.ip.field_types(a.ty, var) or ()) == 1:
                return self.is_arg(o, v, self.ip.proj(o, a, ("f", var, 0)), depth + 1)  # unwrapped
        if isinstance(v, Obj) or isinstance(a, Obj):
            return None
        return False

    def rebuilt(self, o, v, a):
        """Was an equal value put together from the parts of a?"""
        if v.ty is None or v.ty != a.ty:
            return False
        t = self.db.types[a.ty]
        n = len(t["vars"]) if t.get("vars") is not None else 1
        if n > 1 and o.simp(("isvar", a.key, v.var, n)) is not True:
            return False
        return all(self.is_arg(o, x, self.ip.proj(o, a, ("f", v.var, i)), 1) is True for i, x in enumerate(v.f))

    def mentions(self, v, n):
        return occurs(("arg", n), v)

    def known(self, o, n):
        f = o.facts
        return any(occurs(("arg", n), k) for d in (f.sub, f.rng, f.bt, f.var, f.nvar, f.seq, f.sne, f.ge0, f.ne) for k in d)

    # ---- accessors ------------------------------------------------------------------------
    def holders(self, owner, ty):
        """Kinds of an enum that hold just a value of the given type."""
        t = strip(self.db.text(ty))
        return [i for i, v in enumerate(owner["vars"]) if len(v["f"]) == 1 and v["f"][0]["ty"] == t]

    def arbitrary(self, ty):
        st = self.fl.E.fresh_state()
        pt = self.db.pointee(ty)
        st.cells[("self",)] = self.ip.mk(st, ("arg", "self"), pt)
        return st, pt

    def chosen(self, name, owner, ty):
        """The kind an accessor is for: by the type it returns, or by name when several kinds hold that type."""
        hs = self.holders(owner, ty)
        if len(hs) > 1:
            want = re.sub(r"^(get|as|into|try)_|_mut$|_ref$", "", name.rsplit("::", 1)[-1]).replace("_", "")
            hs = [i for i in hs if owner["vars"][i]["n"].lower() in (want, want + "property")]
        return hs[0] if len(hs) == 1 else None

    def accessor(self, where, name, inst, self_ty, ref, owner):
        mut = self.db.types[ref]["mut"]
        if owner["kind"] != "Enum":
            return
        if mut != self.db.types[self_ty]["mut"]:
            return
        k = self.chosen(name, owner, self.db.pointee(ref))
        if k is None:
            self.rep.unknown(KIND, where, name, f"no single kind holds {strip(self.db.text(self.db.pointee(ref)))}")
            return
        self.counts["mutable accessors" if mut else "accessors"] += 1
        st, pt = self.arbitrary(self_ty)
        outs = self.run(name, inst, [Ref(("self",))], st)
        some = 0
        vn = owner["vars"][k]["n"]
        for o in outs or ():
            v = deref(self.ip, o, o.ret)
            kind = self.kind_of(o, pt, k)
            if not isinstance(v, Agg):
                self.rep.unknown(KIND, where, name, f"result {v!r}"[:150])
                continue
            if v.var == 1:
                some += 1
                if kind is False:
                    self.bad(o, KIND, where, f"{name}: other kinds", f"{name} answers for a value that is not {vn}")
                elif kind is None:
                    self.bad(o, KIND, where, f"{name}: any kind", f"{name} answers although the value need not be {vn}")
                else:
                    self.rep.ok(KIND, f"{where}: {vn}")
                    self.place(o, where, name, v.f[0], k)
            elif kind is not False:
                self.bad(o, KIND, where, f"{name}: {vn}", f"{name} may answer nothing for a value that is {vn}")
            else:
                self.rep.ok(KIND, f"{where}: other kinds")
        if outs is not None and not some:
            self.rep.violation(KIND, where, f"{name}: never", f"{name} never answers")

    def kind_of(self, o, ty, k):
        """Is the value of kind k on this path? True, False or None."""
        v = o.cells[("self",)]
        if isinstance(v, Agg):
            return v.var == k
        n = len(self.db.types[ty]["vars"])
        r = o.simp(("isvar", v.key, k, n))
        return r if isinstance(r, bool) else None

    def bad(self, o, rule, where, inst, msg):
        if murky(o):
            self.rep.unknown(rule, where, inst, msg)
        else:
            self.rep.violation(rule, where, inst, msg)

    def place(self, o, where, name, r, k):
        if not isinstance(r, Ref):
            self.rep.unknown(PLACE, where, name, f"returns {r!r}"[:150])
            return
        held = self.ip.proj(o, o.cells[("self",)], ("f", k, 0))
        got = deref(self.ip, o, r)
        if r.cell == ("self",) and (got == held or r.path == (("f", k, 0),)):
            self.rep.ok(PLACE, where)
        elif opaque(got):
            self.rep.unknown(PLACE, where, name, f"{got!r}"[:150])
        else:
            self.bad(o, PLACE, where, name, f"{name} does not refer to the held value but to {short(got)}")

    def field(self, where, name, inst, self_ty, owner, nm):
        fname = re.sub(r"^get_|_mut$", "", nm)
        idx = []
        for v in owner["vars"]:
            js = [j for j, f in enumerate(v["f"]) if f["n"] == fname]
            if not js:
                return
            idx.append(js[0])
        b = self.db.body(inst)
        rt = strip(self.db.text(self.db.pointee(b.locals[0])))
        if any(owner["vars"][i]["f"][j]["ty"] != rt for i, j in enumerate(idx)):
            return
        self.counts["field accessors"] += 1
        st, pt = self.arbitrary(self_ty)
        for o in self.run(name, inst, [Ref(("self",))], st) or ():
            v = o.cells[("self",)]
            n = len(owner["vars"])
            k = 0 if n == 1 else v.var if isinstance(v, Agg) else next((i for i in range(n) if o.simp(("isvar", v.key, i, n)) is True), None)
            if k is None or not isinstance(o.ret, Ref):
                self.rep.unknown(FIELD, where, name, f"{o.ret!r}"[:150])
                continue
            held, got = self.ip.proj(o, v, ("f", k, idx[k])), deref(self.ip, o, o.ret)
            if got == held:
                self.rep.ok(FIELD, where)
            elif opaque(got):
                self.rep.unknown(FIELD, where, name, f"{got!r}"[:150])
            else:
                self.bad(o, FIELD, where, f"{name}: {owner['vars'][k]['n']}", f"{name} returns {short(got)} instead of {fname}")

    # ---- conversions ----------------------------------------------------------------------
    def wraps(self, where, name, inst, ty, ret):
        owner = self.adt(ret)
        self.counts["conversions"] += 1
        st = self.fl.E.fresh_state()
        a = self.ip.mk(st, ("arg", "value"), ty)
        hs = self.holders(owner, ty) if owner["kind"] == "Enum" else []
        for o in self.run(name, inst, [a], st) or ():
            v = deref(self.ip, o, o.ret)
            if len(hs) >= 1:
                if isinstance(v, Agg) and v.var in hs and len(v.f) == 1 and self.is_arg(o, v.f[0], a) is True:
                    self.rep.ok(WRAPS, where)
                elif not isinstance(v, Agg) or opaque(v):
                    self.rep.unknown(WRAPS, where, name, f"{v!r}"[:150])
                else:
                    self.bad(o, WRAPS, where, name, f"the value does not become {owner['vars'][hs[0]]['n']} unchanged but {short(v)}")
                continue
            # a type made from one of its parts: the part must be kept as it is
            if isinstance(v, Agg) and any(self.is_arg(o, x, a) is True for x in flat(v)):
                self.rep.ok(WRAPS, where)
            elif self.mentions(v, "value") and re.match(r"^([ui]\d+|\[[ui]\d+; \d+\])$", self.db.text(ty)):
                self.rep.ok(WRAPS, f"{where}: another representation, see C20")
            elif self.mentions(v, "value"):
                self.rep.unknown(WRAPS, where, name, f"{v!r}"[:150])
            elif opaque(v) or not isinstance(v, Agg) or self.known(o, "value"):
                self.rep.unknown(WRAPS, where, name, f"{v!r}"[:150])
            else:
                self.bad(o, WRAPS, where, name, f"the value is not kept: {short(v)}")

    def unwraps(self, where, name, inst, ty, ret):
        owner = self.adt(ty)
        t = self.db.types[ret]
        if owner["kind"] != "Enum" or not t.get("name", "").endswith("result::Result"):
            return
        k = self.chosen(name, owner, t["args"][0])
        if k is None:
            self.rep.unknown(UNWRAPS, where, name, "no single kind holds the wanted type")
            return
        self.counts["conversions back"] += 1
        st = self.fl.E.fresh_state()
        a = self.ip.mk(st, ("arg", "self"), ty)
        st.cells[("self",)] = a
        vn = owner["vars"][k]["n"]
        some = 0
        outs = self.run(name, inst, [a], st)
        for o in outs or ():
            v = deref(self.ip, o, o.ret)
            kind = self.kind_of(o, ty, k)
            if not isinstance(v, Agg):
                self.rep.unknown(UNWRAPS, where, name, f"result {v!r}"[:150])
                continue
            if v.var == 0:
                some += 1
                if kind is not True:
                    self.bad(o, UNWRAPS, where, f"{name}: other kinds", f"succeeds for a value that need not be {vn}")
                elif self.is_arg(o, v.f[0], self.ip.proj(o, a, ("f", k, 0))) is True:
                    self.rep.ok(UNWRAPS, where)
                elif opaque(v):
                    self.rep.unknown(UNWRAPS, where, name, f"{v!r}"[:150])
                else:
                    self.bad(o, UNWRAPS, where, f"{name}: {vn}", f"returns {short(v.f[0])} instead of the held value")
            elif kind is not False:
                self.bad(o, UNWRAPS, where, f"{name}: {vn}", f"may fail for a value that is {vn}")
            elif self.db.types[t["args"][1]] is self.db.types[ty] and self.is_arg(o, v.f[0], a) is False and not opaque(v):
                self.bad(o, UNWRAPS, where, f"{name}: error", f"a value of another kind comes back as {short(v.f[0])}")
            else:
                self.rep.ok(UNWRAPS, f"{where}: other kinds")
        if outs is not None and not some:
            self.rep.violation(UNWRAPS, where, f"{name}: never", f"{name} never succeeds")


def flat(v, depth=0):
    out = [v]
    if isinstance(v, Agg) and depth < 4:
        for x in v.f:
            out += flat(x, depth + 1)
    return out


def occurs(key, v):
    if v == key:
        return True
    if isinstance(v, (tuple, list)):
        return any(occurs(key, x) for x in v)
    if isinstance(v, Lin):
        return any(occurs(key, a) for a in v.t)
    if isinstance(v, Sym):
        return occurs(key, v.key)
    if isinstance(v, Str):
        return occurs(key, v.t)
    if isinstance(v, Seq):
        return occurs(key, v.parts)
    if isinstance(v, Agg):
        return any(occurs(key, x) for x in v.f)
    if isinstance(v, Obj):
        return any(occurs(key, x) for x in v.d.values())
    if isinstance(v, Ref):
        return occurs(key, v.cell)
    return False


def short(v):
    return repr(v)[:120]

"""C21: self-describing (serde) form and in-memory value correspond one to one."""
import re

from common import CheckError, rel
from flow import murky
from interp import Abort, Interp
from models import deref
from state import State
from vals import Agg, Ref, Seq, Str, Sym, is_int, sub

RESTORE = "a value left out is restored"
LOST = "nothing is left out for good"
NAMES = "names within an object are unique"
SHAPES = "alternatives told apart by shape are distinguishable"
TABLES = "tables with other than string keys are sequences"
PAIRED = "what is serialised can be deserialised"

SER = re.compile(r"^serde::(ser::)?Serialize$")
DE = re.compile(r"^serde::(de::)?Deserialize$")
INTS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"}
MAPS = {"HashableIndexMap", "IndexMap", "HashMap", "BTreeMap"}
LISTS = {"Vec", "HashSet", "IndexSet", "BTreeSet", "VecDeque"}


def run(ctx, rep):
    M = Model(ctx, rep)
    for a in M.types:
        M.container(a)
    for name, a in M.manual.items():
        M.hand_written(name, a)
    n = M.counts
    rep.coverage["instances"] = n
    rep.floor("serialised types", n["types"], 50)
    rep.floor("fields", n["fields"], 180)
    if not rep.undecided:
        rep.floor("conditions for leaving out", n["conditions"], 10)
        rep.floor("pairs of untagged alternatives", n["pairs"], 50)
        rep.floor("tables", n["tables"], 10)
    return ("The serialised form of every data type, from the compiler's item list with the serialisation feature on: derived "
            "implementations by their attributes, predicates and default values by dataflow over MIR (where the predicate holds "
            "the value must be the default), names per object with flattened parts and tags, untagged alternatives pairwise, "
            "key types of all tables.")


# ---- attributes ---------------------------------------------------------------------------
def tokens(text):
    """'default, rename = "x"' -> [("default", None), ("rename", "x")]"""
    parts, depth, quote, cur = [], 0, False, ""
    for ch in text:
        if ch == '"':
            quote = not quote
        if not quote:
            depth += ch in "([<"
            depth -= ch in ")]>"
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
                continue
        cur += ch
    parts.append(cur)
    out = []
    for p in parts:
        p = p.strip()
        if not p:
            continue
        m = re.match(r'^([\w#]+)\s*=\s*"(.*)"$', p, re.S)
        if m:
            out.append((m.group(1), m.group(2)))
            continue
        m = re.match(r"^([\w#]+)\s*\((.*)\)$", p, re.S)
        if m:
            out.append((m.group(1), tokens(m.group(2))))
        else:
            out.append((p, None))
    return out


def serde_attrs(attrs):
    out = {}
    for a in attrs:
        if a["path"] == "serde":
            for k, v in tokens(a["args"]):
                out.setdefault(k, []).append(v)
    return out


def one(d, k):
    v = d.get(k)
    return v[-1] if v else None


def words(name):
    if "_" in name or name.islower():
        return [w for w in name.split("_") if w]
    return re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z0-9]+", name)


def recase(name, rule, field):
    if rule is None:
        return name
    # the rules start from snake_case fields and PascalCase variants
    if field:
        w = name.split("_")
    else:
        w = re.findall(r"[A-Z][^A-Z]*|^[^A-Z]+", name)
    lo = [x.lower() for x in w]
    return {
        "lowercase": name.lower() if not field else name,
        "UPPERCASE": name.upper(),
        "PascalCase": "".join(x[:1].upper() + x[1:] for x in w) if field else name,
        "camelCase": (lambda s: s[:1].lower() + s[1:])("".join(x[:1].upper() + x[1:] for x in w)),
        "snake_case": "_".join(lo),
        "SCREAMING_SNAKE_CASE": "_".join(lo).upper(),
        "kebab-case": "-".join(lo),
        "SCREAMING-KEBAB-CASE": "-".join(lo).upper(),
    }.get(rule)


# ---- type expressions ---------------------------------------------------------------------
def parse_type(t):
    """'a::B<C, D>' -> ("a::B", [C, D])"""
    t = t.strip()
    m = re.match(r"^([\w:]+)<(.*)>$", t, re.S)
    if not m:
        return t, []
    args, depth, cur = [], 0, ""
    for ch in m.group(2):
        depth += ch in "<([" 
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return m.group(1), args


def last(name):
    return name.rsplit("::", 1)[-1]


class Names:
    """Names an object may have, and whether they are always there."""

    def __init__(self, always=(), maybe=(), types=None):
        self.always, self.maybe, self.types = set(always), set(maybe), dict(types or {})

    def all(self):
        return self.always | self.maybe


ANY = "any name"


class Model:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        it = ctx.items_serde
        self.adts = {a["name"]: a for a in it["adts"]}
        self.fns = {f["name"]: f for f in it["fns"]}
        self.counts = {"types": 0, "fields": 0, "conditions": 0, "pairs": 0, "tables": 0, "objects": 0, "hand-written": 0}
        ser, de, self.manual = {}, {}, {}
        for i in it["impls"]:
            tr = i["trait"] or ""
            name = parse_type(i["self"])[0]
            if "::_::" in i["self"] or "__" in i["self"]:
                continue
            if SER.search(tr):
                ser[name] = i
            elif DE.search(tr):
                de[name] = i
        if not ser:
            raise CheckError("no serialised types found")
        self.ser, self.de = ser, de
        self.types = []
        for name in sorted(set(ser) | set(de)):
            i = ser.get(name) or de.get(name)
            if name not in ser or name not in de:
                side = "serialised" if name in ser else "deserialised"
                rep.unknown(PAIRED, f"{rel(i['at'])} {name}", name, f"{name} can only be {side}")
                continue
            if ser[name]["derived"] != de[name]["derived"]:
                rep.unknown(PAIRED, f"{rel(i['at'])} {name}", name, "one side is derived, the other hand-written")
                continue
            if not ser[name]["derived"]:
                self.manual[name] = (ser[name], de[name])
                continue
            if name not in self.adts:
                rep.unknown(PAIRED, f"{rel(i['at'])} {name}", name, "definition not found")
                continue
            self.types.append(self.adts[name])
            rep.ok(PAIRED, f"{rel(i['at'])} {name}")
        self.counts["types"] = len(self.types) + len(self.manual)
        self.db = ctx.db_serde
        self.ip = Interp(self.db)

    # ---- one type -------------------------------------------------------------------------
    def container(self, a):
        at = serde_attrs(a["attrs"])
        where = f"{rel(a['at'])} {a['name']}"
        for k in at:
            if k in ("from", "into", "try_from", "remote", "transparent"):
                self.rep.unknown(PAIRED, where, f"{a['name']}: {k}", "conversion not followed")
        for v in a["vars"]:
            va = serde_attrs(v["attrs"])
            for k in ("skip", "skip_serializing", "skip_deserializing"):
                if k in va:
                    self.rep.violation(LOST, where, f"{a['name']}::{v['n']}: {k}", f"alternative {v['n']} is left out of the serialised form")
            for f in v["f"]:
                self.field(a, at, v, f)
        self.objects(a, at, where)
        if a["kind"] == "Enum":
            self.variants(a, at, where)
            if "untagged" in at:
                self.shapes(a, at, where)

    def field(self, a, cont, v, f):
        rep = self.rep
        self.counts["fields"] += 1
        where = f"{rel(a['at'])} {a['name']}::{v['n'] + '::' if a['kind'] == 'Enum' else ''}{f['n']}"
        inst = where.split(" ", 1)[1]
        at = serde_attrs(f["attrs"])
        bad = False
        for k in ("skip", "skip_serializing", "skip_deserializing"):
            if k in at:
                bad = True
                rep.violation(LOST, where, f"{inst}: {k}", f"{f['n']} never takes part in the serialised form ({k})")
        for k in ("serialize_with", "deserialize_with"):
            if k in at:
                bad = True
                rep.unknown(PAIRED, where, f"{inst}: {k}", f"{k} = {one(at, k)} not followed")
        w = one(at, "with")
        if w is not None and self.with_kind(w) is None:
            rep.unknown(PAIRED, where, f"{inst}: with", f"with = {w} not followed")
        r = one(at, "rename")
        if isinstance(r, list):
            d = dict(r)
            if d.get("serialize", f["n"]) != d.get("deserialize", f["n"]):
                bad = True
                rep.violation(LOST, where, f"{inst}: rename", f"{f['n']} is written as {d.get('serialize', f['n'])} but expected as {d.get('deserialize', f['n'])}")
        if not bad:
            rep.ok(LOST, where)
        cond = one(at, "skip_serializing_if")
        if cond is not None:
            self.condition(where, inst, a, cont, f, at, cond)
        self.tables(where, inst, f, w)

    # ---- left out and restored ------------------------------------------------------------
    def condition(self, where, inst, a, cont, f, at, cond):
        rep = self.rep
        self.counts["conditions"] += 1
        ty, args = parse_type(f["ty"])
        d = one(at, "default") if "default" in at else None
        has = "default" in at
        if not has and "default" in cont:
            rep.unknown(RESTORE, where, inst, "default of the whole object not followed")
            return
        if not has and not (last(ty) == "Option" and "with" not in at and "deserialize_with" not in at):
            rep.violation(RESTORE, where, inst, f"{f['n']} is left out when {cond} but required on deserialisation")
            return
        if last(ty) == "Option" and re.search(r"(^|::)Option(::<.*>)?::is_none$", cond):
            if has and d is not None:
                rep.unknown(RESTORE, where, inst, f"default {d} not followed")
            else:
                rep.ok(RESTORE, f"{where}: None left out and restored")
            return
        try:
            dv = self.default_of(a, f["ty"], d) if has else Agg(None, 0, ())
            paths = self.holds(a, f["ty"], cond)
        except (Abort, LookupError, RecursionError) as e:
            rep.unknown(RESTORE, where, inst, f"{cond}: {e}")
            return
        for s, x in paths:
            r = same(self.ip, s, x, dv)
            if r is True:
                rep.ok(RESTORE, f"{where}: left out when {cond}, which implies the default")
            elif r is None or murky(s):
                rep.unknown(RESTORE, where, inst, f"{cond}: {x!r} against {dv!r}"[:200])
            else:
                rep.violation(RESTORE, where, inst, f"{f['n']} is left out when {cond}, but is then restored to {dv!r} although it may be {r}"[:300])

    def function(self, a, path, ty=None):
        """The function a path in an attribute names, seen from the type's module."""
        path = re.sub(r"^(crate|self)::", "", path.replace(" ", ""))
        mod = a["name"].rsplit("::", 1)[0] if "::" in a["name"] else ""
        cands = []
        while True:
            n = f"{mod}::{path}" if mod else path
            if n in self.fns:
                return n
            if not mod:
                break
            mod = mod.rsplit("::", 1)[0] if "::" in mod else ""
        for n, f in self.fns.items():
            if n.endswith("::" + path) and (ty is None or re.search(r"&('\w+ )?" + re.escape(ty) + r"\)", f["sig"])):
                cands.append(n)
        if len(cands) == 1:
            return cands[0]
        raise LookupError(f"function {path} not found")

    def instance(self, name):
        for f in self.db.fns:
            n = f["name"]
            if f["inst"] is not None and (n == "gvas::" + name or n == name or n.replace("<gvas::", "<") == name):
                return f["inst"]
        raise LookupError(f"{name} is not among the analysed functions")

    def default_of(self, a, ty, path):
        if path is not None and not re.search(r"(^|::)(Default|" + re.escape(last(parse_type(ty)[0])) + r")(::<.*>)?::default$", path.replace(" ", "")):
            return self.call(self.instance(self.function(a, path)))
        name, args = parse_type(ty)
        if name in INTS:
            return 0
        if name == "bool":
            return False
        if last(name) == "Option":
            return Agg(None, 0, ())
        if last(name) == "String":
            return Str("")
        if last(name) in LISTS | MAPS:
            return Seq(())
        n = f"<{ty} as std::default::Default>::default"
        return self.call(self.instance(n))

    def call(self, inst):
        st = State()
        outs = self.ip.run(st, inst, ())
        if len(outs) != 1:
            raise LookupError(f"{len(outs)} paths")
        return outs[0].ret

    def holds(self, a, ty, cond):
        """[(state, value)]: the values for which a predicate holds."""
        name, args = parse_type(ty)
        m = re.search(r"(^|::)(Vec|String|str|IndexMap|HashableIndexMap|BTreeMap|HashMap)(::<.*>)?::is_empty$", cond.replace(" ", ""))
        if m:
            return [(State(), Str("") if last(name) == "String" else Seq(()))]
        inst = self.instance(self.function(a, cond, ty))
        b = self.db.body(inst)
        st = State()
        pt = self.db.pointee(b.locals[1])
        st.cells[("val",)] = self.ip.mk(st, ("val",), pt)
        out = []
        for o in self.ip.run(st, inst, (Ref(("val",)),)):
            for s, r in (self.ip.decide(o, o.ret) if isinstance(o.ret, tuple) else [(o, o.ret)]):
                if r is not False:
                    out.append((s, s.cells[("val",)]))
        return out

    # ---- names ----------------------------------------------------------------------------
    def name_of(self, f, at, rule, field=True):
        r = one(at, "rename")
        if isinstance(r, str):
            return r
        if isinstance(r, list):
            return dict(r).get("serialize", f["n"])
        if isinstance(rule, list):
            rule = dict(rule).get("serialize")
        return recase(f["n"], rule, field)

    def optional(self, f, at, cont):
        ty, _ = parse_type(f["ty"])
        return "default" in at or "default" in cont or last(ty) == "Option" and "with" not in at and "deserialize_with" not in at

    def fields_names(self, fs, rule, where, inst, cont, seen, extra=()):
        """All possible [Names] of an object made of the given fields."""
        alts = [Names(extra)]
        own = {e: "the tag" for e in extra}
        for f in fs:
            at = serde_attrs(f["attrs"])
            if "skip" in at or "skip_serializing" in at:
                continue
            if "flatten" in at:
                subs = self.object_names(f["ty"], seen)
                if subs is None:
                    self.rep.unknown(NAMES, where, f"{inst}.{f['n']}", f"flattened {f['ty']} not followed")
                    continue
                new = []
                for x in alts:
                    for y in subs:
                        both = x.all() & y.all()
                        if both or ANY in y.all() and x.all():
                            self.clash(where, inst, f"part {f['n']}", both or y.all())
                        new.append(Names(x.always | y.always, x.maybe | y.maybe, {**x.types, **y.types}))
                alts = new
                continue
            n = self.name_of(f, at, rule)
            for k in [n] + [z for z in at.get("alias", ()) if isinstance(z, str)]:
                if any(k in x.all() for x in alts) or k in own:
                    self.clash(where, inst, f"field {f['n']}", {k})
                own[k] = f["n"]
            skip = "skip_serializing_if" in at
            for x in alts:
                (x.maybe if skip else x.always).add(n)
                x.types[n] = f["ty"]
        return alts

    def clash(self, where, inst, what, names):
        self.rep.violation(NAMES, where, f"{inst}: {', '.join(sorted(names))}",
                           f"{what} of {inst} uses the name {', '.join(sorted(names))}, which is taken in the same object")

    def object_names(self, ty, seen=()):
        """[Names] of the objects a type is serialised to, or None if it is not an object."""
        name, args = parse_type(ty)
        if last(name) in ("Box", "Option") and args:
            r = self.object_names(args[0], seen)
            if r is not None and last(name) == "Option":
                r = r + [Names()]
            return r
        if last(name) in MAPS:
            return [Names((), (ANY,))]
        a = self.adts.get(name)
        if a is None or name in seen or name in self.manual:
            return None
        return self.adt_names(a, seen + (name,))

    def adt_names(self, a, seen):
        at = serde_attrs(a["attrs"])
        where = f"{rel(a['at'])} {a['name']}"
        if a["kind"] == "Struct":
            fs = a["vars"][0]["f"]
            if fs and fs[0]["n"].isdigit():
                return self.object_names(fs[0]["ty"], seen) if len(fs) == 1 else None
            return self.fields_names(fs, one(at, "rename_all"), where, a["name"], at, seen)
        out = []
        for v in a["vars"]:
            r = self.variant_names(a, at, v, seen)
            if r is None:
                return None
            out += r
        return out

    def variant_names(self, a, at, v, seen):
        va = serde_attrs(v["attrs"])
        where = f"{rel(a['at'])} {a['name']}"
        inst = f"{a['name']}::{v['n']}"
        rule = one(va, "rename_all") or one(at, "rename_all_fields")
        tag, content = one(at, "tag"), one(at, "content")
        newtype = len(v["f"]) == 1 and v["f"][0]["n"].isdigit()
        if tag is not None and content is not None:
            if tag == content:
                self.clash(where, inst, "content", {content})
            return [Names((tag, content))]
        if tag is not None or "untagged" in at or "untagged" in va:
            extra = (tag,) if tag is not None and "untagged" not in va else ()
            if newtype:
                r = self.object_names(v["f"][0]["ty"], seen)
                if r is None:
                    return None
                for x in r:
                    if ANY in x.all() and extra:
                        self.clash(where, inst, "content", {ANY})
                    if x.all() & set(extra):
                        self.clash(where, inst, "content", x.all() & set(extra))
                return [Names(x.always | set(extra), x.maybe, x.types) for x in r]
            if v["f"] and v["f"][0]["n"].isdigit():
                return None
            return self.fields_names(v["f"], rule, where, inst, at, seen, extra)
        return [Names((self.name_of(v, va, one(at, "rename_all"), False),))]

    def objects(self, a, at, where):
        """Names of the objects this type is serialised to, and of the contents of its alternatives."""
        n0 = len(self.rep.violations)
        if a["kind"] == "Struct":
            self.adt_names(a, (a["name"],))
            self.counts["objects"] += 1
        else:
            for v in a["vars"]:
                self.counts["objects"] += 1
                self.variant_names(a, at, v, (a["name"],))
                va = serde_attrs(v["attrs"])
                if not ("tag" in at or "untagged" in at) and v["f"] and not v["f"][0]["n"].isdigit():
                    self.fields_names(v["f"], one(va, "rename_all") or one(at, "rename_all_fields"), where, f"{a['name']}::{v['n']}", at, ())
                if "tag" in at and "content" not in at and len(v["f"]) == 1 and v["f"][0]["n"].isdigit():
                    self.taggable(a, v, where)
        if len(self.rep.violations) == n0:
            self.rep.ok(NAMES, where, n=max(1, len(a["vars"])))

    def taggable(self, a, v, where):
        k = self.kind(v["f"][0]["ty"])
        if k not in ("map", "?"):
            self.rep.violation(NAMES, where, f"{a['name']}::{v['n']}", f"the tag of {v['n']} has no place in a {k}")

    def variants(self, a, at, where):
        if "untagged" in at:
            return
        names = {}
        for v in a["vars"]:
            va = serde_attrs(v["attrs"])
            n = self.name_of(v, va, one(at, "rename_all"), False)
            for k in [n] + [z for z in va.get("alias", ()) if isinstance(z, str)]:
                if k in names and names[k] != v["n"]:
                    self.rep.violation(NAMES, where, f"{a['name']}: {k}", f"alternatives {names[k]} and {v['n']} have the same name {k}")
                names.setdefault(k, v["n"])
            r = one(va, "rename")
            if isinstance(r, list) and dict(r).get("serialize", v["n"]) != dict(r).get("deserialize", v["n"]):
                self.rep.violation(LOST, where, f"{a['name']}::{v['n']}: rename", f"{v['n']} is written and read under different names")
        for k in ("rename_all", "rename_all_fields"):
            r = one(at, k)
            if isinstance(r, list) and dict(r).get("serialize") != dict(r).get("deserialize"):
                self.rep.violation(LOST, where, f"{a['name']}: {k}", "names are written and read in different cases")

    # ---- shapes ---------------------------------------------------------------------------
    def kind(self, ty, seen=()):
        name, args = parse_type(ty)
        l = last(name)
        if name in INTS:
            return "integer"
        if name in ("f32", "f64") or l == "OrderedFloat":
            return "number"
        if name == "bool":
            return "bool"
        if l in ("String", "str", "char"):
            return "string"
        if l in LISTS or ty.startswith("[") or ty.startswith("("):
            return "sequence"
        if l in MAPS:
            return "map"
        if l == "Box" and args:
            return self.kind(args[0], seen)
        if name in self.manual:
            return "string" if self.textual(name) else "?"
        a = self.adts.get(name)
        if a is None or name in seen:
            return "?"
        at = serde_attrs(a["attrs"])
        if a["kind"] == "Struct":
            fs = a["vars"][0]["f"]
            if fs and fs[0]["n"].isdigit():
                return self.kind(fs[0]["ty"], seen + (name,)) if len(fs) == 1 else "sequence"
            return "map"
        if "tag" in at:
            return "map"
        if "untagged" in at:
            ks = {self.variant_kind(v, seen + (name,)) for v in a["vars"]}
            return ks.pop() if len(ks) == 1 else "?"
        if all(not v["f"] for v in a["vars"]):
            return "string"
        return "map" if all(v["f"] for v in a["vars"]) else "?"

    def variant_kind(self, v, seen):
        if v["f"] and v["f"][0]["n"].isdigit():
            return self.kind(v["f"][0]["ty"], seen) if len(v["f"]) == 1 else "sequence"
        return "map"

    def differ(self, x, y):
        """Can no serialised value of type y be taken for one of type x?"""
        kx, ky = self.kind(x), self.kind(y)
        if "?" in (kx, ky):
            return False
        return kx != ky and not (kx == "number" and ky == "integer")

    def shapes(self, a, at, where):
        vs = a["vars"]
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                self.counts["pairs"] += 1
                u, v = vs[i], vs[j]
                ku, kv = self.variant_kind(u, ()), self.variant_kind(v, ())
                inst = f"{a['name']}: {u['n']} and {v['n']}"
                if "?" in (ku, kv):
                    self.rep.unknown(SHAPES, where, inst, "shape not followed")
                    continue
                if ku != kv and not (ku == "number" and kv == "integer"):
                    self.rep.ok(SHAPES, inst)
                    continue
                if ku != "map":
                    self.rep.violation(SHAPES, where, inst, f"a {kv} of {v['n']} can be taken for {u['n']}")
                    continue
                self.pair(a, at, u, v, where, inst)

    def pair(self, a, at, u, v, where, inst):
        ru = self.required(a, at, u)
        nv = self.variant_names(a, at, v, (a["name"],))
        if ru is None or nv is None:
            self.rep.unknown(SHAPES, where, inst, "names not followed")
            return
        req, types = ru
        for n in nv:
            missing = req - n.all()
            if missing and ANY not in n.all() or "deny_unknown_fields" in at and n.always - set(types):
                self.rep.ok(SHAPES, f"{inst}: {', '.join(sorted(missing))} only in the first")
                continue
            apart = [k for k in types if k in n.always and k in n.types and self.differ(types[k], n.types[k])]
            if apart:
                self.rep.ok(SHAPES, f"{inst}: {apart[0]} differs in kind")
                continue
            self.rep.violation(SHAPES, where, inst, f"what {v['n']} is serialised to is taken for {u['n']}, "
                               f"which needs only {', '.join(sorted(req)) or 'nothing'}")

    def required(self, a, at, v):
        """(names an alternative needs, types by name)"""
        req, types = set(), {}
        va = serde_attrs(v["attrs"])
        fs = v["f"]
        cont = at
        rule = one(va, "rename_all") or one(at, "rename_all_fields")
        if len(fs) == 1 and fs[0]["n"].isdigit():
            b = self.adts.get(parse_type(fs[0]["ty"])[0])
            if b is None or b["kind"] != "Struct":
                return None
            fs, cont = b["vars"][0]["f"], serde_attrs(b["attrs"])
            rule = one(cont, "rename_all")
        for f in fs:
            fa = serde_attrs(f["attrs"])
            if "flatten" in fa:
                return None
            n = self.name_of(f, fa, rule)
            types[n] = f["ty"]
            if not self.optional(f, fa, cont):
                req.add(n)
        return req, types

    # ---- tables ---------------------------------------------------------------------------
    def tables(self, where, inst, f, with_):
        for top, key in self.keys(f["ty"]):
            if re.match(r"^[A-Z]\w*$", key) and key not in self.adts:
                continue  # a parameter of a generic wrapper: decided where the wrapper is used
            self.counts["tables"] += 1
            if self.string_like(key):
                if with_ is None or self.with_kind(with_) != "sequence" or top:
                    self.rep.ok(TABLES, f"{where}: keys are {key}")
                continue
            k = self.with_kind(with_) if with_ is not None else "plain"
            if k == "sequence" and top:
                self.rep.ok(TABLES, f"{where}: sequence of pairs")
            elif k is None:
                self.rep.unknown(TABLES, where, inst, f"with = {with_} not followed")
            else:
                self.rep.violation(TABLES, where, inst, f"table with keys of type {key} is serialised as a map, whose keys must be strings")

    def keys(self, ty, top=True):
        name, args = parse_type(ty)
        if last(name) in MAPS and len(args) >= 2:
            yield top, args[0]
        for x in args:
            yield from self.keys(x, False)

    def string_like(self, ty):
        name, args = parse_type(ty)
        if last(name) in ("String", "str", "char"):
            return True
        if name in self.manual:
            return self.textual(name)
        a = self.adts.get(name)
        return a is not None and self.kind(ty) == "string"

    def with_kind(self, w):
        """'sequence', 'hex' or None: what a module given by `with` does."""
        w = w.replace(" ", "")
        if re.search(r"serde_with::As::<(serde_with::(hex::)?)?Hex(<[\w:]+>)?>$", w):
            return "hex"
        if re.sub(r"^::", "", w) == "indexmap::map::serde_seq":
            return "sequence"
        w = re.sub(r"^crate::", "", w)
        s, d = self.fns.get(w + "::serialize"), self.fns.get(w + "::deserialize")
        if s is None or d is None:
            return None
        cs, cd = [c[0] for c in s["calls"] or ()], [c[0] for c in d["calls"] or ()]
        plumbing = re.compile(r"ops::Try::|ops::FromResidual|convert::(From|Into)|Result::<.*>::(map|map_err)$|Deref")
        cs = [c for c in cs if not plumbing.search(c)]
        cd = [c for c in cd if not plumbing.search(c)]
        if cs == ["indexmap::map::serde_seq::serialize"] and cd == ["indexmap::map::serde_seq::deserialize"]:
            return "sequence"
        if any(re.search(r"Serializer::(collect_map|serialize_map)$|Serialize::serialize$", c) for c in cs) and \
                not any(re.search(r"seq|tuple", c) for c in cs):
            return "map"
        return None

    # ---- hand-written implementations -----------------------------------------------------
    def body_calls(self, impl, method):
        out = []
        for n in impl["items"]:
            if last(n) == method and n in self.fns:
                out += self.fns[n]["calls"] or []
                out += [c for m, f in self.fns.items() if m.startswith(n + "::{closure") for c in f["calls"] or ()]
        return out

    def textual(self, name):
        """Is a hand-written form the displayed text, parsed back?"""
        s, d = self.manual[name]
        cs, cd = self.body_calls(s, "serialize"), self.body_calls(d, "deserialize")
        out = any(last(c[0]) == "collect_str" and name in c[1] for c in cs) or \
            any(last(c[0]) == "serialize_str" for c in cs) and any(last(c[0]) == "to_string" and name in c[1] for c in cs)
        back = any(last(c[0]) in ("from_str", "parse") and (name in c[1] or name in c[0]) for c in cd)
        return out and back

    def hand_written(self, name, a):
        s, d = a
        self.counts["hand-written"] += 1
        where = f"{rel(s['at'])} {name}"
        if self.textual(name):
            self.rep.ok(PAIRED, f"{where}: displayed text, parsed back (C20 relates the two)")
        else:
            self.rep.unknown(PAIRED, where, name, "hand-written form not followed: " +
                             ", ".join(c[0] for c in self.body_calls(s, "serialize"))[:150])


def same(ip, s, x, d):
    """True if x equals the constant d on this path, else what x may be (None: unclear)."""
    x = deref(ip, s, x)
    if isinstance(d, bool):
        v = s.simp(x) if isinstance(x, tuple) else x
        return True if v == d else repr(v)
    if is_int(x) and is_int(d):
        return True if s.norm(sub(x, d)) == 0 else f"any number in {s.rng(x)}"
    if isinstance(x, Str) and isinstance(d, Str):
        return True if s.str_norm(x.t) == d.t else "another string"
    if isinstance(x, Seq) and isinstance(d, Seq):
        return True if s.norm(sub(ip.seq_len(s, x), 0)) == 0 else "a table or list with entries"
    if isinstance(d, (Agg, Sym)) and isinstance(x, (Agg, Sym)):
        ty = x.ty if x.ty is not None else d.ty
        t = ip.db.types.get(ty) if ty is not None else None
        if t is not None and t["k"] == "array":
            zeros = ("const",) + tuple(ip.elem(s, d, i) for i in range(t["len"]))
            if isinstance(x, Sym) and s.facts.bt.get(("aeq", x.key, zeros)) is True:
                return True
            for i in range(t["len"]):
                r = same(ip, s, ip.elem(s, x, i), ip.elem(s, d, i))
                if r is not True:
                    return r
            return True
        if not isinstance(d, Agg):
            return None
        n = len(t["vars"]) if t is not None and t.get("vars") is not None else 1
        if n > 1:
            if isinstance(x, Agg):
                vx = x.var
            else:
                vx = next((i for i in range(n) if s.simp(("isvar", x.key, i, n)) is True), None)
            if vx != d.var:
                return "of another kind" if vx is not None else "of several kinds"
        for i, y in enumerate(d.f):
            r = same(ip, s, ip.proj(s, x, ("f", d.var, i)), y)
            if r is not True:
                return r
        return True
    return None

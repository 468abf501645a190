"""C30: what is written is accepted again and gives the same value."""
from c15 import FORMAT, LAYOUT, MAGIC, PACKAGE, UE5, words
from c05 import PLAIN
from flow import (SCALARS, STRUCTS, TEXTS, Agg, Flow, Lin, Obj, Ref, Seq, Str, Sym, Top, atom, brief, describe, find_aggs, flatten,
                  is_int, is_ok, murky, opaque, sub)
from models import without_empty
from state import NODELTA

RULE = "what is written is read back as the value written"
STRUCT, VALUE = "struct_property::StructProperty", "struct_property::StructPropertyValue"
HEADED = ["ByteProperty", "EnumProperty", "NameProperty"]  # a part of the value is in the header
PAIRS = [("number format", "numfmt_write", "numfmt_read"), ("text", "ftext_write", "ftext_read"),
         ("text history", "fhistory_write", "fhistory_read")]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n, kinds = {}, {}
    value = original(fl, "property_write")
    names = struct_names(fl)
    for w in fl.try_run("write record", "property_write", {2: True}) or []:
        if not is_ok(w):
            continue
        fs = w.cells[("out",)]["fields"]
        head = fs[0] if fs else None
        if not head or head[0] != "fstr" or head[1][0] != "some":
            rep.unknown(RULE, "?", "record", f"no type name: {head!r}"[:200])
            continue
        name = head[1][1]
        kinds[w.facts.var.get(value.key)] = name
        if not isinstance(name, str) or bytewise(fs):
            continue  # the width of the parts is not fixed by the value
        if any(f[:2] == ("fstr", ("some", t)) for f in fs[1:] for t in STRUCTS) and any(f[0] == "loop" for f in fs):
            struct_list(fl, w, name, fs, names, n)
        elif name in STRUCTS:
            structs(fl, w, name, fs[1:], names, n)
        else:
            back(fl, f"record {name}", w, "property_write", "property_new", fs[1:], {1: Str(name), 2: True}, n)
    for w in fl.try_run("write record without header", "property_write", {2: False}) or []:
        name = kinds.get(w.facts.var.get(value.key))
        if is_ok(w) and name in SCALARS + TEXTS and name not in HEADED:
            back(fl, f"{name} without header", w, "property_write", "property_new", w.cells[("out",)]["fields"], {1: Str(name), 2: False}, n)
    for what, wr, rd in PAIRS:
        for w in fl.try_run("write " + what, wr) or []:
            if is_ok(w):
                back(fl, what, w, wr, rd, w.cells[("out",)]["fields"], {}, n)
    for w in fl.try_run("write header", "header_write") or []:
        if is_ok(w):
            header(fl, w, n)
    for w in fl.try_run("write file", "file_write") or []:
        if is_ok(w):
            header(fl, w, n, "file")
    rep.coverage["values read back"] = n
    rep.floor("kinds of values read back", len(n), 67)
    rep.floor("writer paths read back", sum(n.values()), 240)
    fl.coverage()
    return ("Every successful path of the writers of records, texts, text histories and number formats on an arbitrary value. The "
            "reader was then followed on a stream holding exactly the fields written, under the facts of that path: it may not "
            "refuse, must consume all of them, and every part of its result must be the part of the value written.")


def arbitrary(fs):
    """Lists of values whose type is named beside them."""
    return any(f[0] == "loop" and any(x[0] == "ntw" for _, _, alt in f[2] for x in alt) for f in fs)


def bytewise(fs):
    """Lists of bytes, whose width is taken from the declared size."""
    return any(f[:2] == ("fstr", ("some", "ByteProperty")) for f in fs[1:]) and any(f[0] == "loop" for f in fs)


def struct_list(fl, w, t, fs, names, n):
    """A list of structs of one kind, under each of the type names that stand for it."""
    i = next(i for i, f in enumerate(fs) if f[0] == "loop")
    L, alts = fs[i][1:3]
    term = [f[1][1] for f in fs[:i] if f[0] == "fstr" and f[1][0] == "some" and not isinstance(f[1][1], str)]
    for lab, d, gs in alts:
        kind = d.d.get("var", {}).get(("el", L[1]))
        for x in sorted(names.get(kind, ())) if term else ():
            s = w.clone()
            s.facts.add(d)
            for other, _, _ in alts:
                s.facts.sub["cnt", L, other] = atom(("n", L)) if other == lab else 0
            if s.assume(("streq", term[-1], x), True):
                back(fl, f"record {t} of {x}", s, "property_write", "property_new",
                     fs[1:i] + (("loop", L, ((lab, NODELTA, gs),)),) + fs[i + 1:], {1: Str(t), 2: True}, n)


def parts_of(fl, o, v):
    """(type name, kind of value) of a struct."""
    name = kind = None
    for x in v.f if isinstance(v, Agg) else [fl.ip.proj(o, v, ("f", 0, j)) for j in range(len(fl.ip.field_types(v.ty, 0)))]:
        if isinstance(x, Str):
            name = x.t
        elif isinstance(x, (Agg, Sym)) and x.ty is not None and (fl.ctx.db.adt_name(x.ty) or "").endswith(VALUE):
            kind = x.var if isinstance(x, Agg) else o.facts.var.get(x.key)
    return name, kind


def struct_names(fl):
    """{kind of value: type names under which the reader makes it}"""
    out = {}
    for t in STRUCTS:
        for o in fl.try_run("read " + t, "property_new", {1: Str(t), 2: True}) or []:
            for a in find_aggs(fl.ctx.db, o.ret, STRUCT) if is_ok(o) else ():
                name, kind = parts_of(fl, o, a)
                name = o.str_norm(name) if name is not None else None
                if isinstance(name, str) and kind is not None:
                    out.setdefault(kind, set()).add(name)
    return out


def original(fl, wr):
    """The value a writer was given."""
    db = fl.ctx.db
    return Sym(("*", ("arg", wr, 0)), db.pointee(db.body(db.root[wr]).locals[1]))


def structs(fl, w, t, fs, names, n):
    """A struct value under each of the type names that stand for its kind."""
    v = original(fl, "property_write")
    v = fl.ip.proj(w, v, ("f", w.facts.var.get(v.key), 0))
    name, kind = parts_of(fl, w, v)
    if name is None or kind is None:
        fl.rep.unknown(RULE, "?", t, "kind of the value not found")
        return
    for x in sorted(names.get(kind, ())):
        s = w.clone()
        if s.assume(("streq", name, x), True):
            back(fl, f"record {t} {x}", s, "property_write", "property_new", fs, {1: Str(t), 2: True}, n)


def header(fl, w, n, what="header"):
    """A header, or a file with a header, with supported versions."""
    fs = w.cells[("out",)]["fields"]
    for v, layout in LAYOUT.items():
        g = words(w, flatten(w, fs), layout)
        if g is None or len(g[0]) < len(layout) or any(f[0] == "part" for f in g[0]):
            continue
        s = w.clone()
        ranges = [(MAGIC, MAGIC), (v, v), (PACKAGE[0], PACKAGE[-1])] + ([(UE5[0], UE5[-1])] if v == 3 else []) + [None, None, (FORMAT, FORMAT)]
        if all(r is None or s.assume_ge0(sub(f[2], r[0])) and s.assume_ge0(sub(r[1], f[2])) for f, r in zip(g[0], ranges)):
            back(fl, f"{what} version {v}", s, what + "_write", what + "_read", fs, {1: Agg(fl.ctx.db.body(fl.ctx.db.root["file_read"]).locals[2], PLAIN, ())} if what == "file" else {}, n)


def back(fl, what, w, wr, rd, fs, given, n):
    """Read what a writing path wrote and compare the result with the value written."""
    rep = fl.rep
    s = w.clone()
    s.ret = None
    s.cells[("in",)] = s.cells[("in",)].with_(replay=tuple(fs), fields=())
    for f in fs:
        narrow(s, f)
    rs = fl.try_run("read back " + what, rd, given, st=s)
    good = bad = 0
    tail = fs[-1:] if rd == "file_read" and fs[-1:] == (("num", 4, 0, "le"),) else ()  # padding
    accepted = [o for o in rs or [] if is_ok(o)]
    free = [f[1][1] for f in fs if f[0] == "fstr" and f[1][0] == "some"] if arbitrary(fs) else ()
    for o in rs or []:
        if any(isinstance(o.facts.seq.get(t), str) and not isinstance(w.str_norm(t), str) for t in free):
            continue  # elements of a type with a list of its own
        i = next((x for c, x in o.cells.items() if c[0] == "stream"), o.cells[("in",)])
        if not isinstance(i, Obj) or murky(o, w) or opaque(o.ret):
            bad += 1
            rep.unknown(RULE, "?", what, "conditions not followed")
            continue
        if not is_ok(o) and (not i["fields"] or context(o, w, accepted)):
            continue  # refused for where it is read, not for what is read
        where = fl.locate(*i["fields"][-2:])
        off = mismatches(o.events)
        if off:
            bad += 1
            if "nothing written" in off[0]:
                rep.violation(RULE, where, f"{what}: too short", f"{what}: more is read than was written: {off[0]} ({describe(w)})"[:500])
            else:
                rep.unknown(RULE, where, what, off[0][:200])
            continue
        if not is_ok(o):
            d = f"is refused: {o.ret!r}"
        elif ("end",) in i["replay"]:
            d = "is not read to its end: an element is left unfinished"
        elif without_empty(o, i["replay"]) not in ((), tail):
            d = "is not read to its end: " + ", ".join(brief(f) for f in i["replay"][:3])
        else:
            d = differ(fl, o, o.ret.f[0], original(fl, wr))
        if d is None:
            good += 1
            rep.ok(RULE, f"{what}: {len(fs)} fields, e.g. " + ", ".join(brief(f) for f in fs[:6])[:200])
            continue
        bad += 1
        if d.startswith("?"):
            rep.unknown(RULE, where, what, d[:300])
        else:
            rep.violation(RULE, where, what, f"{what}: what is written {d} ({describe(w)})"[:600])
    if good:
        n[what] = n.get(what, 0) + good
    elif rs is not None and not bad:
        rep.violation(RULE, fl.where(wr), f"{what}: never accepted", f"{what}: what is written is never accepted ({describe(w)})"[:500])


def mismatches(events):
    out = []
    for e in events:
        if e[0] == "replay mismatch":
            out.append(e[1])
        elif e[0] == "in loop":
            out += mismatches(e[2])
    return out


def narrow(s, f):
    """Recorded sizes and counts are below 2^32, or 2^31 where they are signed."""
    for _, _, gs in f[2] if f[0] == "loop" else ():
        for g in gs:
            narrow(s, g)
    x = f[2] if f[0] == "num" and isinstance(f[2], Lin) else None
    if x is not None and len(x.t) == 1 and x.c == 0:
        (a, k), = x.t.items()
        if k == 1 and a[0] == "wrap" and a[2] == 32:
            s.assume_ge0(sub((1 << (31 if a[3] else 32)) - 1, a[1]))


def differ(fl, o, v, orig, path="value"):
    """Where a value differs from the original; None: nowhere."""
    ip = fl.ip
    for _ in range(4):
        if isinstance(v, Ref):
            v = ip.load(o, v.cell, v.path)
    if isinstance(orig, Ref):
        orig = ip.load(o, orig.cell, orig.path)
    if v == orig:
        return None
    if is_int(v) and is_int(orig):
        return None if o.norm(sub(v, orig)) == 0 else f"differs at {path}: {o.norm(v)!r} instead of {o.norm(orig)!r}"
    if isinstance(v, Str) and isinstance(orig, Str):
        return None if o.str_norm(v.t) == o.str_norm(orig.t) else f"differs at {path}: {v!r} instead of {orig!r}"
    if isinstance(v, Agg):
        if isinstance(orig, Sym):
            k = fl.ctx.db.types[orig.ty]
            had = o.facts.var.get(orig.key)
            if k.get("kind") == "enum" and had != v.var:
                return f"{'? ' if had is None else ''}differs at {path}: kind {v.var} instead of {had}"
            parts = [ip.proj(o, orig, ("f", v.var, j)) for j in range(len(v.f))]
        elif isinstance(orig, Agg):
            if v.var != orig.var:
                return f"differs at {path}: kind {v.var} instead of {orig.var}"
            parts = orig.f
        else:
            return f"{'? ' if isinstance(v, Top) or isinstance(orig, Top) else ''}differs at {path}: {v!r} instead of {orig!r}"
        for j, (a, b) in enumerate(zip(v.f, parts)):
            d = differ(fl, o, a, b, f"{path}.{j}")
            if d:
                return d
        return None
    if isinstance(v, Seq) and isinstance(orig, Seq):
        return same_parts(fl, o, v.parts, orig.parts, path)
    if isinstance(v, tuple) and isinstance(orig, tuple):
        return None if o.simp(v) == o.simp(orig) else f"differs at {path}: {v!r} instead of {orig!r}"
    return f"{'? ' if isinstance(v, Top) or isinstance(orig, Top) else ''}differs at {path}: {v!r} instead of {orig!r}"


def same_parts(fl, o, ps, qs, path):
    """Where the elements of a list differ from the original ones; None: nowhere."""
    if ps == qs:
        return None
    if not ps and qs:
        n = fl.ip.seq_len(o, Seq(qs))
        if is_int(n) and o.norm(n) == 0:
            return None
    if len(ps) == len(qs) == 1 and ps[0][0] == "loop" and qs[0][0] == "sym" and ps[0][1] == ("S", qs[0][1]):
        ty = qs[0][2]
        if isinstance(ty, tuple):
            e = Agg(None, 0, (fl.ip.mk(o, ("el", qs[0][1], "k"), ty[0]), fl.ip.mk(o, ("el", qs[0][1], "v"), ty[1])))
        else:
            e = fl.ip.mk(o, ("el", qs[0][1]), ty)
        for _, d, parts in ps[0][2]:
            x = o.clone()
            x.facts.add(d)
            if len(parts) != 1 or parts[0][0] != "one":
                return f"? differs at {path}: {parts!r}"
            r = differ(fl, x, parts[0][1], e, f"{path}[]")
            if r:
                return r
        return None
    return f"? differs at {path}: {ps!r} instead of {qs!r}"


def context(o, w, accepted):
    """Was the path chosen by the options rather than by what is read? Apart from them it agrees with an accepting path."""
    d = o.facts.delta(w.facts).d
    rest = {n: {k: v for k, v in x.items() if "options" not in repr(k)} for n, x in d.items()}
    if rest == d:
        return False
    if "('el'" not in repr(rest):
        return any(agree(a.clone(), rest) for a in accepted)
    return any(agree(s.clone(), rest) for a in accepted for s in iterations(a, a.cells[("in",)]["fields"]))


def iterations(a, fs):
    """The path with what it knows about an element in an iteration, for each kind of iteration."""
    for f in fs:
        for _, d, alt in f[2] if f[0] == "loop" else ():
            s = a.clone()
            s.facts.add(d)
            yield s
            yield from iterations(s, alt)


def agree(s, d):
    """Can the facts d hold where s does?"""
    g = lambda n: d.get(n, {}).items()
    return (all(s.assume_eq0(sub(atom(k), v)) for k, v in g("sub"))
            and all((lo is None or s.assume_ge0(sub(atom(k), lo))) and (hi is None or s.assume_ge0(sub(hi, atom(k)))) for k, (lo, hi) in g("rng"))
            and all(s.assume(k, v) for k, v in g("bt"))
            and all(s.facts.var.get(k, v) == v and v not in s.facts.nvar.get(k, ()) for k, v in g("var"))
            and all(s.facts.var.get(k) not in v for k, v in g("nvar"))
            and all(s.assume(("streq", k, v), True) for k, v in g("seq"))
            and all(s.assume(("streq", k, x), False) for k, v in g("sne") for x in v)
            and all(s.assume_ge0(k) for k, _ in g("ge0")) and all(s.assume_ne0(k) for k, _ in g("ne")))

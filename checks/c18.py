"""C18: wire constants agree with the Unreal save format."""
import prims
from flow import ALL_TYPES, Agg, Flow, Ref, events, find_aggs, flatten, is_ok, murky, opaque, variant_name
from spec import CONTAINER_MAGIC, EDITOR_OBJECT, ENUMS, MAGIC, UE5_RELEASE, guid_bytes

CODE = "code has its meaning"
HISTORY = "history kind is decoded and encoded by its code"
ARGUMENT = "argument kind is encoded by its code"
ENDIAN = "numbers are little-endian"
MARK = "marker of the format"
KEY = "custom version looked up by its identifier"

HIST = "text_property::FTextHistory"
ARG = "text_property::FormatArgumentValue"
# in-memory kinds that stand for a code of another name
HIST_CODE = {"Empty": "None"}
ARG_CODE = {"Int64": "Int", "UInt64": "UInt"}


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["bool", "b32", "history", "argument", "rounding", "datestyle", "transform", "compression"])
    n = codes(fl)
    rep.floor("codes with a meaning", n, 38)
    counts = {"numbers": 0, "lookups": 0, "histories": 0}
    for hdr in (True, False):
        for name in ALL_TYPES + [None]:
            for o in fl.read_property(name, hdr) or []:
                look(fl, f"read {name or 'other type'}", o, "in", counts)
    for root in ("ftext_read", "fhistory_read", "numfmt_read", "header_read", "file_read"):
        for o in fl.try_run(root, root) or []:
            look(fl, root.replace("_", " "), o, "in", counts)
            if root == "fhistory_read" and is_ok(o):
                history(fl, "read", o, o.ret.f[0], o.cells[("in",)]["fields"], counts)
            if root == "header_read" and is_ok(o):
                magic(fl, "header read", o, o.cells[("in",)]["fields"])
    for root in ("property_write", "property_write_body", "ftext_write", "fhistory_write", "farg_write", "numfmt_write",
                 "header_write", "file_write"):
        for hdr in (True, False) if root == "property_write" else (None,):
            for o in fl.try_run(root, root, {2: hdr} if hdr is not None else {}) or []:
                look(fl, root.replace("_", " "), o, "out", counts)
                if is_ok(o) and root == "header_write":
                    magic(fl, "header write", o, o.cells[("out",)]["fields"])
                if is_ok(o) and root == "file_write":
                    container(fl, o)
    for adt, root, rule, table, other in ((HIST, "fhistory_write", HISTORY, "history", HIST_CODE),
                                          (ARG, "farg_write", ARGUMENT, "argument", ARG_CODE)):
        written(fl, adt, root, rule, ENUMS[table][2], other, counts)
    rep.coverage["instances"] = counts
    if not fl.aborted:
        rep.floor("numbers read or written", counts["numbers"], 2000)
        rep.floor("histories read and written", counts["histories"], 40)
        rep.floor("custom version lookups", counts["lookups"], 30)
        rep.floor("markers", rep.rules.get(MARK, [0])[0], 5)
    fl.coverage()
    return ("The code of every variant of the enumerated types is compared with the format's table; the primitives that "
            "read and write codes are followed for every byte. The text history and argument kinds are followed from "
            "code to value and from value to code. Every number of more than one byte that any reader or writer path "
            "transfers must be little-endian, the magic numbers and markers must be the format's, and every custom "
            "version looked up must be identified by one of the format's identifiers.")


def codes(fl):
    rep = fl.rep
    n = 0
    adts = {a["name"].rsplit("::", 1)[-1]: a for a in fl.ctx.items["adts"] if a["kind"] == "Enum"}
    for what, (name, width, table) in ENUMS.items():
        a = adts.get(name)
        if a is None:
            rep.unknown(CODE, "?", name, "type not found")
            continue
        at = a["at"].replace("/repo/", "")
        for v in a["vars"]:
            n += 1
            if v["n"] not in table:
                rep.unknown(CODE, at, f"{name}::{v['n']}", "no such meaning in the format's table")
            elif (int(v["d"]) - table[v["n"]]) % (256 ** width) == 0:
                rep.ok(CODE, f"{name}::{v['n']} = {v['d']}")
            else:
                rep.violation(CODE, at, f"{name}::{v['n']}", f"{v['n']} has the code {v['d']}, the format defines {table[v['n']]}")
        for m in table:
            if not any(v["n"] == m for v in a["vars"]):
                rep.unknown(CODE, at, f"{name}::{m}", "meaning without a variant of that name")
    return n


def numbers(fields):
    for f in fields:
        if f[0] == "loop":
            for alt in f[2]:
                yield from numbers(alt[2])
        elif f[0] == "zlib":
            yield from numbers(f[2])
        elif f[0] in ("num", "flt") and f[1] > 1:
            yield f


def look(fl, what, o, side, counts):
    rep = fl.rep
    for c, v in o.cells.items():
        if c not in ((side,),) and c[0] != "stream" or not hasattr(v, "kind"):
            continue
        for f in numbers(v["fields"] if "fields" in v.d else ()):
            counts["numbers"] += 1
            if f[3] == "le":
                rep.ok(ENDIAN, what)
            elif f[3] == "be":
                rep.violation(ENDIAN, fl.locate(f), what, f"a {f[1]}-byte number is transferred with its highest byte first")
            else:
                rep.unknown(ENDIAN, fl.locate(f), what, f"byte order {f[3]!r}")
    good = {("const",) + tuple(guid_bytes(g)): g for g in (UE5_RELEASE, EDITOR_OBJECT)}
    for e in events(o, "version lookup"):
        counts["lookups"] += 1
        if e[1] in good:
            rep.ok(KEY, "-".join(f"{w:08X}" for w in good[e[1]]))
        elif not (isinstance(e[1], tuple) and e[1][:1] == ("const",)):
            rep.unknown(KEY, "?", what, f"{e[1]!r}"[:200])
        else:
            g = bytes(e[1][1:])
            rep.violation(KEY, "?", what, "a custom version is looked up under the identifier " + g.hex() +
                          ", which is none of those the format uses for its encodings")


def code_of(o, fields):
    fs = flatten(o, fields)
    if not fs or fs[0][:2] != ("num", 1):
        return None
    lo, hi = o.rng(fs[0][2])
    return ((lo + 128) % 256 - 128) if lo == hi and lo is not None else None


def history(fl, verb, o, v, fields, counts):
    rep = fl.rep
    h = find_aggs(fl.ctx.db, v, HIST)
    c = code_of(o, fields)
    if len(h) != 1 or h[0].var is None or c is None:
        rep.unknown(HISTORY, "?", verb, f"code {c!r}")
        return
    n = variant_name(fl.ctx, HIST, h[0].var)
    want = ENUMS["history"][2].get(HIST_CODE.get(n, n))
    counts["histories"] += 1
    if want == c:
        rep.ok(HISTORY, f"{verb}: {n} = {c}")
    elif want is None or murky(o) or opaque(v):
        rep.unknown(HISTORY, "?", f"{verb} {n}", f"code {c}")
    else:
        rep.violation(HISTORY, fl.locate(*fields[:1]), f"{verb} {n}", f"code {c} stands for {n}, the format defines {want}")


def written(fl, adt, root, rule, table, other, counts):
    rep = fl.rep
    db = fl.ctx.db
    ty = [i for i, t in db.types.items() if t["k"] == "adt" and t["name"].endswith(adt)][0]
    for i, var in enumerate(db.types[ty]["vars"]):
        n = var["n"]
        st = fl.E.fresh_state()
        st.cells[("val",)] = Agg(ty, i, tuple(fl.ip.mk(st, ("held", n, j), t) for j, t in enumerate(fl.ip.field_types(ty, i))))
        want = table.get(other.get(n, n))
        for w in fl.try_run(f"write {n}", root, {0: Ref(("val",))}, st=st) or []:
            if not is_ok(w):
                continue
            raw = w.cells[("out",)]["fields"]
            c = code_of(w, raw)
            counts["histories"] += 1
            if c == want and c is not None:
                rep.ok(rule, f"write: {n} = {c}")
            elif c is None or want is None or murky(w) or opaque(raw):
                rep.unknown(rule, fl.locate(*raw[:1]), f"write {n}", f"code {c!r}")
            else:
                rep.violation(rule, fl.locate(*raw[:1]), f"write {n}", f"{n} is written with the code {c}, the format defines {want}")


def magic(fl, what, o, fields):
    fs = flatten(o, fields)
    f = fs[0] if fs else None
    v = o.norm(f[2]) if f is not None and f[0] == "num" else None
    if f is not None and f[:2] == ("num", 4) and v == MAGIC and f[3] == "le":
        fl.rep.ok(MARK, f"{what}: {MAGIC:#x}")
    elif murky(o) or opaque(f) or f is None or f[0] != "num" or f[1] != 4:
        fl.rep.unknown(MARK, fl.locate(f) if f else "?", what, f"first field {f!r}"[:200])
    else:
        fl.rep.violation(MARK, fl.locate(f), what, f"the file starts with {v!r} instead of {MAGIC:#x}")


def container(fl, o):
    """A file written in a container starts with two lengths and the marker."""
    fs = flatten(o, o.cells[("out",)]["fields"])
    if fs and fs[0][:2] == ("num", 4) and o.norm(fs[0][2]) == MAGIC:
        return
    at, mark = 0, []
    for f in fs:
        if f[0] not in ("num", "bytes") or not isinstance(f[1], int) or len(mark) >= 3:
            break
        if at >= 8:
            v = o.norm(f[2]) if f[0] == "num" and f[1] == 1 else None
            if isinstance(v, int):
                mark.append(v & 0xff)
            elif f[0] == "bytes" and isinstance(f[2], tuple) and f[2][0] == "const":
                mark += f[2][1:]
            else:
                break
        at += f[1]
    where = fl.locate(*fs[2:3])
    if len(mark) < 3:
        fl.rep.unknown(MARK, where, "container", f"{fs[:4]!r}"[:200])
    elif bytes(mark[:3]) == CONTAINER_MAGIC:
        fl.rep.ok(MARK, "container: PlZ")
    elif murky(o):
        fl.rep.unknown(MARK, where, "container", f"{mark!r}")
    else:
        fl.rep.violation(MARK, where, "container", f"the container is marked {bytes(mark)!r} instead of {CONTAINER_MAGIC!r}")

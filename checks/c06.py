"""C06: the compressed save container is self-consistent in both directions."""
from c05 import stream_fields
import prims
from flow import Flow, atom, brief, compare, flatten, is_ok, murky, opaque, same_value, size, wrap_to

# from the format: code of the compression mode -> number of compression layers
LAYERS = {0x30: 0, 0x31: 1, 0x32: 2}
MAGIC = b"PlZ"


def peel(fields):
    """(layer ids from outside to inside, contents)"""
    ids = []
    while len(fields) == 1 and fields[0][0] == "zlib":
        ids.append(fields[0][1])
        fields = fields[0][2]
    return ids, fields


def same(st, a, b, n=4):
    return same_value(st, wrap_to(st, st.norm(a), n), wrap_to(st, st.norm(b), n))


def container(fl, what, st, fields, modes):
    """Judge the fields of a written container; returns the contents of the innermost layer."""
    rep = fl.rep
    head = flatten(st, fields[:6])
    if len(head) < 6 or [f[0] for f in head[:6]] != ["num"] * 6 or [f[1] for f in head[:6]] != [4, 4, 1, 1, 1, 1]:
        rep.violation("container layout", fl.locate(*fields[:3]), what, "written container starts with "
                      + ", ".join(brief(f) for f in head[:6]))
        return None
    where = fl.locate(*fields[:2])
    if bytes(f[2] if isinstance(f[2], int) else 0 for f in head[2:5]) != MAGIC:
        rep.violation("container layout", fl.locate(*fields[2:5]), what, "the marker written is not PlZ")
        return None
    rep.ok("container layout", what)
    ids, inner = peel(fields[6:])
    if any(f[0] == "zlib" for f in inner):
        rep.violation("layers written", fl.locate(*fields[6:7]), what, "compressed data mixed with other data")
        return None
    code = head[5][2]
    if not isinstance(code, int):
        code = st.norm(code)
    inst = f"{what}, mode {code if isinstance(code, int) else '?'}"
    if not isinstance(code, int):
        rep.unknown("layers written", where, what, f"mode {code!r}")
    elif LAYERS.get(code) != len(ids):
        rep.violation("layers written", fl.locate(*fields[6:7]), inst,
                      f"mode {code:#x} stands for {LAYERS.get(code)} layers of compression, {len(ids)} are written")
    else:
        modes.add(code)
        rep.ok("layers written", f"{inst}: {len(ids)} layers")
    n = size(inner)
    for rule, f, want in (("decompressed length", head[0], n),
                          ("compressed length", head[1], atom(("clen", ids[-1])) if ids else n)):
        if same(st, f[2], want):
            rep.ok(rule, f"{inst}: {f[2]!r}"[:200])
        elif opaque(f[2]):
            rep.unknown(rule, where, inst, repr(f[2])[:200])
        else:
            rep.violation(rule, where, inst, f"{rule} {f[2]!r} is recorded, the data has {want!r}"[:500])
    return inner


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["compression"])
    # writing any value
    outs = fl.try_run("file", "file_write")
    modes, plain = set(), 0
    for o in outs or []:
        if not is_ok(o):
            continue
        fs = o.cells[("out",)]["fields"]
        if any(f[0] == "lost" for f in fs):
            rep.unknown("container layout", "file_write", "written container", "output not followed")
            continue
        first = flatten(o, fs[:1])
        if first and first[0][0] == "num" and first[0][2] == 0x53415647:
            plain += 1
            continue
        container(fl, "written container", o, fs, modes)
    if outs is not None:
        rep.floor("ways to write a plain file", plain, 1)
        rep.floor("compression modes written", len(modes), 3)
    # reading
    outs = fl.try_run("file", "file_read")
    got = set()
    for o in outs or []:
        if not is_ok(o):
            continue
        fs = o.cells[("in",)]["fields"]
        if len(fs) == 1 and fs[0][0] == "bytes":
            continue
        head = flatten(o, fs[:4])
        what = "read container"
        if [f[0] for f in head[:6]] != ["num"] * 6 or [f[1] for f in head[:6]] != [4, 4, 1, 1, 1, 1] or \
                bytes(f[2] if isinstance(f[2], int) else 0 for f in head[2:5]) != MAGIC or len(fs) != 5:
            if any(f[0] == "num" and opaque(f[2]) for f in head) or any(f[0] == "lost" for f in fs):
                rep.unknown("container read", fl.locate(*fs[:2]), what, ", ".join(brief(f) for f in fs[:6]))
            else:
                rep.violation("container read", fl.locate(*fs[:2]), what, "container read as "
                              + ", ".join(brief(f) for f in head[:7]))
            continue
        code = head[5][2] if isinstance(head[5][2], int) else o.norm(head[5][2])
        data = fs[4]
        layers = data[1] if data[0] == "zrest" else 0
        n = data[3] if data[0] == "zrest" else data[1]
        inst = f"{what}, mode {code if isinstance(code, int) else '?'}"
        if not isinstance(code, int):
            rep.violation("layers read", fl.locate(data), inst, f"accepted for the modes {code!r} with {layers} layers")
            continue
        got.add(code)
        if LAYERS.get(code) == layers:
            rep.ok("layers read", f"{inst}: {layers}")
        else:
            rep.violation("layers read", fl.locate(data), inst,
                          f"mode {code:#x} stands for {LAYERS.get(code)} layers, {layers} are peeled")
        if same(o, head[0][2], n):
            rep.ok("declared length checked", inst)
        else:
            rep.violation("declared length checked", fl.locate(fs[0]), inst,
                          "the container is accepted although the decompressed length differs from the recorded one")
        # the contents are the plain save, and the mode is kept
        want = stream_fields(o)
        for w in fl.write_back(o, "file_write", {}) or []:
            if not is_ok(w):
                rep.violation("rewritten as read", "file_write", inst, "a container that was read can not be written")
                continue
            ws = w.cells[("out",)]["fields"]
            m = set()
            inner = container(fl, "rewritten container", w, ws, m)
            if inner is None:
                continue
            if m and code not in m:
                rep.violation("mode kept", fl.locate(*ws[:2]), inst, f"mode {code:#x} is written back as {m}")
            else:
                rep.ok("mode kept", inst)
            d = compare(w, want + (("num", 4, 0, "le"),), inner)
            if d is None:
                rep.ok("contents rewritten as read", inst)
            elif opaque(d.a) or opaque(d.b) or murky(w, o):
                rep.unknown("contents rewritten as read", fl.locate(d.a, d.b), inst, repr(d)[:200])
            else:
                rep.violation("contents rewritten as read", fl.locate(d.a, d.b), f"{inst}: {d.what}", repr(d)[:400])
    if outs is not None:
        rep.floor("compression modes read", len(got), 3)
    fl.coverage()
    return ("Every path of writing an arbitrary file and of reading one. Written containers: marker, mode, number of "
            "compression layers around the plain save, recorded lengths as terms over the emitted fields. Read "
            "containers: layers peeled per mode, the recorded length equated with the decompressed data, the contents "
            "followed as the plain save, mode and contents compared with what writing the result emits.")

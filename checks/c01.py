"""C01: scalar property records are rewritten exactly as they were read."""
import prims
from flow import Flow, SCALARS, properties


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["bool", "guid"])
    counts = properties(fl, SCALARS, True)
    rep.floor("scalar types accepted with header", sum(1 for k, n in counts.items() if n and "with header" in k), 15)
    rep.floor("scalar types accepted without header", sum(1 for k, n in counts.items() if n and "without" in k), 12)
    fl.coverage()
    return ("For every scalar type name (and an arbitrary other name), with and without record header, every path of "
            "the parser that accepts was followed with the fields it consumes; the writer was then followed on the "
            "parsed value under the facts of that path, and the emitted fields (width, byte order, provenance of the "
            "value) were compared with the consumed ones. One obligation per pair of a reading and a writing path.")

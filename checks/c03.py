"""C03: struct records are rewritten exactly as they were read."""
import prims
from flow import Flow, STRUCTS, properties


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["guid"])
    counts = properties(fl, STRUCTS, False)
    rep.floor("accepted paths of structs with header", counts["StructProperty with header"], 12)
    rep.floor("accepted paths of structs without header", counts["StructProperty without header"], 12)
    fl.coverage()
    return ("Every accepting path of the struct reader: each struct type name the code treats specially under each "
            "custom version choice, and an arbitrary other name (named members in a grouped table, repeated names "
            "included). The writer is followed on the result; emitted fields must be the consumed ones in order.")

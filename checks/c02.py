"""C02: arrays, sets and maps are rewritten exactly as they were read."""
import prims
from flow import CONTAINERS, Flow, properties


def run(ctx, rep):
    fl = Flow(ctx, rep)
    prims.check(fl, ["bool"])
    counts = properties(fl, CONTAINERS, False)
    for c in CONTAINERS:
        rep.floor(f"accepted paths of {c}", counts[f"{c} with header"], 2)
    fl.coverage()
    return ("Every accepting path of the array, set and map readers, including every element type the code treats "
            "specially and an arbitrary other one. Loops are summarised by their fixpoint: per kind of iteration the "
            "fields consumed and the element stored. Elements of arbitrary type are induction hypotheses (they are "
            "rewritten as read). The writer is followed on the stored elements and must emit, per kind of iteration, "
            "the fields that were consumed, over the same iteration space in the same order.")

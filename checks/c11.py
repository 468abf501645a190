"""C11: writing never panics, whatever value is held in memory."""
from c10 import analyse
from flow import Flow

WRITERS = [
    ("property_write", {2: True}, "record with header"), ("property_write", {2: False}, "record without header"),
    ("property_write_body", {}, "record body"), ("ftext_write", {}, "text"), ("fhistory_write", {}, "text history"),
    ("farg_write", {}, "format argument"), ("numfmt_write", {}, "number format"), ("header_write", {}, "file header"),
    ("file_write", {}, "file"),
]
PRIMITIVES = ["write_string", "write_string_owned", "write_fstring", "write_guid", "write_bool", "write_b32",
              "write_enum_history", "write_enum_argument", "write_enum_rounding", "write_enum_datestyle",
              "write_enum_transform", "write_enum_compression"]


def run(ctx, rep):
    fl = Flow(ctx, rep)
    n = 0
    for root, given, what in WRITERS:
        n += analyse(fl, "write " + what, root, given)
    fl.ip.cut = False
    for r in PRIMITIVES:
        n += analyse(fl, r.replace("_", " "), r, {})
    rep.coverage["paths"] = n
    rep.floor("writer paths", n, 300)
    fl.coverage()
    return ("Every write operation on an arbitrary in-memory value with arbitrary options. Every assertion the compiler "
            "inserted, every unwrap/expect, index operation and explicit panic on those paths must be unreachable "
            "under the path's facts.")

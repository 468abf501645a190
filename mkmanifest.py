"""Writes MANIFEST.json from the list of checks below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

ENGINE = ("whole-program effect and provenance dataflow over the compiler's MIR (abstract interpretation with trace "
          "partitioning and loop fixpoints)")
TRUST = ("Trusted: rustc's MIR, the models of library calls in engine/models.py, the analysis itself. "
         "Constructs the analysis can not follow are listed in the evidence as undecided and raise no alarm.")

CHECKS = {
    "C01": (ENGINE, "All reader and writer paths of all scalar record types, arbitrary bytes. " + TRUST),
    "C02": (ENGINE, "All reader and writer paths of arrays, sets and maps; loops by fixpoint, nested values by induction. " + TRUST),
    "C03": (ENGINE, "All reader and writer paths of struct records in every position; nested values by induction. " + TRUST),
    "C04": (ENGINE, "All reader and writer paths of text values under every version choice; nested texts by induction. " + TRUST),
    "C05": (ENGINE, "All reader and writer paths of header and file. " + TRUST),
    "C06": (ENGINE, "All paths of the compressed container; compression is an uninterpreted inverse pair. " + TRUST),
    "C07": (ENGINE, "All paths of the string primitives, arbitrary strings and bytes. " + TRUST),
    "C08": (ENGINE, "All accepting reader paths and all writer paths of every record type, sizes as linear terms. " + TRUST),
    "C09": (ENGINE, "All successful paths of every counting write operation, sizes as linear terms. " + TRUST),
    "C10": (ENGINE, "All panic sites on all parser paths; interval and constructor facts. " + TRUST),
    "C11": (ENGINE, "All panic sites on all writer paths; interval and constructor facts. " + TRUST),
    "C12": (ENGINE, "All reservations on all reader paths, failing ones included, bounded by intervals; one byte at least per stored "
            "element. " + TRUST),
    "C13": (ENGINE, "Every fallible step of every reader and writer path fails once; transfers and compression streams on "
            "successful paths. " + TRUST),
    "C14": (ENGINE, "Provenance of every consumed field on every accepting reader path. " + TRUST),
    "C15": (ENGINE, "All reader paths of the header; the accepted set is computed per supported combination. " + TRUST),
    "C16": (ENGINE, "All reader paths of every record type, with every primitive step failing in turn; nested values by induction. " + TRUST),
    "C17": (ENGINE, "All reader and writer paths of version-dependent values; version intervals per path. " + TRUST),
    "C18": (ENGINE, "All codes, markers and byte orders on all reader and writer paths, compared with the format's tables. " + TRUST),
    "C19": ("derive lint over the compiler's item list; equality-fact dataflow over MIR for hand-written comparisons; call lint "
            "for hand-written hashes", "All comparison and hash implementations of the crate. " + TRUST),
    "C20": (ENGINE, "Byte provenance of all conversions; all formatting and parsing paths. " + TRUST),
    "C21": ("schema analysis over the expanded serialisation attributes and HIR", "All serialised types, fields, conditions and "
            "untagged alternatives; conditions are compared with the default by dataflow. " + TRUST),
    "C22": (ENGINE, "All constructors, accessors and conversions of the crate on arbitrary values. " + TRUST),
    "C23": ("effect analysis over the call graph, type queries", "All functions reachable from reading and writing; library code is "
            "followed where the compiler has its body and judged by name elsewhere."),
    "C24": ("typestate and lint over HIR/MIR", "All unsafe code of the crate is enumerated by the compiler; "
            "the rule set is exhaustive over it. " + TRUST),
    "C25": ("call-graph cycles and a ranking argument by dataflow", "All cycles of the reader, from an arbitrary depth. " + TRUST),
    "C26": (ENGINE, "All paths of the recognition for all pairs of numbers; all table entries as the compiler evaluates them. " + TRUST),
    "C27": (ENGINE, "All refusing paths of every reader and writer, every fallible step failing once; all printed forms. " + TRUST),
    "C28": (ENGINE, "All successful paths of every reader and writer from an arbitrary stream position; jumps are followed by the "
            "fields they cross. " + TRUST),
    "C29": (ENGINE, "All outcomes on tables with arbitrary contents; lists of pairs are analysed with three entries. " + TRUST),
}

NOT_APPLICABLE = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CHECKS:
            tech, note = CHECKS[p]
            checks.append({
                "property": p,
                "quick_cmd": f"python3 check.py {p}",
                "thorough_cmd": f"python3 check.py {p}",
                "evidence_file": f"evidence/{p}.json",
                "technique": tech,
                "level": "other",
                "level_note": note,
            })
    m = {
        "version": 1,
        "setup_cmd": "python3 extract.py",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")}
                           for p in props if p not in CHECKS],
        "notes": "Static analysis only: no check executes code of /repo. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

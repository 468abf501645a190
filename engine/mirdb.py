"""Loads the compiler's MIR dump and answers questions about types, constants and loops."""
import json


class Body:
    __slots__ = ("blocks", "locals", "argc", "names", "spread", "loops", "headers", "succ")

    def __init__(self, b):
        self.blocks = b["blocks"]
        self.locals = b["locals"]
        self.argc = b["argc"]
        self.names = b["names"]
        self.spread = b["spread"]
        self.succ = [successors(x["t"]) for x in self.blocks]
        self.headers = None

    def loop_info(self):
        if self.headers is None:
            self.headers = natural_loops(self.succ)
        return self.headers


def successors(t):
    if "call" in t or "func" in t:
        return [t["target"]] if t.get("target") is not None else []
    if "drop" in t:
        return [t["target"]]
    if "goto" in t:
        return [t["goto"]]
    if "switch" in t:
        return [b for _, b in t["br"]] + [t["other"]]
    if "assert" in t:
        return [t["target"]]
    return []


def natural_loops(succ):
    """header -> set of blocks of the natural loop(s) with that header."""
    order, seen, stack = [], {0}, [(0, iter(succ[0]))]
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(n)
            stack.pop()
    rpo = order[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    preds = {n: [] for n in rpo}
    for n in rpo:
        for s in succ[n]:
            if s in preds:
                preds[s].append(n)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for n in rpo[1:]:
            new = None
            for p in preds[n]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = idom[a]
                            while idx[b] > idx[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for n in rpo:
        for s in succ[n]:
            if s in idx and dominates(s, n):
                body = loops.setdefault(s, {s})
                work = [n]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
    return loops


class Db:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = {int(k): v for k, v in m["types"].items()}
        self.insts = m["insts"]
        self.allocs = {int(k): v for k, v in m["allocs"].items()}
        self.spans = {int(k): v for k, v in m["spans"].items()}
        self.roots = m["roots"]
        self.fns = m["fns"]
        self.bodies = {}
        self.by_text = {}
        for k, t in self.types.items():
            self.by_text.setdefault(t["text"], k)
        self.by_name = {}
        for i in self.insts:
            self.by_name.setdefault(i["name"], i["id"])
        self.root = {self.insts[r]["def"].split("::")[-1]: r for r in self.roots}

    def body(self, inst):
        b = self.bodies.get(inst)
        if b is None:
            raw = self.insts[inst]["body"]
            if not raw:
                return None
            b = self.bodies[inst] = Body(raw)
        return b

    def ty(self, t):
        return self.types[t]

    def text(self, t):
        return self.types[t]["text"]

    def find_type(self, text):
        return self.by_text[text]

    def span(self, sp):
        """(file, line) of the outermost source location, file relative to the repository."""
        s = self.spans.get(sp)
        if not s:
            return ("?", 0)
        return (s[0].replace("/repo/", ""), s[1])

    def where(self, sp):
        f, l = self.span(sp)
        return f"{f}:{l}"

    def adt(self, t):
        x = self.types[t]
        return x if x["k"] == "adt" else None

    def adt_name(self, t):
        x = self.types[t]
        return x["name"] if x["k"] == "adt" else None

    def pointee(self, t):
        x = self.types[t]
        if x["k"] in ("ref", "ptr"):
            return x["t"]
        if x["k"] == "adt" and x["box"]:
            return x["args"][0]
        return None

import wire, kinds
from p06 import U
from agx import *


def run(P, r, tier):
    w = wire.FileWire(P)
    # writers and readers: functions that open a pcu_file for writing / reading
    W = []; R = []
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        for x in f.calls():
            if x.get("qn") == "pcu_fopen":
                v = f.nodes[f.strip(f.args(x)[1])].get("cv")
                if v is None: r.bad("%s|open-mode" % f.qn, f.where(x["i"]), "cannot tell whether the file is opened for writing or reading")
                else: (W if v else R).append(f)
    r.need("writers", len(W), 1); r.need("readers", len(R), 1)
    # openers that are helpers: go up to the functions that do the item I/O
    def top(f, ops):
        seen = set(); st = [f]; out = []
        while st:
            g = st.pop()
            if g.id in seen: continue
            seen.add(g.id)
            if any(x.get("qn") in ops or any(t.id in w.rel and t.id != g.id and not t.file.startswith("pcu/") for t in P.targets(g, x)) for x in g.calls()): out.append(g)
            else: st += [P.funcs[c] for c in w.callers[g.id]] if g.id in w.callers else []
        return out
    if len(W) != len(R): r.bad("writer-reader-count", "interfaces", "%d writers but %d readers of the file format" % (len(W), len(R)))
    ws = [x for f in W for x in top(f, w.W)]; rs = [x for f in R for x in top(f, w.R)]
    if not ws or not rs: raise Broken("no writer/reader of the .bgd format found")
    w.pairs = {}; w.pair(ws[0], rs[0])
    r.need("items compared by kind", kinds.compare(P, U(P), w.pairs, {**{q: 1 for q in w.W}, **{q: 1 for q in w.R}}, w.bad), 10)
    for k in ("automaton states", "counted transfers", "count links compared", "counted groups compared", "flags compared", "writer/reader pairs"): r.count(k, w.stats[k])
    r.need("item I/O sites", len(w.sites), 20)
    for k, (a, m) in w.viol.items(): r.bad(k, a, m)
    r.explain = ("the item language of the graph file writer (inlined control-flow graph, letters = item types, repeated items linked to the "
                 "count item they are preceded by) is compared with the language the reader consumes")

"""Collective operations are entered by all processes or by none."""
from agx import *
import phase as ph, uni


def reason(U, f, b, lab):
    """text of the conditions that carry a label"""
    out = []
    for a in sorted(U.icd(f).get(b, ())):
        if U.cond[f.id].get(a, frozenset()) & lab:
            c = ph.cond_of(f, a)
            if c is None: c = f.blocks[a].get("cond")
            if c is not None: out.append(f.text(c))
    return ", ".join(sorted(set(out))[:3])


def comm_states(f):
    """block -> communicator last switched to on entry (set of keys; None: the caller's)"""
    succ = f.succ(); IN = defaultdict(set); IN[f.entry] = {None}; wl = [f.entry]; at = {}
    while wl:
        b = wl.pop(); cur = set(IN[b])
        for e in f.elems(b):
            if not isinstance(e, int): continue
            x = f.nodes[e]
            if x["k"] in CALLS:
                at[e] = set(cur)
                if x.get("qn") == "PCU_Switch_Comm":
                    y = f.nodes[f.strip(f.args(x)[0])]
                    cur = {y.get("n") or f.key(f.args(x)[0])}; at[e] = set(cur)
        for y in succ[b]:
            if not cur <= IN[y]: IN[y] |= cur; wl.append(y)
    return at


def world(P, r):
    """who takes part is told by the current communicator: the communicator of all processes is only an option's default"""
    n = 0
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        for x in f.reach_nodes():
            if x["k"] != "DeclRefExpr" or "comm_world" not in str(x.get("d", "")): continue
            n += 1
            if f.ctor: continue
            r.bad("%s|world" % f.qn, f.where(x["i"]), "the communicator of all processes is used, whichever communicator the library was switched to")
    return n


def run(P, r, tier):
    r.count("uses of the communicator of all processes", world(P, r))
    U = uni.Uni(P); U.solve()
    npt = nb = 0; O = defaultdict(dict); mem = 0
    for f in sorted(U.funs, key=lambda z: z.id):
        bo = block_of(f); at = None
        for x in f.calls():
            ts = [t for t in P.targets(f, x) if t.id in U.coll]
            if x.get("qn") not in uni.POINTS and not ts: continue
            b = bo.get(x["i"])
            if b is None: continue
            npt += 1
            lab = U.ctrl[f.id].get(b, frozenset())
            nb += len(U.icd(f).get(b, ()))
            name = x.get("qn") or (ts and ts[0].qn) or "a collective"
            if "T" in lab:
                r.bad("%s|%s|varying" % (f.qn, name), f.where(x["i"]), "%s is entered depending on a value of this process alone (%s)" % (name, reason(U, f, b, uni.T)))
            for a in lab:
                if isinstance(a, tuple): O[f.id].setdefault(a[1], (name, f.where(x["i"])))
            # branches on membership of a smaller communicator
            for a in U.icd(f).get(b, ()):
                c = ph.cond_of(f, a)
                if c is None: continue
                st = [c]; hit = False
                while st:
                    y = f.nodes[st.pop()]
                    if y["k"] == "MemberExpr" and y["d"] in U.MEMBER: hit = True
                    st += [z for z in y["c"] if z >= 0]
                if not hit: continue
                mem += 1
                if at is None: at = comm_states(f)
                for k in at.get(x["i"], {None}):
                    if k is not None and k != "smallComm" and "comm_self" not in k:
                        r.bad("%s|%s|member" % (f.qn, name), f.where(x["i"]), "%s runs on communicator %s, but only the processes of the smaller one get there" % (name, k))
    # parameters that decide whether a collective happens
    wl = list(O); nob = 0
    while wl:
        t = wl.pop()
        for fid in U.callers[t]:
            f = P.funcs[fid]
            for x in f.calls():
                if t not in [z.id for z in P.targets(f, x)] or x["i"] not in U.calls[fid]: continue
                argl, c = U.calls[fid][x["i"]]
                for n, (name, w) in list(O[t].items()):
                    if n >= len(argl): continue
                    nob += 1
                    if "T" in argl[n]:
                        r.bad("%s|%s|argument %d" % (f.qn, P.funcs[t].qn, n), f.where(x["i"]),
                              "argument %d differs between processes, and decides whether %s is entered at %s" % (n + 1, name, w))
                    for a in argl[n]:
                        if isinstance(a, tuple) and a[1] not in O[fid]:
                            O[fid][a[1]] = (name, w)
                            if fid not in wl: wl.append(fid)
    for fid, d in O.items():
        f = P.funcs[fid]
        if U.callers[fid] and not f.virt: continue
        for n, (name, w) in d.items():
            p = f.params[n]
            if U.vtype(p): r.bad("%s|parameter %s" % (f.qn, p["n"]), f.where(), "%s, which differs between processes, decides whether %s is entered at %s" % (p["n"], name, w))
    r.need("collective sites", npt, 70)
    r.count("branches those sites depend on", nb)
    r.count("call arguments that decide about a collective", nob)
    r.count("collective sites in branches of a smaller communicator", mem)
    r.count("functions analysed", len(U.funs)); r.count("functions that communicate collectively", len(U.coll))
    r.count("expression evaluations", U.nev)
    r.listing["fields that may differ between processes"] = sorted(l for l, v in U.F.items() if v)
    r.explain = ("every phase opening and sending, reduction, barrier, communicator switch and call of a function containing one, outside pcu/: the branch conditions it is (transitively) control "
                 "dependent on carry no value that may differ between processes. Values come from a flow-sensitive interprocedural taint analysis (sources: rank, received data, message arrival, local graph "
                 "sizes and contents, array and id-typed arguments of public entry points; reductions clear it; assignments under a tainted branch are tainted)")
    r.assume = ["the number of edge types and the hypergraph flag are equal on all processes that hold a graph; scalar configuration arguments of public entry points are passed equal by the caller",
                "paths ending in assert, exit or throw abort the whole job", "SplitInput::isOriginal tells exactly the members of smallComm"]

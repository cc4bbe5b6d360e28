"""P06: a number is only used as the kind of id it is."""
import units
from agx import *

LOCAL = {"VL", "VP", "GI", "EL", "ES", "PS", "WS", "XS"}


def U(P):
    if not hasattr(P, "_units"): P._units = units.Units(P).run()
    return P._units


def site(f, i, fallback="function"):
    return f.where(i) if i is not None else f.qn


def packed(u, f, x):
    """what a call puts into a message"""
    a = f.args(x)
    if len(a) < 2: return None
    y = f.nodes[f.strip(a[1])]
    if y["k"] == "DeclRefExpr":
        for (d, k), t in sorted(u.rec[f.id].items()):
            t = units.find(t)
            if d == y["d"] and isinstance(t, units.Con) and t.n in LOCAL: return t
    i = f.strip(a[1]); y = f.nodes[i]; term, vt = u.info[f.id]
    if y["k"] == "UnaryOperator" and y["op"] == "&":
        z = f.nodes[f.strip(y["c"][0])]
        if z["k"] == "DeclRefExpr" and z["d"] in vt: return vt[z["d"]]
        return term.get(z["i"])
    t = term.get(i)
    t = units.find(t) if t is not None else None
    if isinstance(t, units.Con) and t.n == "Arr": return t.a[1]
    return None


def counted(u, f, x):
    """what is written is one of the graph's counts"""
    y = f.nodes[f.strip(f.args(x)[1])]
    if y["k"] == "UnaryOperator" and y["op"] == "&": y = f.nodes[f.strip(y["c"][0])]
    d = init_of(f, y["d"]) if y["k"] == "DeclRefExpr" and y["d"].startswith("%") else None
    z = f.nodes[f.strip(d)] if d is not None else None
    return z is not None and (z.get("n") or "").startswith("num")


def run(P, r, tier):
    u = U(P)
    for (f, i, _), a, b, tau in u.conf:
        if tau: continue
        r.bad("%s|%s|%s" % (f.qn, u.show(a).split("(")[0], u.show(b).split("(")[0]), site(f, i), "%s is used where %s is needed%s" % (u.show(a), u.show(b), " in '%s'" % f.text(i)[:80] if i is not None else ""))
    np = nk = nz = 0
    for f in u.funs:
        cb = u.callback(f)
        if not cb: continue
        for x in f.reach_nodes():
            if x["k"] != "BinaryOperator" or x["op"] != "=": continue
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] != "ArraySubscriptExpr": continue
            y = f.nodes[f.strip(y["c"][0])]
            j = next((j for j, p in enumerate(f.params) if p["d"] == y.get("d")), None)
            if j is None or not isinstance(cb[j], tuple): continue
            nz += 1; t = units.find(u.info[f.id][0].get(x["c"][1]))
            if cb[j][2] == "EG" and isinstance(t, units.Con) and t.n in ("EL", "EH"):
                r.bad("%s|%s|edge id" % (f.qn, f.params[j]["n"]), f.where(x["i"]), "%s is given to the partitioner as the global id of an edge" % u.show(t))
    for f in u.funs:
        for x in f.calls():
            if x.get("qn") not in ("PCU_Comm_Pack", "PCU_Comm_Write", "pcu_write_unsigneds"): continue
            np += 1; wr = x["qn"] == "pcu_write_unsigneds"
            t = packed(u, f, x)
            t = units.find(t) if t is not None else None
            if isinstance(t, units.Con):
                nk += 1
                if wr and t.n in ("VL", "VP", "EH", "EL") and t.tag != "nlv" and not counted(u, f, x):
                    r.bad("%s|writes|%s" % (f.qn, t.n), f.where(x["i"]), "a %s is written to a file, where it means something else when it is read" % u.show(t))
                if not wr and t.n in LOCAL: r.bad("%s|sends|%s" % (f.qn, t.n), f.where(x["i"]), "a %s is sent to another process, where it means something else" % u.show(t))
    known = sum(1 for f in u.funs for t in u.info[f.id][0].values() if isinstance(units.find(t), units.Con))
    tot = sum(len(u.info[f.id][0]) for f in u.funs)
    r.need("functions analysed", len(u.funs), 300)
    r.need("flow, index and arithmetic constraints", u.nops, 4000)
    r.need("expressions whose kind was inferred", known, 2500)
    r.count("ids written for the partitioner", nz)
    r.count("expressions evaluated", tot)
    r.count("definition webs", u.nweb)
    r.need("values packed into messages", np, 20); r.count("packed values of known kind", nk)
    r.explain = ("Every integer and handle expression gets a kind (local/global vertex id, ghost index, local/global edge id, slot of each list, part id, edge type, handle code) by unification from the "
                 "declared meaning of the graph's fields and interface; an expression required to be of two kinds is reported, and so is a process-local id put into a message.")
    r.assume = ["kinds are fixed only for the fields and interface functions listed in engine/units.py; expressions connected to none of them have no kind and are not judged",
                "functions that build a graph choose their own ids, so arguments of construct* are not judged; binGraph's edge list holds global ids while it is being built"]

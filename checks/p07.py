"""P07: whatever is done for an edge type uses that edge type's data."""
import units
from p06 import U, site
from agx import *


def reads(P, u, g, k, seen=None):
    """the edge-type fields of its k-th parameter that a function (with its callees) reads"""
    if not hasattr(u, "_reads"): u._reads = {}
    if (g.id, k) in u._reads: return u._reads[g.id, k]
    u._reads[g.id, k] = set(); out = set()
    if k >= len(g.params): return out
    v = g.params[k]["d"]
    for x in g.reach_nodes():
        if x["k"] == "MemberExpr" and u.optfield(x["d"]) and root(g, x["c"][0]) == v:
            p = g.parent.get(x["i"]); px = g.nodes[p] if p is not None else None
            if not (px is not None and px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == x["i"]): out.add(x["d"])
    for x in g.calls():
        for j, a in enumerate(g.args(x)):
            if root(g, a) == v:
                for h in P.targets(g, x): out |= reads(P, u, h, j)
    u._reads[g.id, k] = out
    return out


def root(f, i):
    y = f.nodes[f.strip(i)]
    while y["k"] == "UnaryOperator" and y["op"] in ("*", "&"): y = f.nodes[f.strip(y["c"][0])]
    return y["d"] if y["k"] == "DeclRefExpr" else None


def options(P, u, r, f, sc, bo):
    """an options object made where a type is in use has its edge type set before code reads it"""
    n = 0
    term = u.info[f.id][0]
    for x in f.reach_nodes():
        # an edge-type option set to a fixed type
        if x["k"] == "BinaryOperator" and x["op"] == "=":
            l = f.nodes[f.strip(x["c"][0])]
            if l["k"] == "MemberExpr" and u.optfield(l["d"]) and str(f.nodes[f.strip(x["c"][1])].get("cv")) in ("0", "1", "2", "3"):
                b = bo.get(x["i"])
                for nm, body in sc:
                    if body is None or b in body:
                        r.bad("%s|%s|literal" % (f.qn, l["n"]), f.where(x["i"]), "'%s' fixes the edge type where the edge type in use is '%s'" % (f.text(x["i"])[:70], nm)); break
    for x in f.calls():
        for j, a in enumerate(f.args(x)):
            v = root(f, a)
            if v is None: continue
            need = set()
            for g in P.targets(f, x): need |= reads(P, u, g, j)
            if not need: continue
            b = bo.get(x["i"])
            body = next(((nm, bd) for nm, bd in sc if bd is None or b in bd), None)
            if body is None: continue
            nm, bd = body
            mk = [at for k, val, at in var_uses(f).get(v, []) if k == "def" and val is not None and (bd is None or bo.get(at) in bd) and fresh(f, val, nm)]
            if not mk: continue
            n += 1
            for fld in need:
                sets = [y for y in f.reach_nodes() if y["k"] == "BinaryOperator" and y["op"] == "=" and f.nodes[f.strip(y["c"][0])]["k"] == "MemberExpr" and f.nodes[f.strip(y["c"][0])]["d"] == fld and root(f, f.nodes[f.strip(y["c"][0])]["c"][0]) == v]
                sets += [y for y in f.calls() if y["i"] != x["i"] and any(root(f, z) == v for z in f.args(y)) and any(says(f, z, nm) for z in f.args(y))]
                for d in mk:
                    if passes(f, d, x["i"], [y["i"] for y in sets]): continue
                    r.bad("%s|%s|option" % (f.qn, fld.split("::")[-1]), f.where(x["i"]), "'%s' works with the options' default %s where the edge type in use is '%s'" % (f.text(x["i"])[:70], fld.split("::")[-1], nm))
    return n


def says(f, i, nm):
    z = f.nodes[i]
    if z["k"] in ("DeclRefExpr", "MemberExpr") and (z["n"] == nm or f.text(i) == nm): return True
    return any(says(f, c, nm) for c in z.get("c", []) if isinstance(c, int) and c >= 0)


def fresh(f, src, nm):
    """a new object that was handed no edge type"""
    y = f.nodes[f.strip(src)]
    if y["k"] not in CALLS and y["k"] != "CXXNewExpr": return False
    return not says(f, y["i"], nm)


def passes(f, d, use, sets):
    """every path from the definition to the use runs through one of the assignments"""
    pos = {}
    for b in f.succ():
        for k, e in enumerate(f.elems(b)):
            if isinstance(e, int): pos[e] = (b, k)
    def at(i):
        while i is not None and i not in pos: i = f.parent.get(i)
        return pos.get(i)
    D, Uu, S = at(d), at(use), {at(s) for s in sets}
    if D is None or Uu is None: return True
    seen = set(); st = [(D[0], D[1] + 1)]
    while st:
        b, k = st.pop()
        if (b, k) in seen: continue
        seen.add((b, k))
        n = len(f.elems(b))
        while k < n:
            if (b, k) == Uu: return False
            if (b, k) in S: break
            k += 1
        else:
            for t in f.succ()[b]: st.append((t, 0))
    return True


def run(P, r, tier):
    u = U(P)
    for (f, i, _), a, b, tau in u.conf:
        if not tau:
            # a handle or iterator number built without its edge type
            if {getattr(units.find(z), "n", None) for z in (a, b)} & {"X:M", "X:M1"} and {getattr(units.find(z), "n", None) for z in (a, b)} & {"E", "WIt", "XIt", "EIt", "GIt"}:
                r.bad("%s|%s|untyped" % (f.qn, u.show(b)), site(f, i), "a number without the edge type in it becomes a %s%s" % (u.show(b), " in '%s'" % f.text(i)[:80] if i is not None else ""))
            continue
        r.bad("%s|%s|%s" % (f.qn, u.show(a), u.show(b)), site(f, i), "edge type mixed: '%s' and '%s' meet%s" % (u.show(a), u.show(b), " in '%s'" % f.text(i)[:80] if i is not None else ""))
    # the type taken out of a handle is whatever the handle says
    for tau, (f, i, _) in u.decoded:
        c = units.find(tau)
        if isinstance(c, units.Con) and c.n[2:].lstrip("-").isdigit():
            r.bad("%s|decoded|%s" % (f.qn, c.n[2:]), site(f, i), "the edge type taken out of a handle%s is then taken for type %s" % (" in '%s'" % f.text(i)[:60] if i is not None else "", c.n[2:]))
    r.need("edge types taken out of handles", len(u.decoded), 5)
    ns = nd = nc = nl = no = 0
    for f in u.funs:
        sc = u.etypes(f)
        term, vt = u.info[f.id]
        ns += len(sc)
        # a parameter nobody reads next to a query of the default type
        readv = {x["d"] for x in f.reach_nodes() if x["k"] == "DeclRefExpr"}
        un = [p["n"] for p in f.params if p["n"] and p["d"] not in readv and p["ct"] in ("int", "const int", "long")]
        if un:
            for x in f.calls():
                if (x.get("qn") or "").startswith("agi::Ngraph::") and any(str(f.nodes[f.strip(a)].get("cv")) in ("0", "1", "2", "3") for a in u.typeargs(f, x)):
                    r.bad("%s|%s|default" % (f.qn, x["n"]), f.where(x["i"]), "'%s' fixes the edge type and the parameter '%s' is never read" % (f.text(x["i"])[:70], un[0]))
        if not sc: continue
        bo = block_of(f)
        no += options(P, u, r, f, sc, bo)
        for x in f.reach_nodes():
            b = bo.get(x["i"])
            if x["k"] in CALLS and (x.get("qn") or "").startswith("agi::Ngraph::"):
                nc += 1
                for d in u.defaulted(f, x):
                    nd += 1
                    for n, body in sc:
                        if body is None or b in body:
                            r.bad("%s|%s|default" % (f.qn, x["n"]), f.where(x["i"]), "'%s' leaves the edge type to its default where the edge type in use is '%s'" % (f.text(x["i"])[:70], n)); break
            idx = []
            if x["k"] == "ArraySubscriptExpr":
                t = units.find(term.get(x["c"][0], units.Var()))
                if isinstance(t, units.Con) and (t.n.startswith("TT:") or t.n == "Arr" and isinstance(units.find(t.a[0]), units.Con) and units.find(t.a[0]).n == "T"): idx = [x["c"][1]]
            elif x["k"] in CALLS: idx = [a for a in u.typeargs(f, x) if f.nodes[a]["k"] != "CXXDefaultArgExpr"]
            for a in idx:
                lt = f.nodes[f.strip(a)].get("cv")
                if lt is None:
                    q = units.find(term.get(a, units.Var()))
                    if isinstance(q, units.Con) and q.n == "T" and isinstance(units.find(q.a[0]), units.Con) and units.find(q.a[0]).n == "τ:last": lt = "0"
                if lt is None: continue
                nl += 1
                if str(lt) not in ("0", "1", "2", "3"): continue
                for n, body in sc:
                    if body is None or b in body:
                        r.bad("%s|%s|literal" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "'%s' names a fixed edge type where the edge type in use is '%s'" % (f.text(x["i"])[:70], n)); break
    ncon = sum(1 for f in u.funs for t in u.info[f.id][0].values() if isinstance(units.find(t), units.Con) and u.taus(t))
    r.need("functions analysed", len(u.funs), 300)
    r.need("variables standing for the edge type in use", ns, 40)
    r.need("expressions carrying an edge type", ncon, 500)
    r.need("graph interface calls where an edge type is in use", nc, 30)
    r.count("options objects made where an edge type is in use and handed to code that reads their edge type", no)
    r.count("of these leaving the type to its default", nd)
    r.count("fixed types chosen there", nl)
    r.explain = ("Handles, local edge ids, list slots and iterators carry the edge type they were made for (the parameter, the loop's type variable, or a literal), inferred through arrays, containers and calls; "
                 "two different types meeting in one place, a query that leaves its type to the default and a fixed type where a type is in use are reported.")
    r.assume = ["an edge type held in an object's field is not followed", "where a function has no edge type in scope, leaving the type to its default (type 0) is taken as intended"]

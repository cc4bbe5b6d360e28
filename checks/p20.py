"""Lists that describe the same things entry by entry stay in step: they grow together, are read at the same place, and their entries are about the same thing."""
from agx import *
import phase as ph, wire, p13

PUSH = {"push_back", "emplace_back"}
OTHER = {"clear", "resize", "assign", "swap", "insert", "erase", "pop_back", "emplace", "operator="}
IDS = {"globalID", "localID"}
SKIP = ("pcu/",)


def isvec(ct):
    c = (ct or "").replace("const ", "").rstrip("&* ")
    return c.startswith(("std::vector<", "std::deque<"))


class Lists:
    def __init__(s, P, r):
        s.P = P; s.r = r; s.rel = set(); s.opt = set(); s.up = {}; s.why = {}
        s.funs = sorted((f for f in P.funcs.values() if not f.file.startswith(SKIP)), key=lambda z: z.id)
        s.use = {f.id: s.indexed(f) for f in s.funs}
        for f in s.funs: s.local(f)
        s.flow()

    # ------------------------------------------------------------- names
    def canon(s, f, i):
        """which list or array an expression denotes: ('v', function, variable), ('f', field), each with a depth of subscripts"""
        depth = 0
        for _ in range(14):
            i = f.strip(i); x = f.nodes[i]; k = x["k"]
            if k == "DeclRefExpr":
                d = x["d"]; v = f.vars.get(d, {})
                if not d.startswith("%"): return None
                ct = v.get("ct", "")
                if ct.endswith(("&", "*")) and d not in {p["d"] for p in f.params}:
                    e = init_of(f, d)
                    if e is not None and f.nodes[f.strip(e)]["k"] in ("DeclRefExpr", "MemberExpr", "UnaryOperator", "ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
                        y = f.nodes[f.strip(e)]
                        if y["k"] != "CXXMemberCallExpr" or y.get("n") in ("at", "data"): i = e; continue
                return ("v", f.id, d, depth)
            if k == "MemberExpr":
                if x.get("dk") == "Field": return ("f", x["d"], "", depth)
                return None
            if k == "ArraySubscriptExpr": depth += 1; i = x["c"][0]; continue
            if k == "CXXOperatorCallExpr" and x.get("n") == "operator[]": depth += 1; i = x["c"][1]; continue
            if k == "CXXOperatorCallExpr" and x.get("n") in ("operator*", "operator->"): i = x["c"][1]; continue
            if k == "CXXMemberCallExpr" and x.get("n") == "at" and f.obj(x) is not None: depth += 1; i = f.obj(x); continue
            if k == "CXXMemberCallExpr" and x.get("n") in ("data", "begin") and f.obj(x) is not None: i = f.obj(x); continue
            if k == "UnaryOperator" and x["op"] == "&":
                y = f.nodes[f.strip(x["c"][0])]      # &v[0]: the list itself
                if y["k"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr") and y.get("n", "operator[]") == "operator[]":
                    i = y["c"][0] if y["k"] == "ArraySubscriptExpr" else y["c"][1]; continue
                i = x["c"][0]; continue
            if k == "UnaryOperator" and x["op"] == "*": i = x["c"][0]; continue
            if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and x["c"]: i = x["c"][0]; continue
            return None
        return None

    def subs(s, f, x):
        """(base expression, index expression) of an element access"""
        k = x["k"]
        if k == "ArraySubscriptExpr": return x["c"][0], x["c"][1]
        if k == "CXXOperatorCallExpr" and x.get("n") == "operator[]" and len(x["c"]) > 2:
            if "map<" in (f.nodes[f.strip(x["c"][1])].get("ct") or ""): return None
            return x["c"][1], x["c"][2]
        if k == "CXXMemberCallExpr" and x.get("n") == "at" and f.obj(x) is not None and f.args(x): return f.obj(x), f.args(x)[0]
        return None

    def indexed(s, f):
        """{index variable: {list: guarded by its own length?}}"""
        out = defaultdict(dict); cls = {}; by = {}
        for l in p13.loop_bounds(f):            # counters that run over the same numbers are one index
            if l["step"] == 1 and l["start"] is not None:
                b = rkey(f, l["bound"])
                cls[l["var"]] = by.setdefault((l["start"], l["op"], b), l["var"])
        for x in f.reach_nodes():
            q = s.subs(f, x)
            if q is None: continue
            i = f.nodes[f.strip(q[1])]
            if i["k"] != "DeclRefExpr" or not i["d"].startswith("%"): continue
            c = s.canon(f, q[0])
            if c is None: continue
            v = cls.get(i["d"], i["d"])
            out[v][c] = out[v].get(c, True) and s.guarded(f, x["i"], c)
        return out

    def guarded(s, f, at, c):
        """is the access made only when the list is long enough, or there at all?"""
        cs = []; p = f.parent.get(at); ch = at
        while p is not None:
            y = f.nodes[p]
            if y["k"] == "ConditionalOperator" and y["c"][0] != ch: cs.append(y["c"][0])
            ch = p; p = f.parent.get(p)
        b = block_of(f).get(at); cd = control_deps(f); lp = loops(f)
        for h in cd.get(b, ()):
            if h in lp: continue
            e = ph.cond_of(f, h)
            if e is not None: cs.append(e)
        for e in cs:
            st = [e]
            while st:
                j = st.pop(); y = f.nodes[j]
                if y["k"] in CALLS and y.get("n") in ("size", "empty") and f.obj(y) is not None and s.canon(f, f.obj(y)) == c: return True
                if y["k"] == "DeclRefExpr" and (f.nodes[j].get("ct") or "").endswith("*") and s.canon(f, j) == c: return True
                st += y["c"]
        return False

    # ------------------------------------------------------------- relations
    def relate(s, a, b, why):
        if a is None or b is None or a == b: return False
        k = (a, b) if str(a) < str(b) else (b, a)
        if k in s.rel: return False
        s.rel.add(k); s.why[k] = why; return True

    def local(s, f):
        for v, m in s.use[f.id].items():
            l = list(m)
            s.opt |= {c for c in l if m[c]}
            for n, a in enumerate(l):
                for b in l[n + 1:]: s.relate(a, b, "both read at '%s' in %s" % (f.vars.get(v, {}).get("n") or v, f.qn))
        for x in f.reach_nodes():           # an array as long as a list
            if x["k"] == "CXXNewExpr" and x.get("arr") and isinstance(x.get("sz"), int) and x["sz"] >= 0:
                y = f.nodes[f.strip(x["sz"])]
                if y["k"] in CALLS and y.get("n") == "size" and f.obj(y) is not None:
                    p = f.parent.get(x["i"])
                    while p is not None and (f.nodes[p]["k"] in CASTS or f.nodes[p]["k"] == "ParenExpr"): p = f.parent.get(p)
                    t = None
                    if p is not None and f.nodes[p]["k"] == "BinaryOperator" and f.nodes[p]["op"] == "=": t = s.canon(f, f.nodes[p]["c"][0])
                    elif p is not None and f.nodes[p]["k"] == "DeclStmt":
                        for d in f.nodes[p]["decls"]:
                            if d["init"] >= 0 and f.strip(d["init"]) == x["i"]: t = ("v", f.id, d["d"], 0)
                    s.relate(t, s.canon(f, f.obj(y)), "allocated as long as the other")

        for x in f.reach_nodes():           # an entry found by the length another list has
            q = s.subs(f, x)
            if q is None: continue
            y = f.nodes[s.dig(f, q[1])]
            if y["k"] == "BinaryOperator" and y["op"] == "-": y = f.nodes[f.strip(y["c"][0])]
            if y["k"] in CALLS and y.get("n") == "size" and f.obj(y) is not None and isvec(f.nodes[f.strip(f.obj(y))].get("ct")):
                a, c = s.canon(f, q[0]), s.canon(f, f.obj(y))
                if a and c and a[3] == c[3] and a[0] == c[0]: s.relate(a, c, "read at the length of the other in %s" % f.qn)
        G = defaultdict(set); bo = block_of(f); ps = {p["d"] for p in f.params}; cd = control_deps(f)
        for x in f.calls():
            if x.get("n") in PUSH and f.obj(x) is not None:
                c = s.canon(f, f.obj(x))
                if c is not None and (c[0] == "f" or c[2] in ps) and c[3] == 0: G[frozenset(cd.get(bo.get(x["i"]), ())), inner_loop(f, bo.get(x["i"])), c[0]].add(c)
        for m in G.values():
            for a in m:
                for b in m: s.relate(a, b, "grown together in %s" % f.qn)

    def stored(s, f):
        """{parameter: field} for lists and arrays handed to a constructor or setter to keep"""
        m = {}; ps = {p["d"] for p in f.params if p.get("ct", "").endswith(("&", "*"))}
        for b in f.succ():
            for e in f.elems(b):
                if isinstance(e, dict) and e.get("x") == "init" and isinstance(e.get("v"), int) and e["v"] >= 0:
                    c = s.canon(f, e["v"])
                    if c is not None and c[0] == "v" and c[2] in ps and c[3] == 0 and (e.get("ct") or "").endswith(("&", "*")): m[c] = ("f", e["d"], "", 0)
        for x in f.reach_nodes():
            if x["k"] == "BinaryOperator" and x["op"] == "=" and (f.nodes[f.strip(x["c"][0])].get("ct") or "").endswith("*"):
                a = s.canon(f, x["c"][0]); c = s.canon(f, x["c"][1])
                if a and c and a[0] == "f" and c[0] == "v" and c[2] in ps and a[3] == c[3] == 0: m[c] = a
        return m

    def binds(s, f, x):
        """[(callee, {parameter list: argument list})] of a call"""
        out = []
        for t in s.P.targets(f, x):
            m = {}
            for n, a in enumerate(f.args(x)):
                if n >= len(t.params): break
                ct = t.params[n].get("ct", "")
                if isvec(ct) and ct.endswith(("&", "*")) or ct.rstrip("& ").endswith("*"):
                    c = s.canon(f, a)
                    if c is not None: m[("v", t.id, t.params[n]["d"], 0)] = c
            if m: out.append((t, m))
        return out

    def flow(s):
        ch = True; B = [(f, x, b) for f in s.funs for x in f.calls() for b in s.binds(f, x)]
        B += [(f, None, (f, m)) for f in s.funs for m in [s.stored(f)] if m]
        s.same = defaultdict(set)
        for f, x, (t, m) in B:
            for p, a in m.items(): s.same[p].add(a); s.same[a].add(p)
        n = 0
        while ch and n < 20:
            ch = False; n += 1
            for f, x, (t, m) in B:
                ps = list(m)
                for i, p in enumerate(ps):
                    if p in s.opt and m[p] not in s.opt: s.opt.add(m[p]); ch = True
                    if t.cls and f.cls == t.cls and x is not None:       # a list of the same object
                        for q in s.partners(m[p]):
                            if q[0] == "f" and q[1].rpartition("::")[0] == t.cls: ch |= s.relate(p, q, s.why[(m[p], q) if str(m[p]) < str(q) else (q, m[p])])
                        for q in s.partners(p):
                            if q[0] == "f" and q[1].rpartition("::")[0] == t.cls: ch |= s.relate(m[p], q, s.why[(p, q) if str(p) < str(q) else (q, p)])
                    for q in ps[i + 1:]:
                        k = (p, q) if str(p) < str(q) else (q, p)
                        if k in s.rel: ch |= s.relate(m[p], m[q], "both given to %s, which reads them in step" % t.qn)
                        k = (m[p], m[q]) if str(m[p]) < str(m[q]) else (m[q], m[p])
                        if k in s.rel: ch |= s.relate(p, q, s.why[k])

    def partners(s, c):
        return {b if a == c else a for a, b in s.rel if c in (a, b)}

    # ------------------------------------------------------------- growth
    def grown(s, f):
        """{list: [call]} pushed in f; and lists changed in any other way"""
        out = defaultdict(list); touched = set()
        for x in f.reach_nodes():
            if x["k"] not in CALLS: continue
            n = x.get("n"); o = f.obj(x)
            if o is None and x.get("opcall") and n == "operator=" and len(x["c"]) > 1: o = x["c"][1]
            if o is not None and isvec(f.nodes[f.strip(o)].get("ct")):
                c = s.canon(f, o)
                if c is None: continue
                if n in PUSH: out[c].append(x)
                elif n in OTHER: touched.add(c)
            if not (x.get("qn") or "").startswith("std::"):
                for t in s.P.targets(f, x):
                    for k, a in enumerate(f.args(x)):
                        if k < len(t.params) and isvec(t.params[k].get("ct")) and t.params[k]["ct"].endswith(("&", "*")) and not t.params[k]["ct"].startswith("const"):
                            c = s.canon(f, a)
                            if c is not None and s.grows(t, ("v", t.id, t.params[k]["d"], 0)): touched.add(c)
                    for c in s.fieldgrowth(t): touched.add(c)
                if not s.P.targets(f, x):
                    for a in f.args(x):
                        if isvec(f.nodes[f.strip(a)].get("ct")):
                            c = s.canon(f, a)
                            if c is not None: touched.add(c)
        for x in f.reach_nodes():           # made with a length, or as a copy
            if x["k"] == "DeclStmt":
                for d in x["decls"]:
                    if isvec(f.vars.get(d["d"], {}).get("ct")) and d["init"] >= 0 and f.nodes[f.strip(d["init"])]["c"]: touched.add(("v", f.id, d["d"], 0))
        return out, touched

    def grows(s, t, c, seen=None):
        seen = seen or set()
        if (t.id, c) in seen: return False
        seen.add((t.id, c))
        for x in t.calls():
            o = t.obj(x)
            if o is not None and x.get("n") in PUSH | OTHER and s.canon(t, o) == c: return True
            for g, m in s.binds(t, x):
                for p, a in m.items():
                    if a == c and s.grows(g, p, seen): return True
        return False

    def fieldgrowth(s, t, seen=None):
        """fields grown by a callee"""
        if not hasattr(s, "fg"): s.fg = {}
        if t.id in s.fg: return s.fg[t.id]
        s.fg[t.id] = set(); out = set()
        for x in t.calls():
            o = t.obj(x)
            if o is not None and x.get("n") in PUSH | OTHER:
                c = s.canon(t, o)
                if c is not None and c[0] == "f": out.add(c)
            for g in s.P.targets(t, x): out |= s.fieldgrowth(g)
        s.fg[t.id] = out
        return out

    def name(s, f, c):
        return (f.vars.get(c[2], {}).get("n") or c[2].split("#")[0].lstrip("%")) if c[0] == "v" else c[1].split("::")[-1]

    def step(s, f, r):
        """every path through one round grows partners by the same number of entries"""
        G, touched = s.grown(f); bo = block_of(f); lp = loops(f); n = 0
        ctor = f.ctor or f.dtor
        def inner(b):
            hs = [h for h in lp if b in lp[h]]
            return min(hs, key=lambda h: len(lp[h])) if hs else None
        for a in sorted(G, key=str):
            for b in sorted(s.partners(a), key=str):
                if b[0] == "v" and b[1] != f.id or b[3] != a[3]: continue
                if b in touched or a in touched: continue
                if b not in G:
                    if b in s.opt and not s.filled(f, b) or b[0] == "v" and not isvec(f.vars.get(b[2], {}).get("ct")) or b[0] == "f" and not s.isvecfield(b): continue
                    if b[0] == "f" and a[0] != "f": continue
                    n += 1
                    r.bad("%s|alone|%s|%s" % (f.qn, s.name(f, a), s.name(f, b)), f.where(G[a][0]["i"]), "'%s' gets an entry but '%s', which has one for each of them, does not (%s)" % (s.name(f, a), s.name(f, b), s.why[(a, b) if str(a) < str(b) else (b, a)]))
                    continue
                if str(b) < str(a): continue
                ha = {inner(bo[x["i"]]) for x in G[a]}; hb = {inner(bo[x["i"]]) for x in G[b]}
                if ha != hb: 
                    r.undecided("%s|%s|%s" % (f.qn, s.name(f, a), s.name(f, b)), f.where(G[a][0]["i"]), "filled by different loops"); continue
                n += 1
                wt = {x["i"]: 1 for x in G[a]}; wt.update({x["i"]: -1 for x in G[b]})
                for h in ha:
                    body = lp[h] if h is not None else set(f.succ())
                    start = h if h is not None else f.entry
                    bad = s.diffs(f, start, body, h, wt)
                    if bad:
                        at = G[a][0] if bad > 0 else G[b][0]; l, m = (a, b) if bad > 0 else (b, a)
                        r.bad("%s|step|%s|%s" % (f.qn, s.name(f, a), s.name(f, b)), f.where(at["i"]), "on some path '%s' gets an entry but '%s', which has one for each of them, does not (%s)" % (s.name(f, l), s.name(f, m), s.why[(a, b) if str(a) < str(b) else (b, a)]))
        return n

    def filled(s, f, c):
        """a list the caller handed over to be filled"""
        if c[0] != "v": return False
        for p in f.params:
            if p["d"] == c[2]: return isvec(p.get("ct")) and p["ct"].endswith("&") and not p["ct"].startswith("const")
        return False

    def isvecfield(s, c):
        for rc in s.P.recs.values():
            for q in rc.get("fields", []):
                if q.get("d") == c[1]: return isvec(q.get("ct"))
        return False

    def diffs(s, f, start, body, h, wt):
        """a non-zero difference in growth on some path through one round, or 0"""
        lp = loops(f); inn = [lp[g] for g in lp if g != h and g in body]
        IN = {start: {0}}; wl = [start]; k = 0
        while wl:
            b = wl.pop(); k += 1
            if k > 3000: return 0
            d = sum(wt.get(e, 0) for e in f.elems(b) if isinstance(e, int))
            out = {v + d for v in IN[b]}
            ss = [y for y in f.succ()[b]]
            if h is None and (b == f.exit or not ss):
                if b == f.exit or s.returns(f, b):
                    w = [v for v in out if v]
                    if w: return w[0]
            for y in ss:
                if y == h or y not in body:
                    w = [v for v in out if v]
                    if w and (y == h or y == f.exit or s.normal(f, y)): return w[0]
                    continue
                new = {v for v in out if abs(v) < 4} - IN.get(y, set())
                if new: IN.setdefault(y, set()).update(new); wl.append(y)
        return 0

    def returns(s, f, b): return False

    def normal(s, f, y):
        """does the way on from block y end normally (not only in a throw)?"""
        seen = {y}; st = [y]
        while st:
            b = st.pop()
            if any(isinstance(e, int) and f.nodes[e]["k"] == "CXXThrowExpr" for e in f.elems(b)): continue
            if b == f.exit: return True
            for z in f.succ()[b]:
                if z not in seen: seen.add(z); st.append(z)
        return False

    # ------------------------------------------------------------- reading at one place
    def places(s, f, r):
        """in a round of a loop over the entries, partners are read at that entry"""
        bo = block_of(f); n = 0
        for l in p13.loop_bounds(f):
            y = f.nodes[f.strip(l["bound"])]
            y = f.nodes[s.dig(f, y["i"])]
            if y["k"] not in CALLS or y.get("n") != "size" or f.obj(y) is None or not isvec(f.nodes[f.strip(f.obj(y))].get("ct")): continue
            g = s.canon(f, f.obj(y))
            if g is None: continue
            body = loops(f)[l["header"]]; acc = []
            fam = {g} | s.partners(g) | {c for m in s.use[f.id].values() if g in m for c in m}
            for x in f.reach_nodes():
                if bo.get(x["i"]) not in body: continue
                q = s.subs(f, x)
                if q is not None and f.nodes[f.strip(q[1])].get("d") == l["var"]: fam.add(s.canon(f, q[0]))
            fam.discard(None)
            used = {x["d"] for x in f.reach_nodes() if x["k"] == "DeclRefExpr" and bo.get(x["i"]) in body}
            before = set()                       # values taken before the loop and used in it
            for v in used:
                d = single_def(f, v) if v in f.vars else None
                st = [d] if d is not None and bo.get(d) not in body else []
                while st:
                    j = st.pop(); before.add(j); st += f.nodes[j]["c"]
            for x in f.reach_nodes():
                if bo.get(x["i"]) not in body and x["i"] not in before: continue
                q = s.subs(f, x)
                if q is None: continue
                c = s.canon(f, q[0])
                if c in fam: acc.append((x, c, q[1]))
            n += len(acc)
            for x, c, i in acc:
                if f.nodes[f.strip(i)].get("cv") is not None and (c == g or any(l["var"] in wire.refs(f, j) for z, d, j in acc if z is not x)):
                    if s.compared(f, x["i"], c): continue
                    r.bad("%s|place|%s" % (f.qn, s.name(f, c)), f.where(x["i"]), "'%s': one entry is taken for every round of the loop over '%s'" % (f.text(x["i"])[:70], s.name(f, g)))
            # one list forwards, its partner backwards
            def coef(i):
                for z, c in p13.lin(f, i).items():
                    if z != () and str(z).find(l["var"]) >= 0: return c
                return None
            for x, c, i in acc:
                if c == g or f.nodes[f.strip(i)].get("cv") is not None: continue
                if (coef(i) or 0) < 0 and any(d != c and (coef(j) or 0) > 0 for z, d, j in acc):
                    r.bad("%s|backwards|%s" % (f.qn, s.name(f, c)), f.where(x["i"]), "'%s' is taken from the other end than the lists it goes with" % f.text(x["i"])[:70])
            # an entry computed for each round from nothing of that round
            for x, c, i in acc:
                if l["var"] not in wire.refs(f, i): continue
                p = f.parent.get(x["i"])
                if p is None or f.nodes[p]["k"] != "BinaryOperator" or f.nodes[p]["op"] != "=" or f.nodes[p]["c"][0] != x["i"]: continue
                rhs = f.nodes[p]["c"][1]
                if s.varies(f, rhs, body) or not s.hascall(f, rhs): continue
                r.bad("%s|same|%s" % (f.qn, s.name(f, c)), f.where(p), "'%s' gives every entry the same value, whatever entry of '%s' it belongs to" % (f.text(p)[:80], s.name(f, g)))
        return n

    def walks(s, f, r):
        """a list read in every round of an iteration, at a counter that only some rounds move on"""
        lp = loops(f); bo = block_of(f); n = 0
        for h, body in lp.items():
            walked = [x for x in f.reach_nodes() if x["k"] in CALLS and bo.get(x["i"]) == h and x.get("n") in ("iterate", "operator++", "operator!=")]
            c = ph.cond_of(f, h)
            if c is not None:
                st = [c]
                while st:
                    x = f.nodes[st.pop()]
                    if x["k"] in CALLS and x.get("n") == "iterate": walked.append(x)
                    st += [z for z in x["c"] if isinstance(z, int) and z >= 0]
            if not any(x.get("n") == "iterate" for x in walked): continue
            latch = [b for b in body if h in f.succ()[b]]
            for x in f.reach_nodes():
                if bo.get(x["i"]) not in body: continue
                q = s.subs(f, x)
                if q is None: continue
                base = f.nodes[f.strip(q[0])]
                if base["k"] not in ("DeclRefExpr", "MemberExpr"): continue
                p = f.parent.get(x["i"])
                if p is not None and f.nodes[p]["k"] in ("BinaryOperator", "CompoundAssignOperator") and f.nodes[p]["op"].endswith("=") and f.nodes[p]["op"] not in ("==", "!=", "<=", ">=") and f.nodes[p]["c"][0] == x["i"]: continue
                iy = f.nodes[f.strip(q[1])]
                if iy["k"] == "UnaryOperator" and iy["op"] == "++": iy = f.nodes[f.strip(iy["c"][0])]
                if iy["k"] != "DeclRefExpr" or not iy["d"].startswith("%"): continue
                us = var_uses(f).get(iy["d"], []); ms = [u for u in us if u[0] == "mod"]; ds = [u for u in us if u[0] == "def"]
                if not ms or len(ds) != 1 or any(u[0] == "esc" for u in us) or any(p2["d"] == iy["d"] for p2 in f.params): continue
                if any(f.nodes[u[2]]["k"] != "UnaryOperator" or f.nodes[u[2]]["op"] != "++" or bo.get(u[2]) not in body for u in ms): continue
                if any(bo.get(u[2]) in lp[g] for u in ms for g in lp if g != h and g in body): continue
                if bo.get(ds[0][2]) in body: continue
                # written anywhere here: filled, not read in step
                if any(s.canon(f, w[0]) == s.canon(f, q[0]) for z in f.reach_nodes() for w in [s.subs(f, z)] if w is not None and f.parent.get(z["i"]) is not None and f.nodes[f.parent[z["i"]]].get("op") == "=" and f.nodes[f.parent[z["i"]]]["c"][0] == z["i"]): continue
                n += 1
                dom = dominators(f)
                if not latch or not all(bo[x["i"]] in dom[b] for b in latch): continue
                d = s.rounds(f, h, body, {u[2] for u in ms})
                if len(d) > 1 and 0 in d:
                    r.bad("%s|pace|%s" % (f.qn, f.text(x["i"])[:40]), f.where(x["i"]), "'%s' is read in every round, but only some rounds go on to its next entry" % f.text(x["i"])[:60])
        return n

    def rounds(s, f, h, body, incs):
        """how many of the given steps one round may pass"""
        IN = {h: {0}}; wl = [h]; out = set(); k = 0
        while wl:
            b = wl.pop(); k += 1
            if k > 3000: return {0}
            d = sum(1 for e in f.elems(b) if e in incs) if b != h or True else 0
            for y in f.succ()[b]:
                v = {w + d for w in IN[b]}
                if y == h: out |= v; continue
                if y not in body: continue
                new = {w for w in v if w < 4} - IN.get(y, set())
                if new: IN.setdefault(y, set()).update(new); wl.append(y)
        return out

    GIVEN = {"Zoltan_LB_Partition": ((4, (5, 6, 7, 8)), (9, (10, 11, 12, 13)))}     # how many, and the lists that hold that many

    def given(s, f, r):
        """lists that a library fills, with the number of their entries"""
        tab = []
        def var(i):
            y = f.nodes[f.strip(i)]
            if y["k"] == "UnaryOperator" and y["op"] == "&": y = f.nodes[f.strip(y["c"][0])]
            return y["d"] if y["k"] == "DeclRefExpr" else None
        for x in f.calls():
            for c, ls in s.GIVEN.get(x.get("n"), ()):
                A = f.args(x)
                if len(A) > max(ls) and var(A[c]): tab.append((f, var(A[c]), {var(A[l]) for l in ls} - {None}))
        if not tab: return 0
        todo = list(tab); seen = set(); n = 0
        while todo:
            g, cnt, ls = todo.pop()
            if (g.id, cnt) in seen: continue
            seen.add((g.id, cnt))
            other = set().union(*[m for h, c, m in tab if h is g and c != cnt]) if any(h is g and c != cnt for h, c, m in tab) else set()
            bo = block_of(g)
            for l in p13.loop_bounds(g):
                if g.nodes[g.strip(l["bound"])].get("d") != cnt: continue
                body = loops(g)[l["header"]]
                for x in g.reach_nodes():
                    q = s.subs(g, x) if bo.get(x["i"]) in body else None
                    if q is None: continue
                    b = g.nodes[g.strip(q[0])].get("d")
                    if b in ls:
                        n += 1
                        if g.nodes[g.strip(q[1])].get("cv") is not None and not s.compared(g, x["i"], s.canon(g, q[0])):
                            r.bad("%s|place|%s" % (g.qn, g.text(q[0])), g.where(x["i"]), "'%s': one entry is taken for every round of the loop over the entries" % g.text(x["i"])[:70])
                    elif b in other and l["var"] in wire.refs(g, q[1]):
                        r.bad("%s|count|%s" % (g.qn, g.text(q[0])), g.where(x["i"]), "'%s' is read in a loop over the number of entries of other lists" % g.text(x["i"])[:70])
            for x in g.calls():                     # handed on together
                for t in s.P.targets(g, x):
                    A = [var(a) for a in g.args(x)]; m = {t.params[j]["d"] for j, a in enumerate(A) if a in ls and j < len(t.params)}
                    o = {t.params[j]["d"] for j, a in enumerate(A) if a in other and j < len(t.params)}
                    for j, a in enumerate(A):
                        if a == cnt and j < len(t.params):
                            if o and not m: r.bad("%s|count|%s" % (g.qn, t.name), g.where(x["i"]), "%s() is given the number of entries of other lists" % t.name)
                            if m: todo.append((t, t.params[j]["d"], m))
        return n

    def hascall(s, f, i):
        st = [i]
        while st:
            j = st.pop()
            if j is None or j < 0: continue
            x = f.nodes[j]
            if x["k"] in CALLS and s.P.targets(f, x): return True
            st += x["c"]
        return False

    def varies(s, f, i, body):
        bo = block_of(f); ch = set()
        for y in f.reach_nodes():
            if bo.get(y["i"]) not in body: continue
            if y["k"] == "DeclStmt": ch |= {d["d"] for d in y["decls"]}
            elif y["k"] == "UnaryOperator" and y["op"] in ("++", "--", "&") or y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CompoundAssignOperator":
                ch |= set(wire.refs(f, y["c"][0]))
            elif y["k"] in CALLS and not y.get("const"):
                for a in ([f.obj(y)] if f.obj(y) is not None else []) + ([] if (y.get("qn") or "").startswith("std::") else [a for n, a in enumerate(f.args(y)) if s.byref(f, y, n)]): ch |= set(wire.refs(f, a))
        return bool(set(wire.refs(f, i)) & ch)

    def byref(s, f, x, n):
        for t in s.P.targets(f, x):
            if n < len(t.params): return t.params[n].get("ct", "").endswith("&") and not t.params[n]["ct"].startswith("const ")
        return True

    def compared(s, f, i, c):
        """is the access only compared with another entry of the same list (is this the first one?)"""
        p = f.parent.get(i); ch = i
        while p is not None:
            x = f.nodes[p]
            if x["k"] in CASTS or x["k"] in ("ParenExpr", "ImplicitCastExpr"): ch = p; p = f.parent.get(p); continue
            if x["k"] != "BinaryOperator" or x["op"] not in ("==", "!=", "<", ">", "<=", ">="): return False
            o = x["c"][1] if x["c"][0] == ch else x["c"][0]
            q = s.subs(f, f.nodes[s.dig(f, o)])
            return q is not None and s.canon(f, q[0]) == c
        return False

    def dig(s, f, i):
        for _ in range(5):
            i = f.strip(i); x = f.nodes[i]
            if x["k"] != "DeclRefExpr": return i
            d = single_def(f, x["d"])
            if d is None: return i
            i = d
        return i

    # ------------------------------------------------------------- numbers of entries
    def numbers(s, f, r):
        """an entry is filed under its position: the length its partners had before it was added"""
        G, touched = s.grown(f); bo = block_of(f); n = 0
        allc = {}
        for x in f.reach_nodes():               # tables that get a key in this function count as grown by one
            if x["k"] == "CXXOperatorCallExpr" and x.get("n") == "operator[]" and "map<" in (f.nodes[f.strip(x["c"][1])].get("ct") or ""):
                c = s.canon(f, x["c"][1])
                if c is not None: allc.setdefault(c, []).append(x)
        for x in f.reach_nodes():
            q = s.subs(f, x)
            if q is None: continue
            c = s.canon(f, q[0])
            if c not in G or len(G[c]) != 1: continue
            i = f.strip(q[1]); v = f.nodes[i]
            if v["k"] != "DeclRefExpr" or v["d"] not in f.vars: continue
            d = single_def(f, v["d"])
            if d is None: continue
            L = p13.lin(f, d); at = None; st = [d]; m = None
            while st:
                j = st.pop(); y = f.nodes[j]
                if y["k"] in CALLS and y.get("n") == "size" and f.obj(y) is not None: at = y; m = s.canon(f, f.obj(y))
                st += y["c"]
            if m is None or len([k for k in L if k]) != 1 or [z for k, z in L.items() if k] != [1]: continue
            if m not in G and m not in allc: continue
            if any(bo[x["i"]] != b for b in (bo.get(G[c][0]["i"]), bo.get(at["i"]))): continue
            es = [e for e in f.elems(bo[x["i"]]) if isinstance(e, int)]
            pos = lambda e: es.index(e) if e in es else -1
            pm = (G.get(m) or allc.get(m))
            if len(pm) != 1 or bo.get(pm[0]["i"]) != bo[x["i"]]: continue
            had = 1 if pos(pm[0]["i"]) < pos(at["i"]) else 0          # entries this function had added when the number was taken
            got = 1 if pos(G[c][0]["i"]) < pos(x["i"]) else 0
            k = L.get((), 0) + had; n += 1
            if k >= got or k < 0:
                r.bad("%s|number|%s" % (f.qn, s.name(f, c)), f.where(x["i"]), "'%s' is read at a number that is not the position of the entry just added (length %+d)" % (s.name(f, c), k))
        return n

    # ------------------------------------------------------------- what the entries are about
    def getter(s, f, i, depth=0):
        """(what is asked, about what) for a value that is the answer of a query about a vertex or edge"""
        if depth > 6: return None
        i = f.strip(i); x = f.nodes[i]
        if x["k"] == "UnaryOperator" and x["op"] == "&": return s.getter(f, x["c"][0], depth + 1)
        if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
            ds = [a for a in var_uses(f).get(x["d"], []) if a[0] in ("def", "mod")]
            return s.getter(f, ds[0][1], depth + 1) if len(ds) == 1 and ds[0][0] == "def" and ds[0][1] is not None else None
        if x["k"] in CALLS and f.args(x):
            ct = (f.nodes[f.strip(f.args(x)[0])].get("ct") or "").replace("const ", "").replace("*const", "*").rstrip("& ")
            if ct not in ("agi::GraphVertex *", "agi::GraphEdge *") or x.get("n") in ("findGID",): return None
            return x.get("n"), rkey(f, f.args(x)[0]), ct
        return None

    def about(s, r, W):
        """partners' entries pushed together are about the same vertex or edge; all entries of one list answer the same question"""
        back = defaultdict(list)
        for (a, b) in W.pairs: back[(b[0], b[1])].append(a)
        origin = defaultdict(lambda: defaultdict(list)); n = 0
        for f in s.funs:
            G, touched = s.grown(f); bo = block_of(f)
            unp = {}
            for x in f.calls():
                if x.get("qn") in ph.UNPACK and f.args(x):
                    c = s.canon(f, f.args(x)[0])
                    if c is not None: unp.setdefault(c[2], []).append(x["i"])
            for c, xs in sorted(G.items(), key=str):
                for x in xs:
                    if not f.args(x): continue
                    v = f.args(x)[0]; g = s.getter(f, v)
                    if g is not None: origin[c][g[0]].append((f, x)); n += 1
                    y = f.nodes[f.strip(v)]
                    if y["k"] == "DeclRefExpr" and y["d"] in unp:
                        for it in unp[y["d"]]:
                            for a in back.get((f.id, it), ()):
                                pf = P_(s.P, a[0]); pa = pf.args(pf.nodes[a[1]])
                                h = s.getter(pf, pa[1]) if len(pa) > 1 else None
                                if h is not None: origin[c][h[0]].append((f, x)); n += 1
                    if g is None: continue
                    for d in s.partners(c):
                        for z in G.get(d, ()):
                            h = s.getter(f, f.args(z)[0]) if f.args(z) else None
                            if h is None or bo[z["i"]] != bo[x["i"]] or h[2] != g[2] or str(d) < str(c): continue
                            if h[1] != g[1]: r.bad("%s|about|%s|%s" % (f.qn, s.name(f, c), s.name(f, d)), f.where(z["i"]), "entries of '%s' and '%s' that belong together are about different things" % (s.name(f, c), s.name(f, d)))
        # one list under its names in all functions
        seen = set()
        for c in sorted(origin, key=str):
            if c in seen: continue
            grp = {c}; st = [c]
            while st:
                a = st.pop()
                for b in s.same.get(a, ()):
                    if b not in grp: grp.add(b); st.append(b)
            seen |= grp
            qs = defaultdict(list)
            for a in grp:
                for q, l in origin.get(a, {}).items(): qs[q] += l
            if len(qs) > 1:
                few = min(sorted(qs), key=lambda q: len(qs[q])); f, x = qs[few][0]
                r.bad("%s|origin|%s" % (f.qn, "/".join(sorted(qs))), f.where(x["i"]), "a list of %s also gets %s" % (" / ".join(sorted(q for q in qs if q != few)), few))
        return n


def P_(P, i): return P.funcs[i]


def run(P, r, tier):
    L = Lists(P, r); W = wire.Wire(P); W.pairs = {}; W.run()
    pairs = plc = num = 0
    giv = sum(L.given(f, r) for f in L.funs)
    r.need("accesses to lists a library fills", giv, 1)
    for f in L.funs:
        pairs += L.step(f, r); plc += L.places(f, r); num += L.numbers(f, r)
    wk = sum(L.walks(f, r) for f in L.funs)
    r.count("lists read along an iteration", wk)
    org = L.about(r, W)
    r.count("entries filed under their number", num)
    r.count("entries that answer a query about a vertex or edge", org)
    r.need("pairs of lists", len(L.rel), 60); r.need("lists grown together", pairs, 6); r.need("accesses by entry", plc, 25)
    r.listing["lists in step"] = sorted({"%s | %s (%s)" % (a[1] + a[2], b[1] + b[2], L.why[(a, b)]) for a, b in L.rel if "f" in (a[0], b[0])})
    r.explain = "every list grown, read by position, or allocated by the length of another: growth on all paths of a round, the position each entry is taken at, what the entries are about"
    r.assume = ["two lists read at one index, handed to code that reads them so, or allocated one by the length of the other describe the same things",
                "lists that code only reads when they are there or long enough (optional lists) may be left empty by a caller"]

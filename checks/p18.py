"""P18: what a message says is applied to the entity the message names."""
import re
from agx import *
import phase as ph, wire, p13

APPEND = {"push_back", "emplace_back", "push", "push_front"}
INSERT = {"insert", "emplace"}
PURE = {"find", "count", "size", "begin", "end", "at", "empty", "cbegin", "cend", "operator*", "operator->", "operator==", "operator!=", "operator<"}


COPY = {"memcpy": 0, "memmove": 0, "copy": 2, "copy_n": 2, "copy_backward": 2, "transform": 2}


def isref(v):
    return v.get("ct", "").endswith("&") or "(&)" in v.get("ct", "")


class Region:
    """the code that handles one received message (or one record of it)"""
    def __init__(s, P, f, blocks, header):
        s.P = P; s.f = f; s.blocks = blocks; s.header = header
        bo = block_of(f)
        s.nodes = [y for y in f.reach_nodes() if bo.get(y["i"]) in blocks]
        s.decl = set(); s.unp = {}; s.defs = defaultdict(list); s.ctr = set(); s.fillers = defaultdict(list); s.inits = {}
        for y in s.nodes:
            if y["k"] == "DeclStmt":
                for d in y["decls"]:
                    s.decl.add(d["d"])
                    if d["init"] >= 0: s.defs[d["d"]].append(d["init"]); s.inits[d["d"]] = d["init"]
            elif y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CompoundAssignOperator":
                b = s.base(y["c"][0])
                if b:
                    s.defs[b].append(y["c"][1])
                    if y["k"][0] == "C" and f.nodes[f.strip(y["c"][0])]["k"] == "DeclRefExpr": s.ctr.add(b)
            elif y["k"] == "UnaryOperator" and y["op"] in ("++", "--"):
                z = f.nodes[f.strip(y["c"][0])]
                if z["k"] == "DeclRefExpr": s.ctr.add(z["d"])
                elif z["k"] == "MemberExpr": s.ctr.add(f.key(z["i"]))
            elif y["k"] in CALLS:
                if y.get("qn") in ph.UNPACK:
                    b = s.base(f.args(y)[0])
                    s.unp.setdefault(y["i"], b)
                    if b: s.defs[b].append(("item", y["i"]))
                else:
                    o = f.obj(y)
                    if o is not None and not y.get("const") and y.get("n") not in PURE:
                        b = s.base(o)
                        if b and b.startswith("%"): s.fillers[b] += f.args(y)
                    if not (y.get("qn") or "").startswith(("std::", "PCU_")):
                        for k, a in enumerate(f.args(y)):
                            z = f.nodes[f.strip(a)]
                            if z["k"] == "UnaryOperator" and z["op"] == "&": z = f.nodes[f.strip(z["c"][0])]
                            elif not s.byref(y, k): continue
                            if z["k"] == "DeclRefExpr" and z["d"].startswith("%"): s.fillers[z["d"]] += [q for q in f.args(y) if q != a] + ([o] if o is not None else [])
        s.memo = {}

    def byref(s, y, k):
        ps = s.P.decls.get(y.get("fn"), [{}])[0].get("params") or []
        t = s.P.targets(s.f, y)
        if t: ps = t[0].params
        return k < len(ps) and ps[k]["ct"].endswith("&") and not ps[k]["ct"].startswith("const")

    def base(s, i):
        """variable or field an lvalue / buffer expression belongs to"""
        f = s.f; i = f.strip(i)
        for _ in range(12):
            x = f.nodes[i]; k = x["k"]
            if k == "DeclRefExpr": return x["d"]
            if k == "MemberExpr":
                if x["c"] and f.nodes[f.strip(x["c"][0])]["k"] != "CXXThisExpr": i = f.strip(x["c"][0]); continue
                return f.key(i)
            if k == "ArraySubscriptExpr" or k == "UnaryOperator" and x["op"] in ("&", "*"): i = f.strip(x["c"][0]); continue
            if k == "CXXOperatorCallExpr" and x.get("n") in ("operator[]", "operator*", "operator->"): i = f.strip(x["c"][1]); continue
            if k == "CXXMemberCallExpr" and f.obj(x) is not None and x.get("n") in ("at", "back", "front", "data"): i = f.strip(f.obj(x)); continue
            return None
        return None

    def dep(s, i, depth=0):
        """items of the message an expression depends on"""
        if i is None or i < 0: return frozenset()
        if i in s.memo: return s.memo[i]
        s.memo[i] = frozenset()
        f = s.f; out = set(); st = [i]; seen = set()
        while st:
            j = st.pop()
            if j is None or j < 0 or j in seen: continue
            seen.add(j); x = f.nodes[j]
            if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
                for d in s.defs.get(x["d"], ()):
                    if isinstance(d, tuple): out.add(d[1])
                    else: st.append(d)
                if x["d"] in s.decl or x["d"] in s.defs:
                    st += s.fillers.get(x["d"], [])
            if x["k"] in CALLS and x.get("qn") in ph.INMSG: out.add("sender")
            if x["k"] in CALLS and x.get("qn") in ph.UNPACK: out.add(x["i"])
            st += x["c"]
            for q in ("sz", "init", "argx"):
                if isinstance(x.get(q), int): st.append(x[q])
        s.memo[i] = frozenset(out)
        return s.memo[i]

    def keys(s, i):
        """index expressions on the way to an lvalue"""
        f = s.f; out = []; i = f.strip(i)
        while True:
            x = f.nodes[i]; k = x["k"]
            if k == "ArraySubscriptExpr": out.append(x["c"][1]); i = f.strip(x["c"][0])
            elif k == "CXXOperatorCallExpr" and x.get("n") == "operator[]": out.append(f.args(x)[-1]); i = f.strip(x["c"][1])
            elif k == "CXXOperatorCallExpr" and x.get("n") in ("operator*", "operator->"): out.append(x["c"][1]); i = f.strip(x["c"][1])
            elif k == "UnaryOperator" and x["op"] in ("*", "&"):
                z = f.nodes[f.strip(x["c"][0])]
                if x["op"] == "*" and (z["k"] != "DeclRefExpr" or z["d"] in s.decl): out.append(x["c"][0])
                i = f.strip(x["c"][0])
            elif k == "CXXMemberCallExpr" and x.get("n") in ("at", "find") and f.obj(x) is not None: out += f.args(x); i = f.strip(f.obj(x))
            elif k == "MemberExpr" and x["c"]: 
                i = f.strip(x["c"][0])
            elif k == "DeclRefExpr":
                # a pointer or reference made in the handler: what it was made from
                if x["d"] in s.decl:
                    d = [q for q in s.defs.get(x["d"], ()) if not isinstance(q, tuple)]
                    v = f.vars.get(x["d"], {})
                    if isref(v) and x["d"] in s.inits: d = [s.inits[x["d"]]]
                    if len(d) == 1 and (isref(v) or v.get("ct", "").endswith("*") or "terator" in v.get("t", "") + v.get("ct", "")): out.append(d[0]); i = f.strip(d[0]); continue
                return out, x["d"]
            elif k == "UnaryOperator" and x["op"] in ("++", "--") or k in ("BinaryOperator",) and x["op"] in "+-": i = f.strip(x["c"][0])
            else:
                return out, ("new" if k == "CXXNewExpr" else f.key(i) if k in ("CXXThisExpr",) else None)

    def identifies(s, it):
        """may the item name an entity (an integer, rather than a measured quantity)?"""
        f = s.f; t = s.unp.get(it); v = f.vars.get(t) if t else None
        return v is None or not any(q in v["ct"] for q in ("double", "float"))

    def selfrank(s, i, depth=0):
        """is (a component of) the value the part's own rank?"""
        f = s.f
        if depth > 4 or i is None or i < 0: return False
        x = f.nodes[f.strip(i)]
        if x["k"] in CALLS and x.get("qn") in ("PCU_Comm_Self",): return True
        if x["k"] in CALLS and x.get("n") in ("make_pair", "make_tuple"): return any(s.selfrank(a, depth + 1) for a in f.args(x))
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr"): return any(s.selfrank(a, depth + 1) for a in x["c"])
        if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
            d = s.defs.get(x["d"], [])
            if x["d"] in s.decl or d: return any(not isinstance(q, tuple) and s.selfrank(q, depth + 1) for q in d)
            u = var_uses(f).get(x["d"], [])
            return len([q for q in u if q[1] is not None]) == 1 and s.selfrank([q[1] for q in u if q[1] is not None][0], depth + 1)
        return False

    def inner(s, it):
        """the innermost repetition inside the handler that receives the item"""
        f = s.f; b = block_of(f).get(it); lp = loops(f)
        hs = [h for h in lp if b in lp[h] and h != s.header and h in s.blocks]
        return lp[min(hs, key=lambda h: len(lp[h]))] if hs else None

    def varies(s, i, L):
        """may the expression differ between iterations of the loop with blocks L?"""
        f = s.f; bo = block_of(f); st = [i]; ch = set(); seen = set()
        for y in s.nodes:
            if bo.get(y["i"]) not in L: continue
            if y["k"] == "UnaryOperator" and y["op"] in ("++", "--") or y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CompoundAssignOperator":
                b = s.base(y["c"][0])
                if b: ch.add(b)
            elif y["k"] == "DeclStmt": ch |= {d["d"] for d in y["decls"]}
            elif y["k"] in CALLS:
                if y.get("qn") in ph.UNPACK: ch.add(s.unp.get(y["i"]))
                elif f.obj(y) is not None and not y.get("const"): ch.add(s.base(f.obj(y)))
                for a in f.args(y):
                    z = f.nodes[f.strip(a)]
                    if z["k"] == "UnaryOperator" and z["op"] == "&": ch.add(s.base(a))
        while st:
            j = st.pop()
            if j is None or j < 0 or j in seen: continue
            seen.add(j); x = f.nodes[j]
            if x["k"] == "DeclRefExpr" and x["d"] in ch or x["k"] == "MemberExpr" and f.key(j) in ch: return True
            if x["k"] in CALLS and x.get("n") not in PURE | {"operator[]"} and (x.get("qn") or "") not in ph.INMSG and not x.get("const") and not (x.get("cls") or "").startswith("std::"): return True
            st += x["c"]
        return False

    def arrival(s, i):
        """the index counts what arrived: changed by the handler, or the size of a list it appends to"""
        f = s.f; st = [i]
        while st:
            j = st.pop()
            if j is None or j < 0: continue
            x = f.nodes[j]
            if x["k"] == "DeclRefExpr" and (x["d"] in s.ctr and x["d"] not in s.decl): return True
            if x["k"] == "DeclRefExpr" and x["d"] in s.decl: st += [d for d in s.defs.get(x["d"], ()) if not isinstance(d, tuple)]
            if x["k"] == "MemberExpr" and f.key(j) in s.ctr: return True
            if x["k"] in CALLS and x.get("n") in ("size", "end"): return True
            st += x["c"]
        return False


def stores(P, g, memo={}):
    """parameter positions that select an element and that are stored in it: [(keys, values)] for a function that stores its arguments"""
    if id(P) not in memo: memo.clear(); memo[id(P)] = {}
    M = memo[id(P)]
    if g.id in M: return M[g.id]
    M[g.id] = []
    pos = {p["d"]: n for n, p in enumerate(g.params)}
    def deps(i):
        out = set(); st = [i]; seen = set()
        while st:
            j = st.pop()
            if j is None or j < 0 or j in seen: continue
            seen.add(j); x = g.nodes[j]
            if x["k"] == "DeclRefExpr":
                if x["d"] in pos: out.add(pos[x["d"]])
                elif x["d"].startswith("%"): st += [u[1] for u in var_uses(g).get(x["d"], []) if u[1] is not None]
            st += x["c"]
        return out
    for y in g.reach_nodes():
        if y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CompoundAssignOperator":
            l = g.nodes[g.strip(y["c"][0])]
            if l["k"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "UnaryOperator"):
                v = deps(y["c"][1])
                if l["k"] == "ArraySubscriptExpr": k = deps(l["c"][1]); b = l["c"][0]
                elif l["k"] == "CXXOperatorCallExpr": k = deps(g.args(l)[-1]) if g.args(l) else set(); b = l["c"][1]
                else: k = deps(l["c"][0]); b = l["c"][0]
                bx = g.nodes[g.strip(b)]
                if v: M[g.id].append((k, v, True))
        elif y["k"] in CALLS:
            for t in P.targets(g, y):
                if t.id == g.id: continue
                for k, v, e in list(stores(P, t)):
                    a = g.args(y)
                    kk = set().union(*[deps(a[n]) for n in k if n < len(a)]) if k else set()
                    vv = set().union(*[deps(a[n]) for n in v if n < len(a)]) if v else set()
                    if vv: M[g.id].append((kk, vv, e))
    return M[g.id]


def regions(P):
    out = []
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        un = [x for x in f.calls() if x.get("qn") in ph.UNPACK]
        if not un: continue
        bo = block_of(f); lp = loops(f); rec = {}
        for x in f.calls():
            if x.get("qn") in ph.NEXT | ph.NEXTW:
                b = bo.get(x["i"])
                hs = [h for h in lp if b in lp[h]]
                if hs: h = min(hs, key=lambda h: len(lp[h])); rec[h] = lp[h]
        left = []
        for x in un:
            b = bo.get(x["i"]); hs = [h for h in rec if b in rec[h]]
            if not hs: left.append(b)
        for h, body in rec.items(): out.append(Region(P, f, set(body), h))
        if left: out.append(Region(P, f, set(f.succ()), f.entry))
    # helpers called from a region with data of the message are judged through their stores
    return out


def outside_reads(R, d):
    """is a variable of the function read outside the handler?"""
    f = R.f; bo = block_of(f)
    if not d.startswith("%"): return True
    if d in {p["d"] for p in f.params} and f.vars[d]["ct"].endswith(("*", "&", "]")): return True
    for x in f.reach_nodes():
        if x["k"] == "DeclRefExpr" and x["d"] == d and bo.get(x["i"]) not in R.blocks:
            p = f.parent.get(x["i"]); px = f.nodes[p] if p is not None else None
            if px is not None and px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == x["i"]: continue
            y = f.nodes[f.strip(x["i"])]; up = px
            while up is not None and up["k"] in CASTS: up = f.nodes[f.parent[up["i"]]] if up["i"] in f.parent else None
            if up is not None and up["k"] in ("CXXDeleteExpr",): continue
            return True
    return False


def live_out(R, d, at):
    """may what the handler stores in variable d at node `at` be read outside the handler?"""
    f = R.f; bo = block_of(f)
    if d in {p["d"] for p in f.params} and f.vars[d]["ct"].endswith(("*", "&", "]")): return True
    def scan(els):
        for e in els:
            if not isinstance(e, int): continue
            x = f.nodes[e]
            if x["k"] == "BinaryOperator" and x["op"] == "=" and f.nodes[f.strip(x["c"][0])].get("d") == d: return 0
            if x["k"] == "DeclStmt" and any(q["d"] == d for q in x["decls"]): return 0
            if x["k"] == "DeclRefExpr" and x["d"] == d:
                p = f.parent.get(e); px = f.nodes[p] if p is not None else None
                if px is not None and px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == e: continue
                if bo.get(e) not in R.blocks: return 1
            if x["k"] == "CXXDeleteExpr": pass
        return None
    b0 = bo[at]; es = f.elems(b0)
    v = scan(es[es.index(at) + 1:] if at in es else [])
    if v is not None: return bool(v)
    st = list(f.succ()[b0]); seen = set(st)
    while st:
        b = st.pop(); v = scan(f.elems(b))
        if v == 1: return True
        if v == 0: continue
        for y in f.succ()[b]:
            if y not in seen: seen.add(y); st.append(y)
    return False


def fresh(R, d, at):
    """can the read at node `at` be reached from the start of the handler without the variable having been received?"""
    f = R.f; bo = block_of(f); setters = set()
    for y in R.nodes:
        if y["k"] in CALLS and (y.get("qn") in ph.UNPACK) and R.unp.get(y["i"]) == d: setters.add(y["i"])
        if y["k"] == "BinaryOperator" and y["op"] == "=" and f.nodes[f.strip(y["c"][0])].get("d") == d: setters.add(y["i"])
        if y["k"] == "DeclStmt" and any(q["d"] == d for q in y["decls"]): setters.add(y["i"])
    seen = {R.header}; st = [R.header]
    while st:
        b = st.pop(); stop = False
        for e in f.elems(b):
            if not isinstance(e, int): continue
            if e == at: return True
            if e in setters: stop = True; break
        if stop: continue
        for y in f.succ()[b]:
            if y in R.blocks and y not in seen and y != R.header: seen.add(y); st.append(y)
    return False


def run(P, r, tier):
    w = wire.Wire(P); w.pairs = {}; w.run()
    # items whose packing side is known, with what the packing side says about them
    R = regions(P); neff = nit = nkey = 0
    for g in R:
        f = g.f
        used = set(); items = set(g.unp)
        def eff(i, key, val, arr, obj, how):
            nonlocal neff, nkey
            neff += 1
            dk = frozenset().union(*[g.dep(k) for k in key]) if key else frozenset()
            dv = frozenset().union(*[g.dep(v) for v in val]) if val else frozenset()
            used.update(dk | dv)
            if "sender" not in dk | dv:
                for v in val:
                    if g.selfrank(v): r.bad("%s|self|%s" % (f.qn, how), f.where(i), "'%s' records the receiving part's own rank for something another part said" % f.text(i)[:90]); break
            if not (dv - {"sender"}): return
            if not arr: return
            nkey += 1
            for it in dv - {"sender"}:
                L = g.inner(it)
                if L is not None and bo.get(i) in L and not any(g.varies(k, L) for k in key):
                    r.bad("%s|slot|%s" % (f.qn, how), f.where(i), "'%s' puts every value of a repeated item into the same place" % f.text(i)[:90])
            if dk: return
            if any(g.arrival(k) for k in key): return
            if obj is not None and (obj in g.decl or obj == "new"): return
            if obj is not None and not outside_reads(g, obj): return
            r.bad("%s|slot|%s" % (f.qn, obj.split("#")[0].lstrip("%") if obj else how), f.where(i), "'%s' puts a received value into a place that does not depend on the message it came in" % f.text(i)[:90])
        bo = block_of(f)
        for y in g.nodes:
            k = y["k"]
            if k == "BinaryOperator" and y["op"] == "=" or k == "CompoundAssignOperator":
                key, obj = g.keys(y["c"][0])
                l = f.nodes[f.strip(y["c"][0])]
                if l["k"] == "DeclRefExpr" and not isref(f.vars.get(l["d"], {})):
                    d = l["d"]
                    if d in g.decl or not live_out(g, d, y["i"]):
                        used |= g.dep(y["c"][1]) if d not in g.decl else frozenset(); continue
                    dv = g.dep(y["c"][1]); used |= dv; neff += 1
                    if k == "CompoundAssignOperator" or not (dv - {"sender"}): continue
                    # last message wins unless the choice depends on the variable itself or the message
                    if d in refs(f, y["c"][1]): continue
                    cd = control_deps(f); guard = False; todo = [bo[y["i"]]]; seen = set()
                    while todo:
                        b = todo.pop()
                        for c in cd.get(b, ()):
                            if c in seen or c not in g.blocks: continue
                            seen.add(c); todo.append(c); cc = ph.cond_of(f, c)
                            if cc is not None and (d in refs(f, cc) or g.dep(cc)): guard = True
                    if guard: continue
                    r.bad("%s|last|%s" % (f.qn, l["n"]), f.where(y["i"]), "'%s' keeps only what the last message said" % f.text(y["i"])[:90])
                    continue
                arr = bool(key) or l["k"] in ("ArraySubscriptExpr",)
                eff(y["i"], key, [y["c"][1]], arr, obj if obj and (obj[0] == "%" or obj == "new") else None, f.text(l["i"])[:40])
                if k[0] == "C": used |= g.dep(y["c"][1])
            elif k == "UnaryOperator" and y["op"] in ("++", "--"): used |= g.dep(y["c"][0])
            elif k in CALLS:
                q = y.get("qn") or ""; n = y.get("n", ""); a = f.args(y); o = f.obj(y)
                if q in ph.UNPACK:
                    items.add(y["i"]); nit += 1
                    z = f.nodes[f.strip(a[0])]
                    if z["k"] == "UnaryOperator" and z["op"] == "&" or z["k"] in ("ArraySubscriptExpr",):
                        key, obj = g.keys(a[0])
                        if obj is not None and obj not in g.decl and key and outside_reads(g, obj): 
                            used.add(y["i"]); neff += 1; nkey += 1
                            if not any(g.dep(kk) or g.arrival(kk) for kk in key):
                                r.bad("%s|slot|%s" % (f.qn, obj.split("#")[0].lstrip("%")), f.where(y["i"]), "'%s' receives into a place that does not depend on the message" % f.text(y["i"])[:90])
                    continue
                if q in ph.ALLPRIM:
                    for z in a: used |= g.dep(z)
                    continue
                if o is not None and n in APPEND: eff(y["i"], [], a, False, None, n); continue
                if o is not None and n in INSERT and (y.get("cls") or "").startswith("std::"):
                    pr = f.nodes[f.strip(a[-1])] if a else None
                    while pr is not None and pr["k"] in ("CXXConstructExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and len(pr["c"]) == 1: pr = f.nodes[f.strip(pr["c"][0])]
                    kv = None
                    if pr is not None and pr["k"] in CALLS and pr.get("n") == "make_pair": kv = f.args(pr)
                    elif pr is not None and len(pr["c"]) == 2 and pr["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"): kv = pr["c"]
                    if kv and len(kv) == 2 and "map" in y.get("cls"): eff(y["i"], [kv[0]], [kv[1]], True, g.base(o), "map")
                    else:
                        eff(y["i"], [], a, False, None, n)
                        dv = frozenset().union(*[g.dep(z) for z in a]) if a else frozenset()
                        if dv and "sender" not in dv and not any(g.identifies(it) for it in items):
                            r.bad("%s|anonymous|%s" % (f.qn, n), f.where(y["i"]), "'%s' files a received value under nothing that tells whose it is" % f.text(y["i"])[:90])
                    continue
                if o is None and n in COPY and len(a) > COPY[n]:
                    key, obj = g.keys(a[COPY[n]])
                    b = f.strip(a[COPY[n]])
                    if obj is not None and f.nodes[b]["k"] == "BinaryOperator": key = key + f.nodes[b]["c"][1:]
                    eff(y["i"], key, [z for m, z in enumerate(a) if m != COPY[n]], bool(key), obj if obj and (obj[0] == "%" or obj == "new") else None, n); continue
                if n in PURE or q.startswith("std::") and o is None: continue
                ts = P.targets(f, y)
                if ts:
                    st = [z for t in ts for z in stores(P, t)]
                    for kk, vv, e in st:
                        eff(y["i"], [a[m] for m in kk if m < len(a)] + ([o] if o is not None and g.dep(o) else []), [a[m] for m in vv if m < len(a)], e and bool(kk), None, n)
                    impure = bool(st) or effectful(P, ts)
                    if impure:
                        for z in a: used |= g.dep(z)
                        if o is not None: used |= g.dep(o)
                elif not y.get("const") and not (y.get("cls") or "").startswith("std::") and n not in ("operator[]",):
                    for z in a: used |= g.dep(z)
                elif n not in PURE and n != "operator[]" and o is not None:
                    for z in a: used |= g.dep(z)
            elif k == "ReturnStmt" and y["c"]: used |= g.dep(y["c"][0])
            elif k == "CXXNewExpr" and y.get("sz", -1) is not None and y.get("arr"): used |= frozenset()
        for b in g.blocks:
            c = ph.cond_of(f, b)
            if c is not None: used |= g.dep(c)
        for it in sorted(items):
            t = g.unp.get(it)
            if it not in used:
                r.bad("%s|ignored|%s" % (f.qn, (t or "?").split("#")[0].lstrip("%")), f.where(it), "'%s' is received and then ignored" % f.text(f.args(f.nodes[it])[0]))
            # stale reads
            if t and t.startswith("%") and t not in g.decl and g.header != f.entry:
                for x in g.nodes:
                    if x["k"] == "DeclRefExpr" and x["d"] == t:
                        p = f.nodes[f.parent[x["i"]]] if x["i"] in f.parent else None
                        if p is not None and p["k"] == "ImplicitCastExpr" and p.get("ck") == "LValueToRValue" and fresh(g, t, x["i"]):
                            r.bad("%s|stale|%s" % (f.qn, x["n"]), f.where(x["i"]), "'%s' may still hold what an earlier message said" % x["n"]); break
    elements(r, R)
    addressed(P, r, w, R)
    answers(P, r)
    r.need("message handlers", len(R), 15)
    r.need("received items", nit, 25)
    r.need("effects of handlers", neff, 30); r.count("received values stored by key", nkey)
    r.count("aligned items", len(w.pairs))
    r.explain = "every handler of a received message: which parts of the message each of its effects depends on, through locals, calls and containers"
    r.assume = ["messages of one exchange are delivered in the order of their senders (the default of PCU)"]


WIDTH = {"long": 8, "unsigned long": 8, "int": 4, "unsigned int": 4, "double": 8, "float": 4, "char": 1, "short": 2, "unsigned short": 2, "bool": 1, "long long": 8, "unsigned long long": 8}


def repeated(f, i, it):
    """is the value at node i stored or handed on in every round of a loop that does not receive item it?"""
    bo = block_of(f); lp = loops(f)
    if not any(bo.get(i) in lp[h] and bo.get(it) not in lp[h] for h in lp): return False
    p = f.parent.get(i); c = i
    while p is not None:
        x = f.nodes[p]
        if x["k"] in CASTS or x["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXConstructExpr", "CXXBindTemporaryExpr"): c = p; p = f.parent.get(p); continue
        if x["k"] == "ConditionalOperator" and x["c"][0] != c: c = p; p = f.parent.get(p); continue
        if x["k"] == "BinaryOperator": return x["op"] == "=" and f.strip(x["c"][1]) == f.strip(c)
        return x["k"] in CALLS and not x.get("opcall")
    return False


def elements(r, R):
    """of an array received as a whole, every element is used, each for its own"""
    n = 0
    for g in R:
        f = g.f; bo = block_of(f); lp = loops(f); bounds = p13.loop_bounds(f)
        for it, B in sorted(g.unp.items()):
            a = f.args(f.nodes[it])
            if not B or not B.startswith("%") or len(a) < 2: continue
            m = re.match(r"(?:const )?(.*?) ?(?:\*|\[\d*\])$", f.vars.get(B, {}).get("ct", "")); w = WIDTH.get(m.group(1)) if m else None
            if w is None or f.nodes[f.strip(a[0])]["k"] != "DeclRefExpr": continue
            L = p13.lin(f, a[1]); cnt = {k: v // w for k, v in L.items()}
            if any(v % w for v in L.values()) or cnt == {(): 1}: continue
            ones = set(); spans = []; whole = tail = False; fixed = stand = None
            for x in f.reach_nodes():
                if x["k"] != "DeclRefExpr" or x["d"] != B: continue
                p = f.parent.get(x["i"])
                while p is not None and (f.nodes[p]["k"] in CASTS or f.nodes[p]["k"] == "ParenExpr"): p = f.parent.get(p)
                px = f.nodes[p] if p is not None else None
                if px is None or px["k"] == "CXXDeleteExpr": continue
                if px["k"] in CALLS and px["i"] == it: continue
                if px["k"] == "BinaryOperator" and px["op"] == "=" and f.strip(px["c"][0]) == x["i"]: continue          # the array is made
                if px["k"] != "ArraySubscriptExpr" or f.strip(px["c"][0]) != x["i"]: whole = True; break
                c = p13.lin(f, px["c"][1])
                if set(c) <= {()}:
                    ones.add(c.get((), 0)); fixed = fixed or px["i"]
                    if not set(cnt) <= {()} and repeated(f, px["i"], it): stand = px["i"]
                    continue
                if {k for k in c if k} <= {k for k in cnt if k}:           # counted from the end
                    if repeated(f, px["i"], it): stand = px["i"]
                    else: tail = True
                    continue
                v = [l for l in bounds if bo.get(px["i"]) in lp[l["header"]] and any(l["var"] in k or k == l["var"] for k in c if k)]
                if len(c) - (() in c) != 1 or len(v) != 1 or v[0]["start"] is None or v[0]["step"] not in (1, -1) or list(z for k, z in c.items() if k) != [1]: whole = True; break
                l = v[0]; off = c.get((), 0); e = p13.lin(f, l["bound"])
                # indices [lo, hi): hi as a form
                if l["step"] == 1 and l["op"] in ("<", "!=", "<="):
                    hi = dict(e); hi[()] = hi.get((), 0) + off + (l["op"] == "<="); lo = l["start"] + off
                else: whole = True; break
                spans.append((lo, {k: z for k, z in hi.items() if z}, px["i"]))
            if whole: continue
            n += 1
            name = f.vars[B].get("n") or B.split("#")[0].lstrip("%")
            if stand is not None:
                r.bad("%s|element|%s" % (f.qn, name), f.where(stand), "'%s' stands for all elements of what was received" % f.text(stand)[:60]); continue
            if tail: continue
            if not spans:
                if set(cnt) <= {()}:
                    for k in range(cnt.get((), 0)):
                        if ones and k not in ones: r.bad("%s|element|%s|%d" % (f.qn, name, k), f.where(it), "element %d of '%s' is received and then ignored" % (k, name))
                elif ones: r.bad("%s|element|%s" % (f.qn, name), f.where(fixed), "'%s' stands for all elements of what was received" % f.text(fixed)[:60])
                continue
            full = False; worst = None
            for lo, hi, at in spans:
                d = dict(cnt)
                for k, z in hi.items(): d[k] = d.get(k, 0) - z
                d = {k: z for k, z in d.items() if z}
                if not set(d) <= {()}: full = True; break                 # not comparable
                if all(k in ones for k in range(0, lo)) and d.get((), 0) <= 0: full = True
                else: worst = at
            if not full and len({(lo, tuple(sorted(hi.items(), key=str))) for lo, hi, at in spans}) == 1: r.bad("%s|element|%s" % (f.qn, name), f.where(worst), "'%s' does not reach every element that was received" % f.text(worst)[:60])
    r.count("arrays received as a whole", n)


def value(f, i, depth=0):
    """the expression a value comes from, through address-of and variables defined once"""
    i = f.strip(i); x = f.nodes[i]
    if depth > 6: return i
    if x["k"] == "UnaryOperator" and x["op"] == "&": return value(f, x["c"][0], depth + 1)
    if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
        d = [u for u in var_uses(f).get(x["d"], []) if u[0] in ("def", "mod")]
        d = [u for u in d if u[1] is not None or u[0] == "mod"]
        if len(d) == 1 and d[0][0] == "def": return value(f, d[0][1], depth + 1)
    return i


def entity(f, i, names):
    """the entity a call such as owner(E) or globalID(E) is about (its resolved key), or None"""
    j = value(f, i); x = f.nodes[j]
    if x["k"] in CALLS and x.get("n") in names and f.args(x): return f.key(value(f, f.args(x)[0])) or f.text(value(f, f.args(x)[0]))
    return None


def addressed(P, r, w, R):
    """of several ids in a message, the receiver looks up the one whose owner the message was sent to"""
    n = 0
    for g in R:
        f = g.f; yes = set(); no = set()
        for (a, b) in w.pairs:
            if b[0] != f.id or b[1] not in g.unp: continue
            pf = P.funcs[a[0]]; pc = pf.args(pf.nodes[a[1]])
            to = entity(pf, pc[0], ("owner",)); e = entity(pf, pc[1], ("globalID",))
            if to is None or e is None: continue
            (yes if to == e else no).add(b[1])
        if not yes: continue
        n += len(yes)
        for it in sorted(no - yes):
            d = g.unp[it]
            for y in g.nodes:
                if y["k"] not in CALLS: continue
                o = f.obj(y); isl = y.get("n") == "findGID" or o is not None and (f.nodes[f.strip(o)].get("n") == "vtx_mapping" or f.nodes[f.strip(o)].get("qn", "").endswith("::vtx_mapping")) or y.get("n") == "operator[]" and f.nodes[f.strip(y["c"][1])].get("n") == "vtx_mapping"
                if isl and f.args(y) and any(d == q for q in refs(f, f.args(y)[-1])):
                    r.bad("%s|addressed|%s" % (f.qn, d.split("#")[0].lstrip("%")), f.where(y["i"]), "'%s' looks up an id that belongs to the sender; the message was sent to the owner of another id in it" % f.text(y["i"])[:90])
    r.count("ids sent to their owners", n)


def slot(f, i):
    """(container, index) of the element an expression reads, if any"""
    i = value(f, i)
    while True:
        x = f.nodes[f.strip(i)]; k = x["k"]
        if k == "MemberExpr" and x["c"]: i = x["c"][0]; continue
        if k == "ArraySubscriptExpr": return f.key(f.strip(x["c"][0])), rkey(f, x["c"][1])
        if k == "CXXOperatorCallExpr" and x.get("n") == "operator[]": return f.key(f.strip(x["c"][1])), rkey(f, f.args(x)[-1])
        if k == "CXXMemberCallExpr" and x.get("n") == "at": return f.key(f.strip(f.obj(x))), rkey(f, f.args(x)[0])
        return None


def answers(P, r):
    """an answer goes to the part that asked: destination and contents come from the same element of the list of requests"""
    n = 0
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        for y in f.calls():
            if y.get("qn") not in ph.PACK: continue
            a = f.args(y); d = slot(f, a[0])
            if d is None or d[0] is None: continue
            n += 1
            # everything the contents are taken from
            st = [a[1]]; seen = set()
            while st:
                j = st.pop()
                if j in seen or j is None or j < 0: continue
                seen.add(j); x = f.nodes[j]
                if x["k"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
                    e = slot(f, j)
                    if e and e[0] == d[0] and e[1] != d[1]:
                        r.bad("%s|answer|%s" % (f.qn, f.text(a[0])[:40]), f.where(y["i"]), "'%s' answers one request with what another one asked for" % f.text(y["i"])[:90]); break
                if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
                    st += [u[1] for u in var_uses(f).get(x["d"], []) if u[0] == "def" and u[1] is not None]
                st += x["c"]
    r.count("answers to listed requests", n)


def refs(f, i):
    return wire.refs(f, i)


def effectful(P, ts, memo={}):
    """may any of the functions change something (stores to fields, containers or through parameters, output, messages)?"""
    for t in ts:
        if t.id in memo: 
            if memo[t.id]: return True
            continue
        memo[t.id] = False
        e = False
        for y in t.reach_nodes():
            if y["k"] == "BinaryOperator" and y["op"] == "=" or y["k"] == "CompoundAssignOperator" or y["k"] == "UnaryOperator" and y["op"] in ("++", "--"):
                l = t.nodes[t.strip(y["c"][0])]
                if l["k"] != "DeclRefExpr" or l["d"] in {p["d"] for p in t.params} and t.vars[l["d"]]["ct"].endswith("&"): e = True
            elif y["k"] in CALLS:
                n = y.get("n", ""); c = P.targets(t, y)
                if n in PURE or n in ("operator[]", "operator++") : continue
                if c: e = e or effectful(P, c)
                elif t.obj(y) is not None and (y.get("cls") or "").startswith("std::") and n in APPEND | INSERT | {"erase", "clear", "swap", "resize"}: e = True
                elif y.get("qn") in ph.ALLPRIM or n in ("fprintf", "printf", "memcpy"): e = True
        memo[t.id] = e
        if e: return True
    return False

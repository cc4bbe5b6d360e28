"""P05: counted arrays are allocated, indexed and copied by the same count."""
import re
import agx
from agx import *
import ext as X
from ext import ONE, add, num, scale, const, show

BYTES = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "double": 8, "float": 4, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "bool": 1}
# call: (pointer argument, count argument, element multiplier given in bytes?)
COUNTED = {"PCU_Add_Doubles": [(0, 1, 0)], "PCU_Min_Doubles": [(0, 1, 0)], "PCU_Max_Doubles": [(0, 1, 0)], "PCU_Add_Ints": [(0, 1, 0)], "PCU_Min_Ints": [(0, 1, 0)], "PCU_Max_Ints": [(0, 1, 0)],
           "PCU_Exscan_Ints": [(0, 1, 0)], "PCU_Exscan_Longs": [(0, 1, 0)], "PCU_Add_Longs": [(0, 1, 0)], "PCU_Add_SizeTs": [(0, 1, 0)], "PCU_Min_SizeTs": [(0, 1, 0)], "PCU_Max_SizeTs": [(0, 1, 0)],
           "PCU_Comm_Pack": [(1, 2, 1)], "PCU_Comm_Unpack": [(0, 1, 1)], "memcpy": [(0, 2, 1), (1, 2, 1)], "memmove": [(0, 2, 1), (1, 2, 1)], "memset": [(0, 2, 1)],
           "MPI_Reduce": [(0, 2, 0), (1, 2, 0)], "MPI_Allreduce": [(0, 2, 0), (1, 2, 0)], "MPI_Bcast": [(0, 1, 0)],
           "pcu_read_doubles": [(1, 2, 0)], "pcu_write_doubles": [(1, 2, 0)], "pcu_read_unsigneds": [(1, 2, 0)], "pcu_write_unsigneds": [(1, 2, 0)]}
GLOBAL = {"NLV": "NVG", "NLE": "NEG", "NLP": "NPG", "NGV": "NVG"}
LISTS = {"DL", "VL", "EL"}


# arrays a caller passes with their count: function -> {array parameter: count parameter} (by name)
PASSED = {("agi::Ngraph::constructVerts", 4): {1 + 1: 1, 3: 1}, ("agi::Ngraph::constructEdges", 5): {1: 0, 2: 0}, ("agi::Ngraph::constructGhosts", 3): {1: 0, 2: 0},
          ("cengpar_constructVerts", 5): {2: 4, 3: 4}, ("cengpar_constructEdges", 7): {1: 5, 2: 5, 3: 5, 4: 6}, ("cengpar_constructGhosts", 4): {1: 3, 2: 3}, ("cengpar_getPartition", 4): {1: 3, 2: 3}}
# vectors a caller passes: what their lengths are
SIZES = {("agi::Ngraph::constructEdges", 4): {0: "NLE", 1: "NLE", 2: "NLP"}, ("agi::Ngraph::constructEdges", 5): {0: "NLE"}}
KINDS = dict(list(X.BASE.items()) + list(X.TYPED.items()))
# arrays of the partitioner's own structures, by what they are indexed with
OWN = {("engpar::Inputs", "visited"): "NLE", ("engpar::Inputs", "seeds"): "NLE", ("engpar::Inputs", "labels"): "NLE"}


def kindof(t):
    """the count a linear form's atom is, when it is one of the graph's own"""
    if t[0] == "base": return t[1]
    if t[0] in ("phi", "def", "fld"):
        m = re.search(r"\.(\w+)(\[.*\])?$", str(t[1]))
        if m and m.group(1) in KINDS: return KINDS[m.group(1)]
    return None


def sign(d, ext=(), counted=False):
    """'over' when the difference is at least 0 for some graph and not known to be negative; 'under' when always negative; None unknown"""
    for t in list(d):
        if t != ONE and kindof(t) == "SELF":                   # 0 .. PEERS-1
            k = d[t]; d = {a: c for a, c in d.items() if a != t}
            if k > 0: d = add(d, {("base", "PEERS", ""): k, ONE: -k})
    c = d.get(ONE, 0); pos = [t for t, k in d.items() if t != ONE and k > 0]; neg = [t for t, k in d.items() if t != ONE and k < 0]
    if not pos and not neg: return "over" if c >= 0 else "under"
    if not neg:                                                # counts grow without bound
        return "over" if all(kindof(t) or t in ext or t[0] in ("par", "sz", "deg") for t in pos) else None
    if not pos:
        if c < 0: return "under"
        return "over" if counted and {kindof(t) for t in neg} == {"NT"} else None       # a graph may have no edge types at all
    kp = {kindof(t) for t in pos}; kn = {kindof(t) for t in neg}
    if None in kp or None in kn: return None
    if any(GLOBAL.get(p) in kn for p in kp) or kp & kn: return None
    if (kp | kn) & LISTS and (kp | kn) & {"NLE", "NEG", "NPG"}: return None
    if kp & LISTS and kn & (LISTS | {"NLP"}): return None
    return "over"


CONTENT = {("engpar::Inputs", "seeds"): "NLE"}


def chain_up(f, i):
    while f.parent.get(i) is not None:
        i = f.parent[i]; yield i


class Run:
    def __init__(s, P, r):
        s.P = P; s.r = r; s.A = X.All(P)
        s.na = s.nd = s.nal = s.nc = s.nv = s.nr = s.nco = s.nn = s.nt = s.nw = 0; s.und = 0

    def canon(s, e, v):
        """name the counts that reach a construction call as parameters"""
        f = e.f; T = SIZES.get((f.qn, len(f.params)))
        if v is None or not T: return v
        out = {}
        for t, c in v.items():
            u = t
            if t != ONE and (t[0] == "par" or (t[0] == "sz" and t[2] == 0)):
                for j, p in enumerate(f.params):
                    if p["d"] == t[1] and j in T: u = ("base", T[j], "new", "this")
            out = add(out, {u: c})
        return out

    def passed(s, e, b, node):
        f = e.f; T = PASSED.get((f.qn, len(f.params))); x = f.nodes[f.strip(b)]
        if not T or x["k"] != "DeclRefExpr": return []
        for j, p in enumerate(f.params):
            if p["d"] == x["d"] and j in T and e.reach(x["d"], node) == frozenset({0}): return [({("par", f.params[T[j]]["d"]): 1}, "passed with")]
        return []

    def ext(s, e, b, node):
        return [(s.canon(e, v), d) for v, d in (e.extent(b, node) or s.passed(e, b, node))]

    # ------------------------------------------------------------- vectors
    def vec(s, e, x):
        """(object, index) of an indexed vector"""
        f = e.f
        if x["k"] in CALLS and x.get("n") in ("operator[]", "at") and x.get("meth"):
            o = f.obj(x); t = f.nodes[f.strip(o)]["ct"]
            if t.startswith(("std::vector<", "const std::vector<", "std::deque<", "const std::deque<")): return o, f.args(x)[0]
        return None

    def vext(s, e, o, node):
        f = e.f; c = e.cell(o)
        if c is None: return []
        r = e.reach(c, node)
        if not r: return []
        if len(r) == 1:
            d = next(iter(r))
            if d:
                dc, rhs, st, kind, n = e.defs[d]
                if kind == "=" and rhs is not None:
                    y = f.nodes[f.strip(rhs)]
                    while y["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and y["c"]: y = f.nodes[f.strip(y["c"][0])]
                    if y["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        A = [a for a in y["c"] if f.nodes[a]["k"] != "CXXDefaultArgExpr"]
                        if A and re.match(r"^(const )?(unsigned )?(long|int|short)", f.nodes[A[0]]["ct"]) and len(A) <= 2 and not y.get("list"):
                            v = e.lin(A[0], n)
                            return [(v, "constructed with")] if v is not None else []
                return [({("sz", c, e.ver(c, node)): 1}, "size")]
        return [({("sz", c, e.ver(c, node)): 1}, "size")]

    # ------------------------------------------------------------- indices
    def conditional(s, e, i, node):
        """the access happens under a further condition on its index, inside the loop that drives it"""
        f = e.f; ns = e.namesof(i)
        heads = {h for h, b in loops(f).items() if e.pos[node][0] in b}
        for c, pos, a in e.guards(node):
            if a in heads: continue
            if e.namesof(c) & ns: return True
        cd = control_deps(f)
        for a in cd.get(e.pos[node][0], ()):
            a = a[0] if isinstance(a, tuple) else a
            if a in heads: continue
            c = f.blocks[a].get("cond")
            if c is not None and e.namesof(c) & ns and not any(e.pos[node][0] in b for h, b in loops(f).items() if h == a): return True
        return False

    def judge(s, key, where, e, idx, node, E, what):
        f = e.f
        U = [(s.canon(e, u), h) for u, h in e.ub(idx, node)]
        if not E: return
        if not U: return
        s.nd += 1
        over = []; some = False
        for u, how in U:
            for v, d in E:
                g = sign(add(u, v, -1), v, how == "attained")
                if g == "under": break
                some = True
                if g == "over" and how in ("exact", "attained", "guard"): over.append((u, v, how, d))
            else: continue
            break
        else:
            # no bound keeps it inside every alternative
            if over and len(over) == len(U) * 1 or (over and len(E) == 1 and len(over) == len(U)):
                if any(h not in ("exact", "guard") for _, _, h, _ in over) and s.conditional(e, idx, node):
                    s.und += 1; s.r.undecided(key, where, "index %s reaches %s, under a condition on it" % (f.text(idx)[:60], show(over[0][0]))); return
                u, v, how, d = over[0]
                s.r.bad(key, where, "index %s reaches %s, but %s holds %s elements (%s)" % (f.text(idx)[:60], show(u), what, show(v), d))
            elif some: s.und += 1

    # ------------------------------------------------------------- numbering
    def numbering(s, e, i, node, depth=0):
        """what an index counts: a vertex of the part, a ghost, an edge"""
        f = e.f; x = f.nodes[f.strip(i)]
        if depth > 4: return None
        if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
            r = e.reach(x["d"], node) if node in e.pos else None
            if r is None or len(r) != 1 or 0 in r: return None
            d = e.defs[next(iter(r))]
            return s.numbering(e, d[1], d[4], depth + 1) if d[3] == "=" and d[1] is not None else None
        if x["k"] in CALLS and x.get("n") == "localID" and f.args(x):
            t = f.nodes[f.strip(f.args(x)[0])]["ct"]
            return "vertex" if "GraphVertex" in t else "edge" if "GraphEdge" in t else None
        if x["k"] == "BinaryOperator" and x["op"] == "-":
            if s.numbering(e, x["c"][0], node, depth + 1) != "vertex" or node not in e.pos: return None
            b = e.lin(x["c"][1], node)
            return "ghost" if b and {kindof(t) for t in b} == {"NLV"} and list(b.values()) == [1] else None
        return None

    FITS = {"vertex": {"NLV"}, "ghost": {"NGV"}, "edge": {"NLE"}}

    def fits(s, key, where, e, idx, node, E, what):
        n = s.numbering(e, idx, node)
        if n is None or not E: return
        s.nn += 1
        for v, d in E:
            ks = {kindof(t) for t in v if t != ONE}
            if not ks or None in ks or ks & s.FITS[n] or not ks <= {"NLV", "NGV", "NLE", "NLP", "NT", "PEERS"}: return
        s.r.bad(key + "|numbering", where, "%s numbers the %s, but %s holds %s elements (%s)" % (e.f.text(idx)[:60], {"vertex": "vertices of the part", "ghost": "ghosts", "edge": "edges"}[n], what, show(E[0][0]), E[0][1]))

    SET = {"setInt": 4, "setLong": 8, "setDouble": 8, "getInt": 4, "getLong": 8, "getDouble": 8}
    TAG = {"Int": 4, "Long": 8, "Double": 8}

    def tags(s, e):
        """tag storage: made with the size and the element width it is used with"""
        f = e.f; made = {}
        for x in f.reach_nodes():
            if x["k"] != "CXXNewExpr" or x.get("arr") or x["i"] not in e.pos: continue
            c = f.nodes[f.strip(x["init"])] if x.get("init") is not None and x["init"] >= 0 else next((f.nodes[z] for z in x["c"] if z >= 0 and f.nodes[z]["k"] == "CXXConstructExpr"), None)
            if c is None or "Info" not in c["ct"] or len(f.args(c)) < 2 if c is not None and c["k"] == "CXXConstructExpr" else True: continue
            A = f.args(c); n = s.canon(e, e.lin(A[0], x["i"])); w = e.lin(A[1], x["i"]); w = X.const0(w)
            s.nt += 1
            m = re.match(r"create(Int|Long|Double)(Ghost)?Tag$", f.name)
            if m and w is not None and w < s.TAG[m.group(1)]:
                s.r.bad("%s|width" % f.qn, f.where(x["i"]), "values of a %s tag take %d bytes, but the storage is made for %d bytes each" % (m.group(1), s.TAG[m.group(1)], w))
            if m and m.group(2) and n is not None and {kindof(t) for t in n} - {"NGV", "NLV"} == set() and "NGV" not in {kindof(t) for t in n}:
                s.r.bad("%s|size" % f.qn, f.where(x["i"]), "a ghost tag is made with %s entries" % show(n))
            if m and not m.group(2):
                # one size for vertices, another for the edges of a type
                y = f.nodes[f.strip(A[0])]
                for d in (e.reach(y["d"], x["i"]) or ()) if y["k"] == "DeclRefExpr" else ():
                    if not d: continue
                    dc, rhs, st, kind, nd = e.defs[d]
                    v = e.lin(rhs, nd) if kind == "=" and rhs is not None else None
                    ks = {kindof(t) for t in v if t != ONE} if v else set()
                    for c2, pos, a in e.guards(nd):
                        for q, ps in e.conj(c2, pos):
                            z = f.nodes[q]
                            if z["k"] != "BinaryOperator" or z["op"] not in ("==", "!="): continue
                            if not e.namesof(q) & {p["d"] for p in f.params}: continue
                            if not any(f.nodes[f.strip(k)].get("cv") not in (None, "0") and int(f.nodes[f.strip(k)]["cv"]) != 0 or f.nodes[f.strip(k)].get("n") == "VTX_TYPE" for k in z["c"]): continue
                            vtx = (z["op"] == "==") == ps
                            if ks and None not in ks and ks != ({"NLV"} if vtx else {"NLE"}) and not (vtx and "NLV" in ks):
                                s.r.bad("%s|size" % f.qn, f.where(nd), "a tag of the %s is made with %s entries" % ("vertices" if vtx else "edges of a type", show(v)))
            p = f.parent.get(x["i"])
            if n is not None: made[x["i"]] = (n, w)
        if not made: return
        for x in f.calls():
            if x.get("n") not in s.SET or not x.get("meth") or x["i"] not in e.pos: continue
            y = f.nodes[f.strip(f.obj(x))]
            if y["k"] != "DeclRefExpr": continue
            r = e.reach(y["d"], x["i"])
            if not r or len(r) != 1 or 0 in r: continue
            d = e.defs[next(iter(r))]
            if d[3] != "=" or d[1] is None or f.strip(d[1]) not in made: continue
            n, w = made[f.strip(d[1])]; A = f.args(x)
            s.fits("%s|%s" % (f.qn, x["n"]), f.where(x["i"]), e, A[0], x["i"], [(n, "made with")], "the tag")
            if w is not None and w < s.SET[x["n"]]: s.r.bad("%s|%s|width" % (f.qn, x["n"]), f.where(x["i"]), "%s moves %d bytes, but the storage is made for %d bytes each" % (x["n"], s.SET[x["n"]], w))

    # ------------------------------------------------------------- whole arrays
    def whole(s, e):
        """an array walked by a count is walked from its first element to its last"""
        f = e.f; use = defaultdict(list)
        for x in f.reach_nodes():
            if x["k"] == "ArraySubscriptExpr" and x["i"] in e.pos:
                b = f.strip(x["c"][0]); y = f.nodes[b]
                if re.search(r"\[\d+\]$", y["ct"]) and "(*" not in y["ct"]: continue
                a = e.array(b); k = None
                if a and a[1] not in ("degree_list", "pin_degree_list", "vev_offsets", "eve_offsets"): k = ("a",) + a
                elif y["k"] == "DeclRefExpr" and s.passed(e, b, x["i"]): k = ("p", y["d"])
                if k: use[k].append((x, b, x["c"][1], s.ext(e, x["c"][0], x["i"])))
                continue
            v = s.vec(e, x)
            if v and x["i"] in e.pos and e.cell(v[0]): use[("v", e.cell(v[0]))].append((x, v[0], v[1], [(s.canon(e, w), d) for w, d in s.vext(e, v[0], x["i"])]))
        if not use: return
        LP = loops(f)
        for k, xs in sorted(use.items(), key=str):
            G = defaultdict(list); ends = set()
            for x, bs, ix, E in xs:
                l = e.lb(ix, x["i"]); u = e.ub(ix, x["i"])
                bb = e.pos[x["i"]][0]
                h = min((z for z in LP if bb in LP[z]), key=lambda z: len(LP[z]), default=None)
                hi = {(X.const0(add(s.canon(e, v), E[0][0], -1)), how) for v, how in u} if len(E) == 1 else {(None, "")}
                if l == 0 and all(c == 0 for v, how in u for c in [X.const0(v)]): ends.add("first")
                if any(c == -1 and how == "exact" for c, how in hi): ends.add("last")
                G[h].append((bs, l, hi))
            for h, g in sorted(G.items(), key=str):
                if h is None: continue
                s.nw += 1; nm = f.text(g[0][0])
                if all(l is not None for _, l, _ in g) and min(l for _, l, _ in g) == 1 and "first" not in ends:
                    s.r.bad("%s|%s|first" % (f.qn, nm), f.where(g[0][0]), "%s is walked, but its first element is left out" % nm[:60])
                if all(hi and all(c == -2 and how == "attained" for c, how in hi) for _, _, hi in g) and "last" not in ends:
                    s.r.bad("%s|%s|last" % (f.qn, nm), f.where(g[0][0]), "%s is walked, but its last element is left out" % nm[:60])

    def low(s, key, where, e, idx, node, what):
        l = e.lb(idx, node)
        if l is not None and l < 0:
            if s.conditional(e, idx, node): return
            s.r.bad(key, where, "index %s reaches %d" % (e.f.text(idx)[:60], l))

    def accesses(s, e):
        f = e.f
        for x in f.reach_nodes():
            if x["i"] not in e.pos: continue
            if x["k"] == "ArraySubscriptExpr":
                y = f.nodes[f.strip(x["c"][0])]
                if re.search(r"\[\d+\]$", y["ct"]) and "(*" not in y["ct"]: continue
                s.na += 1
                E = s.ext(e, x["c"][0], x["i"]); b, i = x["c"]
            else:
                v = s.vec(e, x)
                if not v: continue
                s.nv += 1; b, i = v
                E = [(s.canon(e, v), d) for v, d in s.vext(e, b, x["i"])]
            key = "%s|%s|%s" % (f.qn, rkey(f, b), rkey(f, i))
            s.judge(key, f.where(x["i"]), e, i, x["i"], E, f.text(b)[:60])
            s.fits(key, f.where(x["i"]), e, i, x["i"], E, f.text(b)[:60])
            s.low(key + "|low", f.where(x["i"]), e, i, x["i"], f.text(b)[:60])

    # ------------------------------------------------------------- allocations
    def allocations(s, e):
        f = e.f
        ends = [b for b in f.pred().get(f.exit, ())] if f.exit is not None else []
        for d, (c, rhs, st, kind, n) in sorted(e.defs.items()):
            if kind != "=" or rhs is None: continue
            x = f.nodes[n]
            if x["k"] != "BinaryOperator": continue
            a = e.array(x["c"][0])
            if not a: continue
            w = e.partial(rhs, n)
            if w and a[1] in X.LISTOF: s.r.bad("%s|%s|part" % (f.qn, a[1]), f.where(n), "%s is allocated with %s elements, which is not its last offset" % (f.text(x["c"][0])[:60], w))
            vs = e.extent(x["c"][1], n) if e.alloc(rhs, n) is None else [(e.alloc(rhs, n), "")]
            if len(vs) != 1: continue
            v = vs[0][0]; s.nal += 1
            for b in ends:
                if d not in e.end(c, b): continue
                nd = e.endnode(b)
                w = e.declared(a, nd)
                if w is None: continue
                q = add(s.canon(e, v), s.canon(e, w), -1)
                g = sign(add(scale(q, -1), num(-1)), w)           # declared - allocated - 1 >= 0
                if g is None and (f.qn, len(f.params)) in PASSED and {t[0] for t in q if t != ONE} <= {"par", "base"} and {kindof(t) for t in q if t != ONE and q[t] < 0} - {None} and any(t != ONE and t[0] == "par" for t in q):
                    g = "over"                                    # a count the caller passes and one of the graph's own
                if g == "over":
                    s.r.bad("%s|%s|size" % (f.qn, a[1]), f.where(n), "%s is allocated with %s elements but holds %s" % (f.text(x["c"][0])[:60], show(v), show(w))); break

    def own(s, e):
        """arrays of the partitioner's structures"""
        f = e.f
        for d, (c, rhs, st, kind, n) in sorted(e.defs.items()):
            if kind != "=" or rhs is None or f.nodes[n]["k"] != "BinaryOperator": continue
            y = f.nodes[f.strip(f.nodes[n]["c"][0])]
            if y["k"] != "MemberExpr": continue
            k = OWN.get((f.nodes[y["c"][0]]["ct"].replace("const ", "").rstrip(" *&"), y["n"])) if y["c"] else None
            v = e.alloc(rhs, n) if k else None
            if v is None: continue
            s.nal += 1
            if v and all(t == ONE or (kindof(t) not in (None, k)) or t[0] in ("fld", "phi", "def") and kindof(t) is None and "." in str(t[1]) for t in v):
                s.r.bad("%s|%s|size" % (f.qn, y["n"]), f.where(n), "%s is allocated with %s elements but is indexed by edges" % (f.text(f.nodes[n]["c"][0])[:60], show(v)))

    def contents(s, e):
        """numbers of edges stored as the starting points of a traversal exist"""
        f = e.f
        for x in f.reach_nodes():
            if x["k"] != "BinaryOperator" or x["op"] != "=": continue
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] != "ArraySubscriptExpr": continue
            y = f.nodes[f.strip(y["c"][0])]
            if y["k"] != "MemberExpr" or not y["c"]: continue
            n = CONTENT.get((f.nodes[y["c"][0]]["ct"].replace("const ", "").rstrip(" *&"), y["n"]))
            if not n: continue
            st = [x["c"][1]]
            while st:
                i = st.pop(); z = f.nodes[f.strip(i)]
                if z["k"] == "ConditionalOperator": st += z["c"][1:]; continue
                at = next((q for q in [i, f.strip(i), z["i"]] + list(chain_up(f, i)) if q in e.pos), None)
                if at is None: continue
                s.nco += 1
                for u, how in e.ub(i, at)[:1]:
                    ks = [t for t in u if t != ONE]; c = u.get(ONE, 0)
                    if len(ks) > 1 or any(kindof(t) is None for t in ks): continue
                    if ks and u[ks[0]] != 1: continue
                    key = "%s|%s|content" % (f.qn, y["n"]); bad = None
                    if ks and kindof(ks[0]) != n: bad = "which may be no edge's number"
                    elif ks and c >= 0: bad = "one past the last edge"
                    elif how == "exact":
                        L = s.least(e, at, n)
                        if not ks and L < c + 1: bad = "though only %s edges are known to exist" % (L if L else "no")
                        elif ks and L < -c: bad = "though only %s edges are known to exist" % (L if L else "no")
                    if bad: s.r.bad(key, f.where(z["i"]), "%s stores %s, %s" % (f.text(x["c"][0])[:50], show(u), bad))

    def least(s, e, node, kind):
        """how many entities of a kind the conditions at a node guarantee"""
        f = e.f; L = 0
        for c, pos, a in e.guards(node):
            for q, ps in e.conj(c, pos):
                x = f.nodes[q]
                nd = e.lastnode(a, q)
                if nd is None: continue
                if x["k"] == "BinaryOperator" and x["op"] in ("<", "<=", ">", ">=", "==", "!="):
                    l, r = e.lin(x["c"][0], nd), e.lin(x["c"][1], nd); op = x["op"]
                    if l is None or r is None: continue
                    d = add(l, r, -1)
                elif x["k"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or x["k"] in CALLS:
                    d = e.lin(q, nd); op = "!="
                    if d is None: continue
                else: continue
                if not ps: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                ks = [t for t in d if t != ONE]
                if len(ks) != 1 or kindof(ks[0]) != kind or abs(d[ks[0]]) != 1: continue
                k = d[ks[0]]; c0 = d.get(ONE, 0)
                if k < 0: c0 = -c0; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                # n + c0 op 0
                if op == ">": L = max(L, 1 - c0)
                elif op == ">=" or op == "==": L = max(L, -c0)
                elif op == "!=" and c0 == 0: L = max(L, 1)
        return L

    def ranges(s, e):
        """p + n of an array passed with a count"""
        f = e.f; T = PASSED.get((f.qn, len(f.params)))
        if not T: return
        for x in f.reach_nodes():
            if x["k"] != "BinaryOperator" or x["op"] != "+" or "*" not in x["ct"]: continue
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] != "DeclRefExpr": continue
            for j, p in enumerate(f.params):
                if p["d"] != y["d"] or j not in T: continue
                s.nr += 1; q = f.params[T[j]]
                b = next((z for z in [x["i"]] + list(chain_up(f, x["i"])) if z in e.pos), None)
                v = e.lin(x["c"][1], b) if b is not None else None
                if v is None: continue
                w = add(v, {("par", q["d"]): -1})
                others = [t for t in w if t != ONE and not (t[0] == "par" and t[1] in {z["d"] for z in f.params})]
                if w and not others and not (set(w) == {ONE} and w[ONE] < 0 and False):
                    s.r.bad("%s|%s|range" % (f.qn, y["n"]), f.where(x["i"]), "%s is taken to hold %s elements, but it is passed with %s" % (y["n"], show(v), q["n"]))

    # ------------------------------------------------------------- counted calls
    def calls(s, e):
        f = e.f
        for x in f.calls():
            for p, c, by in COUNTED.get(x.get("n"), ()):
                A = f.args(x)
                if max(p, c) >= len(A) or x["i"] not in e.pos: continue
                E = s.pointee(e, A[p], x["i"])
                n = s.canon(e, e.lin(A[c], x["i"]))
                if not E or n is None: continue
                s.nc += 1
                key = "%s|%s|%s|%d" % (f.qn, x["n"], rkey(f, A[p]), p); over = None
                for v, d, t in E:
                    if by:
                        m = re.match(r"^(.*?)(?: const)?\[(\d+)\]$", t); w = BYTES.get((m.group(1) if m else t).replace("const ", ""))
                        if not w: continue
                        if m: w *= int(m.group(2))
                        q = add(n, scale(v, w), -1)
                    else: q = add(n, v, -1)
                    if sign(add(q, num(-1)), v) == "over":
                        over = v
                    else: break
                else:
                    if over is not None:
                        v = over; s.r.bad(key, f.where(x["i"]), "%s takes %s%s from %s, which holds %s elements" % (x["n"], show(n), " bytes" if by else " elements", f.text(A[p])[:60], show(v)))

    def pointee(s, e, i, node):
        f = e.f; x = f.nodes[f.strip(i)]
        if x["k"] == "UnaryOperator" and x["op"] == "&":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "ArraySubscriptExpr" and e.lin(y["c"][1], node) == {}: i = y["c"][0]; x = f.nodes[f.strip(i)]
            elif y["k"] in CALLS and s.vec(e, y) and e.lin(s.vec(e, y)[1], node) == {}:
                o = s.vec(e, y)[0]; t = f.nodes[f.strip(o)]["ct"]; m = re.match(r"^(?:const )?std::vector<([\w ]+?)(,|>)", t)
                return [(v, d, m.group(1)) for v, d in s.vext(e, o, node)] if m else []
            else: return []
        m = re.match(r"^(.*?) ?\*(?:const)?$", x["ct"])
        if x["ct"].endswith("]"):
            m2 = re.match(r"^(.*?) ?\[(\d+)\]$", x["ct"])
            return [(num(int(m2.group(2))), "declared", m2.group(1))] if m2 else []
        m3 = re.match(r"^(.*?) ?\(\*\)(\[\d+\])$", x["ct"])
        if not m and not m3: return []
        t = m.group(1) if m else m3.group(1) + m3.group(2)
        return [(v, d, t) for v, d in s.ext(e, i, node)]


def ghosttags(P, r):
    """values of tags on vertices are looked up by vertex or, for a ghost, by its place among the ghosts"""
    n = 0
    def cls(p): return p["ct"].replace("const ", "").replace("*", "").replace("&", "").strip()
    def nlv(f, i):
        y = f.nodes[f.strip(i)]
        if y["k"] == "MemberExpr": return y["n"] == "num_local_verts"
        if y["k"] in CALLS: return y.get("n") == "numLocalVtxs"
        d = single_def(f, y["d"]) if y["k"] == "DeclRefExpr" and y["d"].startswith("%") else None
        return d is not None and nlv(f, d)
    def split(f, seen):
        """(subtractions of the number of owned vertices, comparisons with it) in f and what it calls"""
        if f.id in seen or len(seen) > 8: return 0, []
        seen.add(f.id); subs = 0; cmps = []
        for x in f.reach_nodes():
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"] in ("-", "-=") and nlv(f, x["c"][1]): subs += 1
            elif x["k"] == "BinaryOperator" and x["op"] in ("<", "<=", ">", ">="):
                a, b = x["c"]
                if nlv(f, b): cmps.append((f, x, x["op"], a))
                elif nlv(f, a): cmps.append((f, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[x["op"]], b))
            elif x["k"] in CALLS:
                for t in P.targets(f, x):
                    if t.file == f.file or not x.get("meth"):
                        u, v = split(t, seen); subs += u; cmps += v
        return subs, cmps
    for f in sorted(P.funcs.values(), key=lambda z: z.id):
        if f.cls != "agi::Ngraph" or [cls(p) for p in f.params] != ["agi::GraphTag", "agi::GraphVertex"]: continue
        if f.cret.strip() in ("void", ""): continue
        n += 1
        subs, cmps = split(f, set())
        if not subs: r.bad("%s|ghost" % f.qn, f.where(), "%s() reads a tag at a ghost's local number, past the values of the ghosts" % f.name)
        for g, x, op, a in cmps:
            y = g.nodes[g.strip(a)]
            if op in (">", "<=") and y["k"] == "DeclRefExpr": r.bad("%s|first ghost" % f.qn, g.where(x["i"]), "'%s' takes the first ghost for an owned vertex" % g.text(x["i"])[:60])
    r.need("tag values read by vertex", n, 3)


def fixed(P, r):
    """local arrays made with a constant number of entries, indexed by counters whose value is known: constant propagation along every path"""
    n = 0
    for f in sorted(P.funcs.values(), key=lambda z: z.id):
        if f.file.startswith("pcu/") or not f.blocks: continue
        news = [x for x in f.reach_nodes() if x["k"] == "CXXNewExpr" and x.get("arr") and x.get("sz", -1) >= 0 and f.nodes[f.strip(x["sz"])].get("cv") is not None]
        if not news: continue
        OUT = {}; ch = True; bad = {}; acc = set(); preds = f.pred()
        def loc(i):
            y = f.nodes[f.strip(i)]
            return y["d"] if y["k"] == "DeclRefExpr" and y["d"].startswith("%") else None
        def value(st, val, i):
            j = f.strip(i); y = f.nodes[j]
            if y.get("cv") is not None and isinstance(y["cv"], int): return y["cv"]
            if y["k"] == "UnaryOperator" and j in val: return val[j]
            if y["k"] == "DeclRefExpr": return st.get(y["d"])
            if y["k"] == "BinaryOperator" and y["op"] in ("+", "-"):
                a, b = value(st, val, y["c"][0]), value(st, val, y["c"][1])
                if isinstance(a, int) and isinstance(b, int): return a + b if y["op"] == "+" else a - b
            return None
        def size(i):
            y = f.nodes[f.strip(i)]
            if y["k"] == "CXXNewExpr" and y.get("arr") and y.get("sz", -1) >= 0:
                c = f.nodes[f.strip(y["sz"])].get("cv")
                return ("n", int(c)) if c is not None else None
            return None
        def give(st, v, w):
            if w is None: st.pop(v, None)
            else: st[v] = w
        def step(b, st):
            st = dict(st); val = {}
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]; k = x["k"]
                if k == "DeclStmt":
                    for d in x["decls"]:
                        if d["init"] >= 0: give(st, d["d"], size(d["init"]) or value(st, val, d["init"]))
                        else: st.pop(d["d"], None)
                elif k == "BinaryOperator" and x["op"] == "=":
                    v = loc(x["c"][0])
                    if v: give(st, v, size(x["c"][1]) or value(st, val, x["c"][1]))
                elif k == "CompoundAssignOperator":
                    v = loc(x["c"][0])
                    if v:
                        a, w = st.get(v), value(st, val, x["c"][1])
                        give(st, v, (a + w if x["op"] == "+=" else a - w) if isinstance(a, int) and isinstance(w, int) and x["op"] in ("+=", "-=") else None)
                elif k == "UnaryOperator" and x["op"] in ("++", "--"):
                    v = loc(x["c"][0])
                    if v:
                        a = st.get(v)
                        if isinstance(a, int):
                            w = a + (1 if x["op"] == "++" else -1); val[e] = a if x.get("post") else w; st[v] = w
                        else: st.pop(v, None)
                elif k == "UnaryOperator" and x["op"] == "&":
                    v = loc(x["c"][0])
                    if v: st.pop(v, None)
                elif k in CALLS:
                    for a in f.args(x):
                        y = f.nodes[f.strip(a)]
                        if y["k"] == "DeclRefExpr" and f.nodes[a].get("lv") and isinstance(st.get(y["d"]), int): st.pop(y["d"], None)
                elif k == "ArraySubscriptExpr":
                    v = loc(x["c"][0]); w = st.get(v) if v else None
                    if isinstance(w, tuple):
                        q = value(st, val, x["c"][1]); acc.add(e)
                        if isinstance(q, int) and not 0 <= q < w[1]: bad[e] = (q, w[1])
            return st
        rounds = 0
        while ch and rounds < 60:
            ch = False; bad.clear(); rounds += 1
            for b in f.blocks if isinstance(f.blocks, dict) else f.succ():
                ins = [OUT[p] for p in preds[b] if p in OUT]
                if b != f.entry and not ins: continue
                i = dict(ins[0]) if ins else {}
                for q in ins[1:]: i = {v: w for v, w in i.items() if q.get(v) == w}
                o = step(b, i)
                if OUT.get(b) != o: OUT[b] = o; ch = True
        n += len(acc)
        if ch: continue
        for e, (q, w) in sorted(bad.items()):
            r.bad("%s|%s|fixed" % (f.qn, f.text(e)), f.where(e), "'%s' is entry %d of an array made with %d" % (f.text(e), q, w))
    r.count("accesses to arrays made with a constant number of entries", n)


def run(P, r, tier):
    ghosttags(P, r); fixed(P, r)
    R = Run(P, r); nf = 0
    for f in sorted(P.funcs.values(), key=lambda z: z.id):
        if not f.blocks: continue
        nf += 1
        e = R.A.ext(f)
        R.accesses(e); R.allocations(e); R.own(e); R.contents(e); R.calls(e); R.ranges(e); R.tags(e); R.whole(e)
    r.need("functions", nf, 200)
    r.need("array accesses", R.na, 300)
    r.need("accesses with a known extent and a known bound", R.nd, 120)
    r.need("allocations of a graph's arrays", R.nal, 25)
    r.count("vector accesses", R.nv)
    r.count("counted calls", R.nc)
    r.count("indices that number vertices, ghosts or edges", R.nn); r.count("tags made", R.nt); r.count("arrays walked by a count", R.nw)
    r.count("stored traversal starts", R.nco)
    r.count("ranges over passed arrays", R.nr)
    r.count("accesses whose bound and extent cannot be compared", R.und)

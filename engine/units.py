"""Index spaces: which kind of number every expression is, and of which edge type.

Every local definition, array index, array element, parameter and result gets a term; uses unify terms.
Kinds:  VL vertex local id        VP vertex handle as a number (VL+1)   GI index among the ghosts
        VG vertex global id       EL edge local id    EG edge global id    ES slot in edge_list     PS slot in pin_list
        WS/XS slot in the vertex-edge-vertex / edge-vertex-edge lists      EH number decoded from an edge handle (EL or ES)
        T edge type   NT number of edge types   P part (process) id   V/E vertex/edge handle
        X:M X:MT X:C X:M1 T1  stages of a handle code (num_types*id, +type, +type+1, +1; type+1)
EL, EG, ES, PS, WS, XS, EH, T, E and the iterators carry the edge type they belong to."""
from agx import *
import phase as ph
import re


class Var:
    __slots__ = ("ref", "lit", "rig", "allow", "tag")
    def __init__(s, lit=None, rig=None, allow=None, tag=None): s.ref = None; s.lit = lit; s.rig = rig; s.allow = allow; s.tag = tag


class Con:
    __slots__ = ("n", "a", "tag")
    def __init__(s, n, *a, tag=None): s.n = n; s.a = a; s.tag = tag


TAU1 = {"EL", "EG", "ES", "PS", "WS", "XS", "EH", "T", "E", "EIt", "GIt", "WIt", "XIt"}    # one edge-type argument
STAGE = {"X:M", "X:MT", "X:C", "X:M1"}                                                # one base argument
CONT = {"Arr", "Map", "Set", "Pair", "It"}
NAMES = {"VL": "local vertex id", "VP": "vertex handle number (local id + 1)", "GI": "ghost index", "VG": "global vertex id", "EL": "local edge id", "EG": "global edge id",
         "ES": "position in the edge list", "PS": "position in the pin list", "WS": "position in the vertex-edge-vertex list", "XS": "position in the edge-vertex-edge list",
         "EH": "local edge id", "T": "edge type", "NT": "number of edge types", "P": "part id", "ST": "number of a set of edges", "SP": "position among the starting edges", "CN": "number in the partitioner's consecutive numbering", "V": "vertex", "E": "edge", "X:M": "num_types*id", "X:MT": "num_types*id+type", "X:C": "handle number (num_types*id+type+1)",
         "X:M1": "num_types*id+1 without the type", "T1": "type+1", "Arr": "array", "Map": "map", "Set": "set", "Pair": "pair", "It": "iterator", "EIt": "edge iterator", "GIt": "neighbour iterator",
         "WIt": "vertex-edge-vertex iterator", "XIt": "edge-vertex-edge iterator"}


def find(t):
    while isinstance(t, Var) and t.ref is not None: t = t.ref
    return t


VL, GI, VG, P_, V, NT, VP = "VL", "GI", "VG", "P", "V", "NT", "VP"


def mk(spec, tau):
    """term from a template: strings, ('EL',) for tau-carrying, ('Arr', i, e), '?' unknown, ('one', [...])"""
    if spec == "?": return Var()
    if isinstance(spec, str):
        if spec == "NLV": return Con("VL", tag="nlv")
        if spec in TAU1: return Con(spec, tau)
        return Con(spec)
    if spec[0] == "one": return Var(allow=[mk(x, tau) for x in spec[1]])
    return Con(spec[0], *[mk(x, tau) for x in spec[1:]])


NG = "agi::PNgraph::"
ELIST_I = ("one", ["ES", "EL", "EH"]); ELIST_E = ("one", ["VL", "EL", "EH"])
# fields: (per edge type?, template)
FIELDS = {
    NG + "num_types": (0, "NT"), NG + "num_local_verts": (0, "NLV"), NG + "num_ghost_verts": (0, "GI"),
    NG + "num_local_edges": (1, "EL"), NG + "num_local_pins": (1, "PS"), NG + "num_global_edges": (1, "?"), NG + "num_global_pins": (1, "?"),
    NG + "original_owners": (0, ("Arr", VL, P_)), NG + "local_weights": (0, ("Arr", VL, "?")), NG + "local_coords": (0, ("Arr", VL, "?")),
    NG + "edge_weights": (1, ("Arr", ELIST_I, "?")), NG + "degree_list": (1, ("Arr", VL, "ES")), NG + "edge_list": (1, ("Arr", ELIST_I, ELIST_E)),
    NG + "pin_degree_list": (1, ("Arr", "EL", "PS")), NG + "pin_list": (1, ("Arr", "PS", VL)), NG + "vtx_mapping": (0, ("Map", VG, VL)),
    NG + "local_unmap": (0, ("Arr", VL, VG)), NG + "ghost_unmap": (0, ("Arr", GI, VG)), NG + "owners": (0, ("Arr", GI, P_)),
    NG + "edge_mapping": (1, ("Map", "EG", "EL")), NG + "edge_unmap": (1, ("Arr", "EL", "EG")),
    NG + "vev_offsets": (1, ("Arr", VL, "WS")), NG + "vev_lists": (1, ("Arr", "WS", VL)), NG + "eve_offsets": (1, ("Arr", "EL", "XS")), NG + "eve_lists": (1, ("Arr", "XS", "EL")),
    "agi::EdgeIterator::num_types": (0, "NT"),
    "engpar::Inputs::seeds": (0, ("Arr", "?", "EL")), "engpar::Inputs::numSeeds": (0, "SP"), "engpar::Inputs::visited": (0, ("Arr", "EL", "?")), "engpar::Inputs::labels": (0, ("Arr", "EL", "ST")), "engpar::Inputs::parents": (0, ("Arr", "ST", "ST")), "engpar::Inputs::set_size": (0, ("Arr", "ST", "?")),
}
N = "agi::Ngraph::"
ANY = "?"
# functions of the graph interface: list of (parameter templates, result), chosen by the parameters' canonical types
API = {
    "agi::PNgraph::getVertex": [([VL], V)], "agi::PNgraph::getEdge": [(["EL", "T"], "E")],
    "agi::toPtr": None, "agi::fromPtr": [([V], VL)],
    N + "localID": [([V], VL), (["E"], "EH")], N + "globalID": [([V], VG), (["E"], "EG")], N + "findGID": [([VG], V)], N + "find": [([V], V)],
    N + "owner": [([V], P_)], N + "originalOwner": [([V], P_)], N + "isResidentOn": [(["E", P_], ANY)], N + "u": [(["EH", "T"], VL), (["E"], V)], N + "v": [(["E"], V)],
    N + "degree": [([V, "T"], ANY), (["E"], ANY)], N + "edges": [([V, "T"], "EIt")], N + "adjacent": [([V, "T"], "GIt")], N + "pins": [(["E"], ANY)],
    N + "vev_begin": [([V, "T"], "WIt")], N + "vev_end": [([V, "T"], "WIt")], N + "eve_begin": [(["E"], "XIt")], N + "eve_end": [(["E"], "XIt")],
    N + "create_vev_adjacency": [(["T", ANY], ANY)], N + "create_eve_adjacency": [(["T", ANY], ANY)],
    N + "edge": [(["GIt"], "E")], N + "numLocalVtxs": [([], "NLV")], N + "numGhostVtxs": [([], GI)], N + "numTotalVtxs": [([], VL)], N + "numEdgeTypes": [([], NT)],
    N + "numLocalEdges": [(["T"], "EL")], N + "numLocalPins": [(["T"], "PS")], N + "numGlobalEdges": [(["T"], ANY)], N + "numGlobalPins": [(["T"], ANY)],
    N + "setCoords": [([("Arr", VL, ANY)], ANY)], N + "setWeights": [([("Arr", VL, ANY)], ANY)], N + "changeOwners": [([("Arr", P_, P_)], ANY)], N + "repartition": [([("Arr", VL, P_)], ANY)],
    N + "setEdge": [(["EL", "EG", ANY, "T"], ANY)], N + "makeEdgeArray": [(["T", "EL"], ANY)], N + "removeEdges": [(["T"], ANY)], N + "addEdgeType": [([], "T")],
    N + "constructGhosts": [([("Map", ANY, P_)], ANY), ([ANY, ("Arr", ANY, ANY), ("Arr", ANY, P_)], ANY)], N + "setOriginalOwners": [([("Arr", VL, P_)], ANY)],
    N + "sendVertex": [([V, P_], ANY)], N + "sendCoord": [([V, P_], ANY)],
    "agi::Migration::has": [([V], ANY)], "agi::Migration::get": [([V], P_)], "agi::Migration::insert": [([("Pair", V, P_)], ANY)],
    "PCU_Comm_Self": [([], P_)], "PCU_Comm_Peers": [([], P_)], "PCU_Comm_Sender": [([], P_)], "PCU_Comm_From": [([ANY], ANY)], "PCU_Comm_Pack": [([P_, ANY, ANY], ANY)], "PCU_Comm_Write": [([P_, ANY, ANY], ANY)],
    "engpar::insertInteriorEdges": None,
    "ParMETIS_V3_PartKway": [([ANY, ("Arr", VL, ANY), ("Arr", ANY, "CN"), ("Arr", VL, ANY)] + [ANY] * 9 + [("Arr", VL, P_), ANY], ANY)],
}
# what parameters mean inside a function, whatever its callers number
BODY = {(N + "constructGhosts", 1): [("Map", VG, P_)], (N + "constructGhosts", 3): [ANY, ("Arr", ANY, VG), ("Arr", ANY, P_)]}
# what the partitioner's callbacks are given and fill in, by the kind they are registered under
CALLBACK = {"ZOLTAN_OBJ_LIST_FN_TYPE": {3: ("Arr", ANY, VG), 4: ("Arr", ANY, VL)}, "ZOLTAN_HG_CS_FN_TYPE": {5: ("Arr", ANY, VG), 7: ("Arr", ANY, "EG")},
            "ZOLTAN_HG_EDGE_WTS_FN_TYPE": {5: ("Arr", ANY, "EG")}, "ZOLTAN_NUM_EDGES_FN_TYPE": {4: ("Arr", ANY, VL)},
            "ZOLTAN_EDGE_LIST_FN_TYPE": {4: ("Arr", ANY, VL), 5: ("Arr", ANY, VG), 6: ("Arr", ANY, P_)}}
ITER = {"VertexIterator": V, "GhostIterator": V, "PinIterator": V, "GraphIterator": V, "VEVIterator": V}
HANDLE = {"agi::GraphVertex *": "V", "agi::GraphEdge *": "E", "agi::EdgeIterator *": "EIt", "agi::GraphIterator *": "GIt", "agi::VEVIterator *": "WIt", "agi::EVEIterator *": "XIt", "agi::VertexIterator *": "V", "agi::GhostIterator *": "V"}
INTS = {"int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "unsigned short"}
RED = {"PCU_Max_Int", "PCU_Min_Int", "PCU_Max_Long", "std::max", "std::min"}
PTRRE = re.compile(r"^(const )?(int|long|unsigned int|unsigned long) \*( const)?$")


class Units:
    def __init__(s, P):
        s.P = P; s.conf = []; s.sums = {}; s.nops = 0; s.nweb = 0; s.nkind = 0; s.nrig = 0
        s.funs = [f for f in P.funcs.values() if not f.file.startswith("pcu/")]
        s.info = {}; s.callt = {}; s.rec = {}; s.decoded = []

    # ------------------------------------------------------------ unification
    def clash(s, site, a, b, tau):
        if not tau and site[1] in s.defsite: s.joins.append((s.defsite[site[1]], (site, a, b, tau)))
        else: s.conf.append((site, a, b, tau))

    def joined(s):
        """a variable given numbers of two kinds on different paths is reported when it then selects an element or an entity"""
        f = s.f
        for w, c in s.joins:
            for e, d in s.rawuse.items():
                if s.root(d) != w: continue
                x = e
                while f.parent.get(x) is not None and f.nodes[f.parent[x]]["k"] in CASTS: x = f.parent[x]
                p = f.parent.get(x)
                if p is None: continue
                px = f.nodes[p]
                if px["k"] == "ArraySubscriptExpr" and px["c"][1] == x: base = px["c"][0]
                elif px["k"] == "CXXOperatorCallExpr" and px.get("n") == "operator[]" and f.args(px)[-1:] == [x]: base = f.obj(px)
                elif px["k"] in CALLS and x in f.args(px) and px.get("qn") in API: s.conf.append(c); break
                else: continue
                t = find(s.term.get(base, Var()))
                if isinstance(t, Con) and t.n in ("Arr", "Map") and isinstance(find(t.a[0]), Con) or isinstance(t, Con) and t.n.startswith("TT:"): s.conf.append(c); break

    def tname(s, t):
        t = find(t)
        if isinstance(t, Var): return "an unknown type"
        return t.n.split(":", 1)[1].split("#")[0] + (" (%s)" % t.tag if t.tag else "")

    def tunify(s, a, b, site):
        a, b = find(a), find(b)
        if a is b: return
        if isinstance(a, Var): a.ref = b; s.ch = True; return
        if isinstance(b, Var): b.ref = a; s.ch = True; return
        if a.n != b.n: s.clash(site, a, b, True)

    def bind(s, v, c, site):
        s.ch = True
        al = v.allow; v.ref = c
        if c.n == "T":
            if v.rig: s.tunify(c.a[0], Con("τ:" + v.rig), site)
            elif v.lit is not None: s.tunify(c.a[0], Con("τ:%s" % v.lit, tag=v.tag), site)
        if al is not None:
            for x in al:
                x = find(x)
                if isinstance(x, Con) and x.n == c.n:
                    s.unify(x, c, site, "full"); return
            s.clash(site, c, find(al[0]) if al else c, False)

    def compat(s, a, b):
        """kinds that may stand for each other without being the same constructor"""
        p = {a.n, b.n}
        return p in ({"EH", "EL"}, {"EH", "ES"}, {"EH", "EG"}, {"NT", "T"}, {"NT", "T1"})

    def taus(s, t):
        t = find(t)
        if isinstance(t, Var): return []
        if t.n in TAU1: return [t.a[0]]
        return [x for y in t.a for x in s.taus(y)]

    def fresh(s, t):
        """copy with new edge-type variables and without tags"""
        t = find(t)
        if isinstance(t, Var): return Var(allow=t.allow)
        if t.n in TAU1: return Con(t.n, Var())
        return Con(t.n, *[s.fresh(x) for x in t.a]) if t.a else Con(t.n)

    def unify(s, a, b, site, mode):
        """mode: full (kinds and edge types), weak (edge types only where fixed), none (kinds only).  False: both still unknown"""
        a, b = find(a), find(b)
        if a is b: return True
        av, bv = isinstance(a, Var), isinstance(b, Var)
        if av and bv:
            if mode != "full": return False
            if a.allow is not None and b.allow is not None:
                an = {find(x).n for x in a.allow if isinstance(find(x), Con)}
                keep = [x for x in b.allow if isinstance(find(x), Con) and find(x).n in an]
                if keep: b.allow = keep
            elif a.allow is not None: b.allow = a.allow
            if b.rig is None and b.lit is None: b.rig = a.rig; b.lit = a.lit
            elif a.rig and not b.rig: b.rig = a.rig
            a.ref = b; s.ch = True
            return True
        if av or bv:
            v, c = (a, b) if av else (b, a)
            if mode == "full": s.bind(v, c, site); return True
            n = s.fresh(c)
            if mode == "weak": s.later.append((a, b, site))
            s.bind(v, n, site); return True
        if a.n == b.n:
            if a.n in TAU1:
                if mode == "full": s.tunify(a.a[0], b.a[0], site)
                elif mode == "weak": s.later.append((a, b, site))
                return True
            m = "weak" if mode == "full" and a.n in CONT else mode
            ok = True
            for x, y in zip(a.a, b.a):
                if not s.unify(x, y, site, m): s.ops.append(("flow", x, y, m, site))
            return True
        if s.compat(a, b):
            ta, tb = s.taus(a), s.taus(b)
            if ta and tb:
                if mode == "full": s.tunify(ta[0], tb[0], site)
                elif mode == "weak": s.later.append((a, b, site))
            return True
        s.clash(site, a, b, False)
        return True

    # ------------------------------------------------------------ local definitions
    def webs(s, f):
        """DeclRefExpr use -> web, definition node -> web; scalars only"""
        vu = var_uses(f); par = {p["d"] for p in f.params}
        ok = set()
        for v, u in vu.items():
            info = f.vars.get(v)
            if info is None or info.get("glob"): continue
            ct = info["ct"]
            if not (ct in INTS or ct.replace("const ", "") in INTS or PTRRE.match(ct) or ct.endswith("*")): continue
            if any(k == "esc" for k, _, _ in u): continue
            ok.add(v)
        for p in f.params:
            if p["ct"] in INTS and p["d"] not in vu: ok.add(p["d"])
        defs = {}      # element node -> [(var, def id)]
        nd = 0; dn = {}
        for b in f.succ():
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]; v = None
                if x["k"] == "DeclStmt":
                    for d in x["decls"]:
                        if d["d"] in ok: defs.setdefault(e, []).append(d["d"])
                    continue
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and (x["op"] == "=" or x["k"][0] == "C"):
                    l = f.nodes[x["c"][0]]
                    if l["k"] == "DeclRefExpr": v = l["d"]
                if x["k"] == "UnaryOperator" and x["op"] in ("++", "--"):
                    l = f.nodes[x["c"][0]]
                    if l["k"] == "DeclRefExpr": v = l["d"]
                if v in ok: defs.setdefault(e, []).append(v)
        IN = defaultdict(lambda: defaultdict(set))
        for v in ok: IN[f.entry][v] = {("entry", v)}
        succ = f.succ(); wl = deque(rpo(f)); uf = {}
        def root(x):
            while uf.get(x, x) != x: x = uf[x]
            return x
        use = {}
        def run(b, rec):
            cur = {v: set(d) for v, d in IN[b].items()}
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]
                if rec and x["k"] == "DeclRefExpr" and x["d"] in ok:
                    ds = sorted(cur.get(x["d"], ()), key=str)
                    # a plain assignment target is no use
                    p = f.parent.get(e); px = f.nodes[p] if p is not None else None
                    if px is not None and px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == e: pass
                    elif ds:
                        r0 = root(ds[0])
                        for d in ds[1:]:
                            q = root(d)
                            if q != r0: uf[q] = r0
                        use[e] = ds[0]
                for v in defs.get(e, ()): cur[v] = {(e, v)}
            return cur
        while wl:
            b = wl.popleft(); o = run(b, False)
            for y in succ[b]:
                ch = False
                for v, d in o.items():
                    if not d <= IN[y][v]: IN[y][v] |= d; ch = True
                if ch: wl.append(y)
        for b in rpo(f): run(b, True)
        return ok, {e: root(d) for e, d in use.items()}, root, defs, use

    # ------------------------------------------------------------ one function
    def sig(s, f_or_decl_params, qn, tau, rets=None):
        """spec of an interface function as terms, or None"""
        alts = API.get(qn)
        if not alts: return None
        cts = [p["ct"] for p in f_or_decl_params]
        for ps, r in alts:
            if len(ps) > len(cts): continue
            if len(ps) != len(cts): continue
            good = True
            for p, ct in zip(ps, cts):
                h = HANDLE.get(ct)
                if isinstance(p, str) and p in ("V", "E", "GIt", "EIt") and h != p: good = False
                if isinstance(p, str) and p not in ("V", "E", "GIt", "EIt", "?") and h is not None: good = False
            if good: return [mk(p, tau) for p in ps], mk(r, tau)
        return None

    def record(s, x):
        """(variable, position) of a small local array only ever indexed by constants: its entries have kinds of their own"""
        f = s.f
        if s.recs is None:
            s.recs = {}; bad = set()
            for y in f.nodes:
                if not y or y["k"] != "ArraySubscriptExpr": continue
                z = f.nodes[f.strip(y["c"][0])]
                if z["k"] != "DeclRefExpr" or not z["d"].startswith("%"): continue
                m = re.search(r"^(?:const )?[\w ]+\[(\d+)\]$", z["ct"]); c = s.lit(y["c"][1])
                if not m or int(m.group(1)) > 8 or c is None: bad.add(z["d"]); continue
                s.recs.setdefault(z["d"], set()).add(str(c))
            for d in bad: s.recs.pop(d, None)
        z = f.nodes[f.strip(x["c"][0])]
        if z["k"] != "DeclRefExpr" or z["d"] not in s.recs: return None
        return (z["d"], str(s.lit(x["c"][1])))

    def callback(s, f):
        if not hasattr(s, "_cb"):
            s._cb = {}
            for g in s.P.funcs.values():
                for x in g.calls():
                    if x.get("n") != "Zoltan_Set_Fn": continue
                    A = g.args(x)
                    if len(A) < 3: continue
                    k = g.nodes[g.strip(A[1])].get("n"); fn = g.nodes[g.strip(A[2])]
                    if fn["k"] == "UnaryOperator": fn = g.nodes[g.strip(fn["c"][0])]
                    if k in CALLBACK and fn["k"] == "DeclRefExpr": s._cb[fn["d"]] = k
        k = s._cb.get(f.id)
        return [CALLBACK[k].get(n, ANY) for n in range(len(f.params))] if k else None

    def analyse(s, f):
        s.f = f; s.slots = {}; s.recs = None; s.ops = []; s.later = []; s.term = {}; s.ch = False; s.rigs = {}
        ok, use, root, defs, rawuse = s.webs(f)
        s.ok = ok; s.use = use; s.root = root; s.defs = defs
        s.wt = {}; s.vt = {}
        s.rawuse = rawuse
        ndef = defaultdict(set)
        for e, vs in defs.items():
            for v in vs: ndef[root((e, v))].add((e, v))
        par = {p["d"] for p in f.params}
        for v in par & ok: ndef[root(("entry", v))].add(("entry", v))
        s.ndef = ndef; s.joins = []; s.defsite = {}
        for r, ds in ndef.items():
            if len(ds) < 2: continue
            for e, v in ds:
                if e == "entry": continue
                s.defsite[e] = r
                if f.nodes[e]["k"] == "DeclStmt":
                    for d in f.nodes[e]["decls"]:
                        if d["d"] == v: s.defsite[d["init"]] = r
        s.ret = Var()
        sg = s.sig(f.params, f.qn, Con("τ:" + f.name + "'s type"))
        if not sg:
            bd = BODY.get((f.qn, len(f.params))) or s.callback(f)
            if bd: sg = [mk(z, Var() if f.id in getattr(s, "_cb", {}) else Con("τ:" + f.name + "'s type")) for z in bd], Var()
        elif (f.qn, len(f.params)) in BODY: sg = [mk(z, Con("τ:" + f.name + "'s type")) for z in BODY[f.qn, len(f.params)]], sg[1]
        s.ptm = []
        for n, p in enumerate(f.params):
            t = Var(rig="%s#%s" % (p["n"], f.name)) if p["ct"].replace("const ", "") in INTS else Var()
            if sg: t = sg[0][n]
            elif p["t"].endswith("etype"): t = Con("T", Con("τ:%s#%s" % (p["n"], f.name)))
            else:
                h = HANDLE.get(p["ct"].replace("const ", ""))
                if h: t = Con(h, Con("τ:type of %s#%s" % (p["n"], f.name))) if h in TAU1 else Con(h)
            s.ptm.append(t); s.vt[p["d"]] = t
        if sg: s.ret = sg[1]
        for v in par & ok: s.webterm(("entry", v))
        # evaluate everything reachable
        for b in rpo(f):
            for e in f.elems(b):
                if isinstance(e, int): s.ev(e)
                elif e.get("x") == "init" and e.get("d") in FIELDS and e.get("v", -1) >= 0:
                    pt, tm = FIELDS[e["d"]]
                    if not pt: s.flow(s.ev(e["v"]), mk(tm, Var()), "full", e["v"])
        s.solve(); s.joined()
        s.info[f.id] = (s.term, s.vt); s.rec[f.id] = s.slots
        s.sums[f.id] = (s.ptm, s.ret, f)

    def webterm(s, d):
        r = s.root(d)
        if r in s.wt: return s.wt[r]
        v = r[1]; info = s.f.vars[v]; ds = s.ndef.get(r, set()); s.nweb += 1
        if ("entry", v) in ds and v in s.vt:
            t = s.vt[v]
            if len(ds) > 1 and not HANDLE.get(info["ct"]):
                # a parameter that is also reassigned: its own web, kinds shared
                t2 = Var(rig="%s" % info["n"]); s.ops.append(("flow", t, t2, "full" if find(t).__class__ is Con and find(t).n == "T" else "none", (s.f, None, ""))); t = t2
        else:
            h = HANDLE.get(info["ct"].replace("const ", "").strip())
            if h: t = Con(h, Var()) if h in TAU1 else Con(h)
            elif len(ds) > 1: t = Var(rig=info["n"])
            else: t = Var()
            if info["t"].endswith("etype") and len(ds) > 1: t = Con("T", Con("τ:" + info["n"]))
        s.wt[r] = t
        return t

    def multi(s, d): return len(s.ndef.get(s.root(d), ())) > 1

    def varterm(s, v):
        if v not in s.vt:
            info = s.f.vars.get(v, {"ct": "", "t": ""})
            h = HANDLE.get(info["ct"].replace("const ", "").strip())
            if h: s.vt[v] = Con(h, Var()) if h in TAU1 else Con(h)
            else: s.vt[v] = Var()
        return s.vt[v]

    def flow(s, a, b, mode, i):
        s.ops.append(("flow", a, b, mode, (s.f, i, "")))

    def typed(s, x, t):
        h = HANDLE.get(x.get("ct", "").replace("const ", "").strip())
        if h:
            c = Con(h, Var()) if h in TAU1 else Con(h)
            if isinstance(find(t), Var) or find(t).n != h:
                s.ops.append(("cast", t, c, x["i"], (s.f, x["i"], ""))); return c
        return t

    def ev(s, i):
        if i is None or i < 0: return Var()
        if i in s.term: return s.term[i]
        s.term[i] = Var()
        t = s.ev1(i)
        t = s.typed(s.f.nodes[i], t)
        s.term[i] = t
        return t

    def lit(s, i):
        """constant value, seeing through casts"""
        x = s.f.nodes[i]
        y = s.f.nodes[s.f.strip(i)]
        if y["k"] in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr", "UnaryOperator", "BinaryOperator", "ParenExpr"): return y.get("cv")
        return None

    def ev1(s, i):
        f = s.f; x = f.nodes[i]; k = x["k"]
        if k in CASTS or k == "CXXDefaultArgExpr":
            if not x["c"]: return Var()
            return s.ev(x["c"][0])
        if k == "CXXConstructExpr" and len(x["c"]) == 1: return s.ev(x["c"][0])
        if k in ("IntegerLiteral",): return Var(lit=str(x.get("cv")))
        if k in ("BinaryOperator", "UnaryOperator") and s.lit(i) is not None: return Var(lit=str(x["cv"]))
        if k == "DeclRefExpr":
            d = x["d"]
            if x["dk"] == "EnumConstant": return Var()
            if d in s.ok:
                if i in s.rawuse: return s.webterm(s.rawuse[i])
                return Var()
            if d.startswith("%"): return s.varterm(d)
            return Var()
        if k == "MemberExpr":
            if x["d"] in FIELDS:
                pt, tm = FIELDS[x["d"]]
                if pt: return Con("TT:" + x["d"])
                return mk(tm, Var())
            if x["n"] in ("first", "second") and x["c"]:
                b = s.ev(x["c"][0]); r = Var()
                s.ops.append(("member", b, r, 0 if x["n"] == "first" else 1, (f, i, "")))
                return r
            if x["c"]: s.ev(x["c"][0])
            return Var()
        if k == "ArraySubscriptExpr":
            sl = s.record(x)
            if sl:
                s.ev(x["c"][0])
                return s.slots.setdefault(sl, Var())
            a, b = s.ev(x["c"][0]), s.ev(x["c"][1]); r = Var()
            s.ops.append(("sub", a, b, r, (f, i, ""))); return r
        if k == "UnaryOperator":
            a = s.ev(x["c"][0]); op = x["op"]
            if op in ("++", "--"):
                if (i in s.defs):
                    w = s.webterm((i, s.defs[i][0]))
                    s.ops.append(("inc", a, w, 1 if op == "++" else -1, (f, i, "")))
                    return a if x.get("post") else w
                return a
            if op == "*":
                r = Var(); s.ops.append(("deref", a, r, (f, i, ""))); return r
            if op in ("+",): return a
            if op == "&":
                # address of an array element: the array from there on
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "ArraySubscriptExpr": return s.ev(y["c"][0])
                if y["k"] == "CXXOperatorCallExpr" and y.get("n") == "operator[]": return s.ev(f.obj(y) if f.obj(y) is not None else y["c"][1])
                return Con("Ref", a) if False else Var()
            return Var()
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = x["op"]
            if op == "=":
                r = s.ev(x["c"][1]); y = f.nodes[x["c"][0]]
                z = f.nodes[f.strip(x["c"][1])]; chain = z["k"] == "BinaryOperator" and z["op"] == "="
                while z["k"] == "BinaryOperator" and z["op"] == "=": z = f.nodes[f.strip(z["c"][1])]
                null = z["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or s.lit(z["i"]) is not None
                if null and (chain or i not in s.defs):
                    # a constant says nothing about what either side holds
                    if i not in s.defs: s.ev(x["c"][0])
                    return Var(lit=str(z.get("cv"))) if z.get("cv") is not None else Var()
                if i in s.defs:
                    d = (i, s.defs[i][0]); w = s.webterm(d)
                    s.flow(r, w, "none" if s.multi(d) and not s.ishandle(w) else "full", i)
                    return w
                l = s.ev(x["c"][0])
                if y["k"] == "DeclRefExpr": s.flow(r, l, "weak", i)
                else: s.flow(r, l, "elem", i)
                return r
            if k == "CompoundAssignOperator":
                a, b = s.ev(x["c"][0]), s.ev(x["c"][1])
                if i in s.defs: r = s.webterm((i, s.defs[i][0]))
                else: r = Var()
                s.arith(op[:-1], a, b, r, x)
                if i not in s.defs: s.flow(r, a, "none", i)
                return r
            a, b = s.ev(x["c"][0]), s.ev(x["c"][1])
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if s.lit(x["c"][0]) is None and s.lit(x["c"][1]) is None: s.ops.append(("cmp", a, b, (f, i, "")))
                return Var()
            if op == ",": return b
            if op in ("&&", "||"): return Var()
            r = Var(); s.arith(op, a, b, r, x); return r
        if k == "ConditionalOperator":
            s.ev(x["c"][0]); r = Var()
            arms = [c for c in x["c"][1:] if s.lit(c) is None]
            if len(arms) == 2: s.ops.append(("alt", s.ev(arms[0]), s.ev(arms[1]), r, (f, i, "")))
            else:
                for c in arms: s.flow(s.ev(c), r, "none", i)
            return r
        if k == "DeclStmt":
            for d in x["decls"]:
                if d["init"] < 0: continue
                r = s.ev(d["init"])
                if d["d"] in s.ok and i in s.defs:
                    dd = (i, d["d"]); w = s.webterm(dd)
                    s.flow(r, w, "none" if s.multi(dd) and not s.ishandle(w) else "full", d["init"])
                else: s.flow(r, s.varterm(d["d"]), "weak", d["init"])
            return Var()
        if k == "ReturnStmt":
            if x["c"] and x["c"][0] >= 0 and s.lit(x["c"][0]) is None: s.flow(s.ev(x["c"][0]), s.ret, "full", i)
            return Var()
        if k == "CXXNewExpr":
            if x["arr"]:
                n = s.ev(x["sz"]); r = Con("Arr", Var(), Var())
                if s.lit(x["sz"]) is None: s.ops.append(("new", n, r.a[0], (f, i, "")))
                return r
            if x.get("init", -1) >= 0: return s.ev(x["init"]) if f.nodes[x["init"]]["k"] in ("CXXConstructExpr",) else Var()
            return Var()
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return s.call(x)
        for c in x["c"]: s.ev(c)
        return Var()

    def ishandle(s, t):
        t = find(t)
        return isinstance(t, Con) and t.n in ("V",)

    def arith(s, op, a, b, r, x):
        la, lb = s.lit(x["c"][0]), s.lit(x["c"][1])
        if x["k"] == "CompoundAssignOperator": la = None
        if op == "+":
            if lb is not None: s.ops.append(("inc", a, r, lb, (s.f, x["i"], ""))); return
            if la is not None: s.ops.append(("inc", b, r, la, (s.f, x["i"], ""))); return
        if op == "-" and lb is not None: s.ops.append(("inc", a, r, -lb, (s.f, x["i"], ""))); return
        if la is not None or (lb is not None and op != "-"):
            if op in ("*", "/", "%"): return
        s.ops.append(("ar", op, a, b, r, (s.f, x["i"], "")))

    # ------------------------------------------------------------ calls
    def call(s, x):
        f = s.f; i = x["i"]; args = f.args(x); qn = x.get("qn", ""); n = x.get("n", ""); o = f.obj(x)
        cls = x.get("cls") or ""
        at = [s.ev(a) for a in args]
        ot = s.ev(o) if o is not None else None
        if qn == "agi::toPtr" and at: return at[0]
        if qn in ("std::make_pair",) and len(at) == 2: return Con("Pair", at[0], at[1])
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if "std::pair" in cls or "pair<" in x.get("ct", ""):
                if len(at) == 2: return Con("Pair", at[0], at[1])
            if cls == "agi::EdgeIterator" and len(at) == 4:
                tau = Var()
                s.flow(at[0], Con("T", tau), "full", args[0]); s.flow(at[1], Con("NT"), "full", args[1]); s.flow(at[2], Var(allow=[Con("ES", tau), Con("EL", tau), Con("EH", tau)]), "full", args[2])
                return Con("EIt", tau)
            if cls == "agi::HyperEdgeIterator" and len(at) == 3:
                tau = Var()
                s.flow(at[0], Con("T", tau), "full", args[0]); s.flow(at[1], Con("NT"), "full", args[1]); s.flow(at[2], Con("EL", tau), "full", args[2])
                return Con("EIt", tau)
            if cls == "agi::GraphIterator" and len(at) == 2:
                tau = Var(); s.flow(at[0], Con("EIt", tau), "full", args[0]); return Con("GIt", tau)
            if cls.startswith("std::vector"):
                if at and f.nodes[args[0]].get("ct", "") in INTS: 
                    r = Con("Arr", Var(), Var())
                    if s.lit(args[0]) is None: s.ops.append(("new", at[0], r.a[0], (f, i, "")))
                    return r
            return Var()
        if qn == "Zoltan_LB_Partition" and len(args) == 14:
            for j, z in (5, VG), (6, VL), (7, P_), (8, P_), (10, VG), (11, VL), (12, P_), (13, P_):
                y = f.nodes[f.strip(args[j])]
                if y["k"] == "UnaryOperator" and y["op"] == "&": s.flow(s.ev(y["c"][0]), Con("Arr", Var(), Con(z)), "full", args[j])
            return Var()
        if cls.startswith("std::") or qn.startswith("std::"): return s.stdcall(x, n, cls, ot, at, args)
        if qn == "agi::Ngraph::iterate" and at:
            ct = x["ct"].replace("const ", "").strip()
            if HANDLE.get(ct) == "E":
                tau = Var(); y = f.nodes[f.strip(args[0])]
                s.flow(at[0], Con("XIt" if "EVE" in y.get("ct", "") else "EIt", tau), "full", i)
                return Con("E", tau)
            return Con("V")
        if qn == "agi::Ngraph::begin":
            if not at: return Var()
            tau = Var(); s.argflow(at[0], Con("T", tau), args[0], x); return Con("EIt", tau)
        if qn in RED and at: 
            r = Var()
            for a in at[:2]: s.flow(a, r, "none", i)
            return r
        if qn in ("memcpy", "std::memcpy", "memmove") and len(at) == 3:
            s.flow(at[0], at[1], "weak", i); return Var()
        tau = Var()
        prm = s.P.decls.get(x.get("fn"), [{}])[0].get("params") or []
        if not prm and API.get(qn) and len(API[qn]) == 1 and len(API[qn][0][0]) == len(args): prm = [{"ct": f.nodes[a]["ct"]} for a in args]
        sg = s.sig(prm, qn, tau) if prm or API.get(qn) else None
        if sg:
            for a, p, k in zip(args, sg[0], range(99)): s.argflow(at[k], p, a, x)
            if n in ("Pack", "PCU_Comm_Pack"): pass
            return sg[1]
        if cls == "agi::Info" and at:
            s.ops.append(("local", at[0], (f, args[0], ""))); return Var()
        if not s.targets(f, x): return Var()
        t = [z for z in s.targets(f, x) if z.id in s.sums and z.id != f.id]
        if n.startswith("construct"): return Var()       # whoever builds a graph chooses its ids
        if not t or len(t) > 3: return Var()
        rr = None
        for z in t:
            ptm, ret, g = s.sums[z.id]
            m = {}
            for k, a in enumerate(args):
                if k < len(ptm): s.argflow(at[k], s.inst(ptm[k], m), a, x)
            if rr is None: rr = s.inst(ret, m)
        s.callt[f.id, i] = t[0]
        return rr

    def argflow(s, a, p, i, x):
        """argument into parameter"""
        f = s.f
        lt = s.lit(i)
        if f.nodes[i]["k"] == "CXXDefaultArgExpr" and lt is not None:
            a = Var(lit="%s" % lt, tag="left to its default")
        s.flow(a, p, "full", i)

    def inst(s, t, m):
        t = find(t)
        if isinstance(t, Var):
            if id(t) not in m: m[id(t)] = (t, Var(allow=[s.inst(z, m) for z in t.allow] if t.allow else None))
            return m[id(t)][1]
        if t.n.startswith("τ:"):
            if ("#" in t.n) or t.n.endswith("'s type"):
                if t.n not in m: m[t.n] = Var()
                return m[t.n]
            if t.n[2:].lstrip("-").isdigit(): return t
            if t.n not in m: m[t.n] = Var()
            return m[t.n]
        return Con(t.n, *[s.inst(z, m) for z in t.a], tag=t.tag)

    def stdcall(s, x, n, cls, ot, at, args):
        f = s.f; i = x["i"]
        vec = cls.startswith("std::vector"); mp = "map<" in cls.split("<")[0] + "<" ; st = "set<" in cls.split("<")[0] + "<"
        if x.get("opcall") and n in ("operator->", "operator*") and (ot is not None or at):
            src = ot if ot is not None else at[0]; r = Var(); s.ops.append(("deref", src, r, (f, i, ""))); return r
        if x.get("opcall") and n in ("operator==", "operator!="):
            return Var()
        if x.get("opcall") and n in ("operator++", "operator--"): return ot if ot is not None else (at[0] if at else Var())
        if x.get("opcall") and n == "operator=" and ot is not None and at: s.flow(at[0], ot, "weak", i); return ot
        if ot is None: return Var()
        if vec:
            A = Con("Arr", Var(), Var()); s.flow(ot, A, "weak", i)
            if n in ("operator[]", "at") and at:
                r = Var(); s.ops.append(("sub", ot, at[0], r, (f, i, ""))); return r
            if n in ("push_back",) and at: s.flow(at[0], A.a[1], "elem", i); return Var()
            if n == "size": r = Var(); s.ops.append(("size", A.a[0], r, (f, i, ""))); return r
            if n in ("reserve",): return Var()
            if n in ("resize",) and at: s.ops.append(("new", at[0], A.a[0], (f, i, ""))); return Var()
            if n in ("begin", "end"): return Con("It", A.a[1])
            if n in ("back", "front"): return A.a[1]
            return Var()
        if mp:
            A = Con("Map", Var(), Var()); s.flow(ot, A, "weak", i)
            if n in ("operator[]", "at") and at: s.flow(at[0], A.a[0], "elem", i); return A.a[1]
            if n in ("find", "count", "erase") and at:
                if HANDLE.get(f.nodes[args[0]].get("ct", "")) or f.nodes[f.strip(args[0])].get("ct", "") in INTS or True:
                    if "iterator" not in f.nodes[args[0]].get("ct", ""): s.flow(at[0], A.a[0], "elem", i)
                return Con("It", Con("Pair", A.a[0], A.a[1])) if n == "find" else Var()
            if n in ("begin", "end"): return Con("It", Con("Pair", A.a[0], A.a[1]))
            if n == "insert" and at: s.flow(at[0], Con("Pair", A.a[0], A.a[1]), "elem", i); return Var()
            return Var()
        if st:
            A = Con("Set", Var()); s.flow(ot, A, "weak", i)
            if n in ("insert", "find", "count", "erase") and at:
                if "iterator" not in f.nodes[args[0]].get("ct", ""): s.flow(at[0], A.a[0], "elem", i)
                return Con("It", A.a[0]) if n == "find" else Var()
            if n in ("begin", "end"): return Con("It", A.a[0])
            return Var()
        return Var()

    # ------------------------------------------------------------ solving
    def solve(s):
        s.nops += len(s.ops); ops = s.ops
        for rnd in range(60):
            s.ch = False; s.ops = []; rest = []
            for op in ops:
                if not s.step(op): rest.append(op)
            ops = rest + s.ops
            if not s.ch and not s.ops: break
        # a type decoded from a number of unknown origin is some type of its own
        more = False
        for op in ops:
            if op[0] == "ar" and op[1] == "%" and isinstance(find(op[2]), Var) and isinstance(find(op[3]), Con) and find(op[3]).n == "NT":
                s.unify(op[4], Con("T", Con("τ:decoded type#%d" % op[5][1])), op[5], "full"); more = True
            if op[0] == "alt" and isinstance(find(op[3]), Var) and (isinstance(find(op[1]), Con) or isinstance(find(op[2]), Con)):
                for z in op[1:3]: s.ops.append(("flow", z, op[3], "none", op[4]))
                more = True
        if more:
            for rnd in range(20):
                s.ch = False; pend = ops + s.ops; s.ops = []; rest = []
                for op in pend:
                    if not s.step(op): rest.append(op)
                ops = rest + s.ops; s.ops = []
                if not s.ch and len(ops) == len(pend): break
        # edge types that were only weakly linked
        for rnd in range(10):
            s.ch = False
            for a, b, site in list(s.later):
                ta, tb = s.taus(a), s.taus(b)
                for x, y in zip(ta, tb):
                    x, y = find(x), find(y)
                    if isinstance(x, Con) and isinstance(y, Var): s.tunify(x, y, site)
            if not s.ch: break
            for op in ops: s.step(op)
        for a, b, site in s.later:
            for x, y in zip(s.taus(a), s.taus(b)):
                x, y = find(x), find(y)
                if isinstance(x, Con) and isinstance(y, Con) and x.n != y.n: s.clash(site, x, y, True)

    def step(s, op):
        """True: done"""
        k = op[0]
        if k == "flow":
            _, a, b, mode, site = op
            fa, fb = find(a), find(b)
            if isinstance(fa, Con) and fa.n.startswith("TT:") or isinstance(fb, Con) and fb.n.startswith("TT:"): return True
            if mode == "elem":
                # storing into a container or array: kinds flow, edge types only checked where both are fixed
                mode = "weak"
            return s.unify(a, b, site, mode)
        if k == "new":
            _, n, r, site = op
            n, r = find(n), find(r)
            if isinstance(n, Var): return False
            if isinstance(r, Var) and n.n == "EL":
                # a traditional graph has one list position per edge
                if r.allow is None: r.allow = [Con("EL", Var()), Con("ES", Var()), Con("EH", Var())]; s.ch = True
                return True
            if isinstance(r, Con) and n.n == "EL" and r.n in ("ES", "EH"): return True
            if isinstance(r, Con) and n.n in ("VP",): return True
            if n.n in STAGE or n.n == "NT" : return True
            return s.unify(n, r, site, "none")
        if k == "alt":
            # one of two values: of either kind until its use says which
            _, a, b, r, site = op
            a, b, r = find(a), find(b), find(r)
            if isinstance(r, Var) and isinstance(a, Con) and isinstance(b, Con) and a.n != b.n:
                if r.allow is None: r.allow = [s.fresh(a), s.fresh(b)]; s.ch = True
                return True
            if isinstance(r, Var) and (isinstance(a, Var) or isinstance(b, Var)): return False
            for z in (a, b): s.ops.append(("flow", z, r, "none", site))
            return True
        if k == "size":
            _, n, r, site = op
            if isinstance(find(n), Var): return False
            if isinstance(find(r), Con): return True        # two counts may agree
            return s.unify(n, r, site, "none")
        if k == "local":
            # a tag has one value per vertex, ghost or edge
            _, t, site = op
            t = find(t)
            if isinstance(t, Var): return False
            if t.n not in ("VL", "GI", "EL", "EH", "ES"): s.clash(site, t, Con("VL"), False)
            return True
        if k == "cast":
            _, t, c, i, site = op
            t = find(t)
            if isinstance(t, Var):
                fits = {"V": {"VP"}, "E": {"X:C"}}.get(c.n)
                if t.allow and fits and not any(z.n in fits or z.n in CONT or z.n == c.n for z in t.allow): s.clash(site, t.allow[0], c, False); return True
                return False
            s.cast(t, c, site); return True
        if k == "member":
            _, b, r, n, site = op
            b = find(b)
            if isinstance(b, Var): return False
            if b.n == "Pair": s.unify(b.a[n], r, site, "full")
            elif b.n == "It": s.ops.append(("member", b.a[0], r, n, site))
            return True
        if k == "deref":
            _, a, r, site = op
            a = find(a)
            if isinstance(a, Var): return False
            if a.n == "It": s.unify(a.a[0], r, site, "full")
            elif a.n == "Arr": s.unify(a.a[1], r, site, "full")
            return True
        if k == "sub":
            _, a, b, r, site = op[:5]
            a, fb = find(a), find(b)
            if isinstance(a, Var):
                if a.allow is not None: return True
                s.bind(a, Con("Arr", Var(), Var()), site); a = find(a)
            if a.n.startswith("TT:"):
                tau = Var(); s.unify(b, Con("T", tau), site, "full")
                tm = FIELDS[a.n[3:]][1]
                if s.f.cls == "agi::binGraph" and a.n.endswith("edge_list"): tm = ("Arr", "?", ("one", ["VL", "EL", "EH", "VG"]))    # holds global ids while it is being built
                s.unify(r, mk(tm, tau), site, "full"); return True
            if a.n != "Arr": return True
            if isinstance(fb, Con) and fb.n == "T" or isinstance(find(a.a[0]), Con) and find(a.a[0]).n == "T":
                s.unify(b, a.a[0], site, "none"); 
                if isinstance(find(b), Con):
                    s.ops.append(("famtau", r, find(b).a[0] if find(b).n == "T" else Var(), site))
                if not s.unify(r, a.a[1], site, "none"): s.ops.append(("flow", r, a.a[1], "none", site))
                return True
            if not isinstance(fb, Con) and not getattr(s, "_force", False):
                # postpone once: the index may turn out to be an edge type
                if len(op) == 5: s.ops.append(op + (1,)); return True
                if op[5] < 4: s.ops.append(op[:5] + (op[5] + 1,)); s.ch = True; return True
            lit = isinstance(fb, Var) and fb.lit is not None and fb.rig is None
            if not lit:
                if not s.unify(b, a.a[0], site, "none" if isinstance(fb, Var) and fb.rig else "full"): s.ops.append(("flow", b, a.a[0], "none", site))
            s.unify(r, a.a[1], site, "weakread") if False else s.elemread(r, a.a[1], site)
            return True
        if k == "tau2": return s.tau2(op[1], op[2], op[3])
        if k == "famtau":
            _, r, tau, site = op
            r = find(r)
            if isinstance(r, Var): return False
            for t in s.taus(r): s.tunify(t, tau, site)
            return not any(isinstance(find(z), Var) for z in r.a) if isinstance(r, Con) and r.n in CONT else True
        if k == "cmp":
            _, a, b, site = op
            a, b = find(a), find(b)
            if isinstance(a, Var) and isinstance(b, Var): return False
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Con) and p.n == "NT":
                    if isinstance(q, Var): s.bind(q, Con("T", Var()), site)
                    return True
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Con) and p.n == "V" and (q.n == "VP" if isinstance(q, Con) else q.allow is not None and any(z.n == "VP" for z in q.allow)):
                    if isinstance(q, Var): s.bind(q, Con("VP"), site)
                    return True
            if isinstance(a, Con) and isinstance(b, Con):
                if a.n in TAU1 and b.n == a.n and a.n in ("T", "E", "EIt", "GIt", "WIt", "XIt"): return True
                if {a.n, b.n} == {"VL", "VP"}: s.clash(site, a, b, False); return True
            s.unify(a, b, site, "full" if isinstance(a, Con) and isinstance(b, Con) or (isinstance(a, Con) and a.n != "T") or (isinstance(b, Con) and b.n != "T") else "none")
            return True
        if k == "inc":
            _, a, r, c, site = op
            fa, fr = find(a), find(r)
            if isinstance(fa, Var):
                if isinstance(fr, Con) and fr.n not in ("VL", "VP", "X:C", "X:M1", "X:MT", "T1") and abs(c) <= 1: s.unify(fa, fr, site, "full"); return True
                return False
            n = fa.n
            if c == -1 and n in ("V", "E", "WIt", "XIt"):
                z = {"V": "VL", "E": "EH", "WIt": "WS", "XIt": "XS"}[n]
                return s.unify(r, Con("VL") if n == "V" else Con("X:MT", Con(z, fa.a[0])), site, "full")
            if abs(c) == 1:
                if n == "VP" and c == -1: return s.unify(r, Con("VL"), site, "full")
                if n == "VL" and c == 1:
                    if isinstance(fr, Con): 
                        if fr.n not in ("VL", "VP"): s.clash(site, fa, fr, False)
                        return True
                    if fr.allow is None: fr.allow = [Con("VL"), Con("VP")]; s.ch = True
                    return True
                if n == "X:C" and c == -1: return s.unify(r, Con("X:MT", fa.a[0]), site, "full")
                if n == "X:MT" and c == 1: return s.unify(r, Con("X:C", fa.a[0]), site, "full")
                if n in ("X:C", "X:M1") and c == 1 or n == "X:MT" and c == -1: s.clash(site, fa, Con("X:MT", Var()), False); return True
                if n == "X:M" and c == 1: return s.unify(r, Con("X:M1", fa.a[0]), site, "full")
                if n == "T" and c == 1:
                    if isinstance(fr, Con): return True
                    if fr.rig is not None: return s.unify(r, s.fresh(fa), site, "none")
                    if fr.allow is None: fr.allow = [Con("T", Var()), Con("T1", fa.a[0])]; s.ch = True
                    return True
                if n == "NT" and c == -1 and isinstance(fr, Var) and fr.allow is None: return s.unify(r, Con("T", Con("τ:last")), site, "full")
                if n == "NT": return True
            if n in STAGE or n in CONT or n.startswith("TT:"): return True
            return s.unify(r, fa, site, "full" if n not in ("T",) else "none")
        if k == "ar":
            _, o, a, b, r, site = op
            return s.ar(o, find(a), find(b), r, site)
        return True

    def elemread(s, r, e, site):
        """an element read: its own edge type unless the array fixes it"""
        if not s.unify(e, r, site, "weak"): s.ops.append(("flow", e, r, "weak", site))
        fe, fr = find(e), find(r)
        if isinstance(fe, Var) and fe.allow and isinstance(fr, Var) and fr is not fe and fr.allow is None and fr.rig is None: fr.allow = [s.fresh(z) for z in fe.allow]; s.ch = True

    def ar(s, o, a, b, r, site):
        av, bv = isinstance(a, Var), isinstance(b, Var)
        an, bn = (None if av else a.n), (None if bv else b.n)
        def give(t): s.unify(r, t, site, "full"); return True
        if o == "+":
            for p, q, pn, qn in ((a, b, an, bn), (b, a, bn, an)):
                if pn in STAGE:
                    if qn is None and pn == "X:M" and q.allow is not None and any(z.n == "T1" for z in q.allow):
                        z = next(z for z in q.allow if z.n == "T1"); s.bind(q, Con("T1", z.a[0]), site); return False
                    if qn is None: return False
                    if qn == "NT": return give(p)
                    if pn == "X:M" and qn == "T": s.ops.append(("tau2", p, q, site)); return give(Con("X:MT", p.a[0]))
                    if pn == "X:M1" and qn == "T": s.ops.append(("tau2", p, q, site)); return give(Con("X:C", p.a[0]))
                    if pn == "X:M" and qn == "T1": s.ops.append(("tau2", p, q, site)); return give(Con("X:C", p.a[0]))
                    return True
            for p, q, pn, qn in ((a, b, an, bn), (b, a, bn, an)):
                if pn == "VL" and p.tag == "nlv":
                    if qn is None or qn == "GI": return give(Con("VL"))
                    return True
            if {an, bn} == {"NT", "T"} and r is not None:        # a whole step more: the type stays
                return give(Con("T", (a if an == "T" else b).a[0]))
            for p, q, pn, qn in ((a, b, an, bn), (b, a, bn, an)):
                if pn in ("ES", "PS", "WS", "XS", "EL", "EH", "P") and (qn is None or qn == pn): return give(p if pn == "P" or qn is None else p)
            return not (av and bv)
        if o == "-":
            if av: return False
            if bv: 
                return False
            if an == "VL" and bn == "VL" and b.tag == "nlv" and a.tag != "nlv": return give(Con("GI"))
            return True
        if o == "*":
            if an == "NT": return give(Con("X:M", b)) if bn not in ("NT",) else True
            if bn == "NT": return give(Con("X:M", a))
            return not (av and bv)
        if o in ("/", "%"):
            if bn == "NT":
                if av: return False
                if an == "X:MT" or (an == "X:M" and o == "/"):
                    if o == "/": return give(a.a[0])
                    t = s.taus(a)
                    if not t: t = [Var()]
                    s.decoded.append((t[0], site))
                    return give(Con("T", t[0]))
                if an in STAGE or an in ("V", "E", "EL", "VL", "VP", "GI", "EH"): s.clash(site, a, Con("X:MT", Var()), False)
                return True
            if o == "%" and an == "P" and bn in ("P", None): return give(a)
            return True
        return True

    def tau2(s, enc, t, site):
        ts = s.taus(enc)
        if ts: s.tunify(ts[0], t.a[0], site)
        return bool(ts)

    def cast(s, t, c, site):
        """a value with a term becomes a handle-typed pointer, or the other way round"""
        if t.n == c.n: s.unify(t, c, site, "full"); return
        if c.n == "V":
            if t.n in ("VP",): return
            s.clash(site, t, c, False); return
        if c.n in ("E", "WIt", "XIt"):
            base = {"E": ("EL", "ES", "EH"), "WIt": ("WS",), "XIt": ("XS",)}[c.n]
            if t.n == "X:C":
                b = find(t.a[0])
                if isinstance(b, Var): s.bind(b, Con("EH" if c.n == "E" else base[0], c.a[0]), site)
                elif b.n not in base: s.clash(site, b, Con(base[0], Var()), False)
                else: s.tunify(b.a[0], c.a[0], site)
                return
            if t.n in CONT: return
            s.clash(site, t, c, False); return
        if t.n in CONT: return


    def targets(s, f, x):
        """also functions handed over as parameters"""
        t = s.P.targets(f, x)
        if t or x.get("fn") or not x["c"]: return t
        if not hasattr(s, "_fp"):
            s._fp = defaultdict(set)
            for g in s.funs:
                for c in g.calls():
                    for z in s.P.targets(g, c):
                        for k, a in enumerate(g.args(c)):
                            y = g.nodes[g.strip(a)]
                            if y["k"] == "UnaryOperator" and y["op"] == "&": y = g.nodes[g.strip(y["c"][0])]
                            if y["k"] == "DeclRefExpr" and y["d"] in s.P.funcs and k < len(z.params): s._fp[z.params[k]["d"], z.id].add(y["d"])
        y = f.nodes[f.strip(x["c"][0])]
        while y["k"] == "UnaryOperator" and y["op"] == "*": y = f.nodes[f.strip(y["c"][0])]
        if y["k"] == "DeclRefExpr": return [s.P.funcs[z] for z in sorted(s._fp.get((y["d"], f.id), ()))]
        return []

    # ------------------------------------------------------------ driver
    def run(s):
        """callees before callers, so that a call uses what its callee was found to take and return"""
        funs = {f.id: f for f in s.funs}; idx = {}; low = {}; on = set(); st = []; order = []; n = [0]
        succ = {}
        for f in s.funs: succ[f.id] = sorted({t.id for x in f.calls() for t in s.targets(f, x) if t.id in funs})
        def dfs(v):
            idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
            for w in succ[v]:
                if w not in idx: dfs(w); low[v] = min(low[v], low[w])
                elif w in on: low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                while True:
                    w = st.pop(); on.discard(w); order.append(w)
                    if w == v: break
        for v in sorted(funs):
            if v not in idx: dfs(v)
        for v in order: s.analyse(funs[v])
        return s

    def show(s, t, d=0):
        t = find(t)
        if isinstance(t, Var):
            if t.allow: return "one of " + "/".join(s.show(z, d + 1) for z in t.allow)
            return "?"
        if t.n.startswith("τ:"): return s.tname(t)
        w = NAMES.get(t.n, t.n)
        if t.n in TAU1:
            y = find(t.a[0])
            return w if isinstance(y, Var) else "%s of type %s" % (w, s.tname(y))
        if t.n in CONT and d < 3: return "%s(%s)" % (w, ", ".join(s.show(z, d + 1) for z in t.a))
        return w

    # ------------------------------------------------------------ edge types in scope
    def etypes(s, f):
        """variables that stand for the edge type in use: [(name, blocks where they are in scope)]"""
        term, vt = s.info[f.id]; out = []; seen = set()
        lp = loops(f); bo = block_of(f)
        for p in f.params:           # a parameter declared as an edge type
            if p.get("n") and p.get("t", "").replace("const ", "") in ("etype", "agi::etype") and s.meant(f, p["d"]): seen.add(p["d"]); out.append((p["n"], None))
        for x in f.reach_nodes():
            if x["k"] == "MemberExpr" and s.optfield(x["d"]):
                if x["d"] not in seen and s.chooses(f, x["i"]): seen.add(x["d"]); out.append((f.text(x["i"]), None))
                continue
            if x["k"] != "DeclRefExpr" or not x["d"].startswith("%"): continue
            t = find(term.get(x["i"], Var()))
            if not (isinstance(t, Con) and t.n == "T"): continue
            a = find(t.a[0])
            if isinstance(a, Con) and (a.n[2:].lstrip("-").isdigit()): continue
            sel = s.chooses(f, x["i"])
            if sel and hasattr(s, "_sel") and x["d"] in {p["d"] for p in f.params}: s._sel.setdefault(f.id, set()).add(x["d"])
            if not sel or x["d"] in seen: continue
            seen.add(x["d"])
            if x["d"] in {p["d"] for p in f.params}:
                out.append((x["n"], None))
                continue
            d = single_def(f, x["d"])
            if d is not None and f.nodes[f.strip(d)]["k"] in CALLS: continue      # a type just made
            # the smallest loop holding every definition but the first, else the whole function
            ds = [n for k, _, n in var_uses(f).get(x["d"], []) if k in ("def", "mod")]
            bs = {bo.get(n) for n in ds if bo.get(n) is not None}
            best = None
            for h, body in lp.items():
                if any(b in body for b in bs) and (best is None or len(body) < len(best)): best = body
            out.append((x["n"], best))
        return out

    def meant(s, f, v):
        """a parameter declared as an edge type says which type the function works on; not if it also says which kind
        of thing is meant (compared with more than the vertices' number) or is only handed on to such functions"""
        if not hasattr(s, "_meant"): s._meant = {}
        if (f.id, v) in s._meant: return s._meant[f.id, v]
        s._meant[f.id, v] = False
        fw = []; used = False
        for x in f.reach_nodes():
            if x["k"] != "DeclRefExpr" or x["d"] != v: continue
            y = x["i"]
            while f.parent.get(y) is not None and f.nodes[f.parent[y]]["k"] in CASTS: y = f.parent[y]
            p = f.parent.get(y); px = f.nodes[p] if p is not None else None
            if px is None: continue
            if px["k"] == "BinaryOperator" and px["op"] in ("==", "!="):
                o = px["c"][1] if px["c"][0] == y else px["c"][0]
                c = f.nodes[f.strip(o)].get("cv")
                if c is None: c = f.nodes[o].get("cv")
                if c is not None and str(c) != "-1": return False
                used = True
            elif px["k"] in CALLS and y in f.args(px):
                g = s.callt.get((f.id, px["i"])); k = f.args(px).index(y)
                if g is not None and k < len(g.params): fw.append((g, k))
                else: used = True
            else: used = True
        r = True if used or not fw else any(s.meant(g, g.params[k]["d"]) for g, k in fw)
        s._meant[f.id, v] = r
        return r

    def optfield(s, d):
        """a field of an options object that holds an edge type"""
        if not hasattr(s, "_opt"):
            s._opt = set()
            for q, rc in s.P.recs.items():
                if not (q == "engpar::Input" or q in s.P.derived.get("engpar::Input", ())): continue
                for fl in rc["fields"]:
                    if fl["t"].replace("agi::", "") == "etype" or fl["ct"] == "int" and fl["n"].endswith("edge_type"): s._opt.add(fl["d"] if "d" in fl else q + "::" + fl["n"])
        return d in s._opt

    def chooses(s, f, i):
        """where a value selects: index of a per-type field, or type argument of the interface"""
        term, vt = s.info[f.id]
        y = i
        while f.parent.get(y) is not None and f.nodes[f.parent[y]]["k"] in CASTS: y = f.parent[y]
        p = f.parent.get(y); px = f.nodes[p] if p is not None else None
        if px is None: return False
        if px["k"] == "ArraySubscriptExpr" and px["c"][1] == y:
            b = find(term.get(px["c"][0], Var())); return isinstance(b, Con) and b.n.startswith("TT:")
        if px["k"] in CALLS and y in f.args(px): return px.get("qn") in API or s.selects(s.callt.get((f.id, px["i"])), f.args(px).index(y))
        if px["k"] == "BinaryOperator" and px["op"] in ("<", "!="):
            o = px["c"][1] if px["c"][0] == y else px["c"][0]; b = find(term.get(o, Var())); return isinstance(b, Con) and b.n == "NT"
        return False

    def selects(s, g, k):
        """the callee uses its k-th parameter to select an edge type's data"""
        if g is None or k >= len(g.params): return False
        if not hasattr(s, "_sel"): s._sel = {}
        if g.id not in s._sel:
            s._sel[g.id] = set()
            s.etypes(g)
        return g.params[k]["d"] in s._sel[g.id]

    def defaulted(s, f, x):
        """interface calls that leave their edge type to its default: the argument nodes"""
        ps = s.P.decls.get(x.get("fn"), [{}])[0].get("params") or []
        return [a for k, a in enumerate(f.args(x)) if k < len(ps) and ps[k]["t"].endswith("etype") and f.nodes[a]["k"] == "CXXDefaultArgExpr"]

    def typeargs(s, f, x):
        """arguments of a call that say which edge type is meant"""
        out = []
        args = f.args(x)
        if x.get("qn") == "agi::Ngraph::begin": return args[:1]
        z = s.callt.get((f.id, x["i"]))
        if z is not None and z.id in s.sums: ps = s.sums[z.id][0]
        else:
            prm = s.P.decls.get(x.get("fn"), [{}])[0].get("params") or []
            sg = s.sig(prm, x.get("qn", ""), Var())
            if not sg: return []
            ps = sg[0]
        for k, a in enumerate(args):
            if k < len(ps):
                q = find(ps[k])
                if isinstance(q, Con) and q.n == "T": out.append(a)
        return out

"""Which values may differ between the processes of a communicator, and which control flow depends on them.

Labels: "T" varies by process; ("p", n) as parameter n of the function; "c" as the control flow that led to the call.
A location is a local ("%x#1"), a field ("F:class::name") or a global ("G:name")."""
from agx import *
import phase as ph

NONE = frozenset()
T = frozenset({"T"})
VARY = {"PCU_Comm_Self", "PCU_Proc_Self", "PCU_Thrd_Self", "PCU_Comm_Receive", "PCU_Comm_Listen", "PCU_Comm_Read", "PCU_Comm_Sender", "PCU_Comm_From", "PCU_Comm_Unpacked",
        "PCU_Comm_Received", "PCU_Time", "MPI_Wtime", "PCU_Exscan_Int", "PCU_Exscan_Long", "PCU_GetMem", "rand", "time", "clock", "EnGPar_Track_Memory", "EnGPar_Peak_Memory"}
UNIF = {"PCU_Comm_Peers", "PCU_Proc_Peers", "PCU_Get_Comm", "PCU_Add_Double", "PCU_Add_Int", "PCU_Add_Long", "PCU_Add_SizeT", "PCU_Min_Double", "PCU_Min_Int", "PCU_Min_SizeT", "PCU_Max_Double",
        "PCU_Max_Int", "PCU_Max_Long", "PCU_Max_SizeT", "PCU_Or", "PCU_And", "PCU_Comm_Initialized"}
RED = {"PCU_Add_Doubles", "PCU_Add_Ints", "PCU_Add_Longs", "PCU_Add_SizeTs", "PCU_Min_Doubles", "PCU_Min_Ints", "PCU_Min_SizeTs", "PCU_Max_Doubles", "PCU_Max_Ints", "PCU_Max_SizeTs", "PCU_Max_Longs"}
SCAN = {"PCU_Exscan_Ints", "PCU_Exscan_Longs"}
MPIOUT = {"MPI_Allreduce": (1, NONE), "MPI_Allgather": (3, NONE), "MPI_Bcast": (0, NONE), "MPI_Reduce": (1, T), "MPI_Gather": (3, T), "MPI_Scan": (1, T), "MPI_Exscan": (1, T),
          "MPI_Alltoall": (3, T), "MPI_Alltoallv": (4, T), "MPI_Recv": (0, T), "MPI_Comm_rank": (1, T), "MPI_Comm_size": (1, NONE)}
EXTCOLL = {"ParMETIS_V3_PartKway", "Zoltan::LB_Partition", "Zoltan_LB_Partition"}
POINTS = ph.BEGIN | ph.SEND | ph.PCU_COLL | ph.MPI_COLL | EXTCOLL
GROWS = {"push_back", "insert", "emplace", "emplace_back", "push_front", "push", "erase", "clear", "resize", "assign", "swap", "pop_back", "pop_front", "pop", "reserve"}


class Uni:
    # fields that are equal on all processes by the contract of the class
    CONTRACT = {"agi::PNgraph::num_types", "agi::PNgraph::isHyperGraph"}
    # a flag that tells the members of a smaller communicator apart
    MEMBER = {"engpar::SplitInput::isOriginal"}

    def __init__(s, P):
        s.P = P; s.F = defaultdict(frozenset); s.why = {}
        s.sum = {}          # fid -> (ret labels, {param n: labels}, {field: labels})
        s.ctrl = {}         # fid -> {block: labels}
        s.cond = {}         # fid -> {block: labels of its condition}
        s.funs = [f for f in P.funcs.values() if not f.file.startswith("pcu/")]
        s.callers = defaultdict(set); s.nev = 0
        for f in s.funs:
            for x in f.calls():
                for t in P.targets(f, x): s.callers[t.id].add(f.id)
        s.coll = s.collective()
        s.cd = {}; s.calls = {}

    def collective(s):
        out = set()
        for f in s.funs:
            if any(x.get("qn") in POINTS for x in f.calls()): out.add(f.id)
        st = list(out)
        while st:
            a = st.pop()
            for c in s.callers[a]:
                if c not in out: out.add(c); st.append(c)
        return out

    def icd(s, f):
        """iterated control dependence; paths that only abort (assert, exit, throw) do not count"""
        if f.id in s.cd: return s.cd[f.id]
        succ = f.succ(); good = {f.exit}; pr = f.pred()
        thr = {b for b in succ if any(isinstance(e, int) and f.nodes[e]["k"] == "CXXThrowExpr" for e in f.elems(b))}
        st = [f.exit]
        while st:
            b = st.pop()
            for p in pr[b]:
                if p not in good and p not in thr: good.add(p); st.append(p)
        sc = {b: [y for y in v if y in good] for b, v in succ.items() if b in good}
        pd = {b: set(sc) for b in sc}; pd[f.exit] = {f.exit}
        order = [b for b in rpo(f)[::-1] if b in sc]; ch = True
        while ch:
            ch = False
            for b in order:
                if b == f.exit: continue
                ns = set.intersection(*[pd[y] for y in sc[b]]) | {b} if sc[b] else {b}
                if ns != pd[b]: pd[b] = ns; ch = True
        cd = defaultdict(set)
        for a, ss in sc.items():
            if len(set(ss)) < 2: continue
            for y in ss:
                for z in pd[y]:
                    if z not in pd[a] or z == a: cd[z].add(a)
        out = {}
        for b in sc:
            seen = set(); st = list(cd[b])
            while st:
                a = st.pop()
                if a not in seen: seen.add(a); st += cd[a]
            out[b] = seen
        s.cd[f.id] = out
        return out

    # ---- locations
    def loc(s, f, i):
        """(location, exact) an lvalue or pointer expression denotes"""
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if k == "DeclRefExpr":
            if x["dk"] in ("Function", "EnumConstant", "CXXMethod"): return None, False
            return (x["d"] if x["d"].startswith("%") else "G:" + x["d"]), True
        if k == "MemberExpr":
            if x["dk"] != "Field" and not (x["dk"] == "Var"): return None, False
            cl = x["d"].rsplit("::", 1)[0]
            if cl in s.P.recs and s.P.recs[cl].get("repo", True): return "F:" + x["d"], True
            return (s.loc(f, x["c"][0])[0] if x["c"] else None), False
        if k == "ArraySubscriptExpr": return s.loc(f, x["c"][0])[0], False
        if k == "UnaryOperator":
            if x["op"] == "&": return s.loc(f, x["c"][0])
            if x["op"] == "*": return s.loc(f, x["c"][0])[0], False
            return s.loc(f, x["c"][0])[0], False
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if x["op"] in ("+", "-", "=", "+=", "-="): return s.loc(f, x["c"][0])[0], False
            return None, False
        if k in CALLS:
            o = f.obj(x)
            ts = s.P.targets(f, x)
            if o is not None and not ts: return s.loc(f, o)[0], False
            return None, False
        if k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr") and x["c"]: return s.loc(f, x["c"][0])
        return None, False

    def get(s, st, l):
        if l is None: return NONE
        if l in st: return st[l]
        if l[0] == "F": return s.F[l] if l[2:] not in s.CONTRACT else NONE
        if l[0] == "G": return s.F[l]
        return NONE

    def put(s, f, st, l, lab, strong):
        if l is None: return
        if l[2:] in s.CONTRACT: return
        st[l] = lab if strong else s.get(st, l) | lab
        if not strong:
            for m in s.alias(f).get(l, ()): st[m] = s.get(st, m) | lab

    def alias(s, f):
        """pointer/reference local -> locations it may stand for"""
        if hasattr(f, "_ual"): return f._ual
        al = defaultdict(set)
        def isp(t): return t.rstrip().endswith(("*", "&", "*const")) or "iterator" in t
        for x in f.nodes:
            if x is None: continue
            if x["k"] == "DeclStmt":
                for d in x["decls"]:
                    if d["init"] >= 0 and isp(d["ct"]):
                        l = s.loc(f, d["init"])[0]
                        if l and l != d["d"]: al[d["d"]].add(l)
            if x["k"] == "BinaryOperator" and x["op"] == "=":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr" and isp(y["ct"]):
                    l = s.loc(f, x["c"][1])[0]
                    if l and l != y["d"]: al[y["d"]].add(l)
        ch = True
        while ch:
            ch = False
            for v, ls in al.items():
                for l in list(ls):
                    n = al.get(l, set()) - ls - {v}
                    if n: ls |= n; ch = True
        f._ual = dict(al)
        return f._ual

    # ---- values
    def ev(s, f, i, st):
        if i is None or i < 0: return NONE
        x = f.nodes[i]; k = x["k"]; s.nev += 1
        if k in ("IntegerLiteral", "FloatingLiteral", "StringLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "CXXNullPtrLiteralExpr", "GNUNullExpr", "CXXThisExpr",
                 "UnaryExprOrTypeTraitExpr", "LambdaExpr"): return NONE
        if "cv" in x and k not in CALLS and k != "DeclRefExpr": return NONE
        if k == "DeclRefExpr":
            l, _ = s.loc(f, i); return s.get(st, l)
        if k == "MemberExpr":
            l, ex = s.loc(f, i)
            if ex: return s.get(st, l)
            return s.ev(f, x["c"][0], st) if x["c"] else NONE
        if k in CALLS: return st.get(("r", i), NONE)
        if k in ("CXXNewExpr",):
            return st.get(("r", i), NONE)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return st.get(("r", i), NONE)
        if k == "BinaryOperator" and x["op"] in (",", "="): return s.ev(f, x["c"][1], st)
        out = NONE
        for c in x["c"]:
            if c >= 0: out = out | s.ev(f, c, st)
        return out

    # ---- one function
    def vtype(s, p):
        """may a parameter of a public entry point differ between processes (by its type)?"""
        t, ct = p["t"], p["ct"]
        if "char" in ct: return False
        if ct.rstrip().endswith(("*", "&", "]", "*const")):
            b = ct.replace("const", "").rstrip("*& ").strip()
            if "(" in ct: return False
            return b.split("<")[0].strip().startswith("std::") or b in ("int", "long", "double", "float", "unsigned int", "unsigned long", "short") or "[" in b
        return "gid_t" in t or "lid_t" in t

    def run(s, f):
        succ = f.succ(); icd = s.icd(f); ctl = {b: NONE for b in succ}; conds = {b: NONE for b in succ}
        st0 = {}
        for n, p in enumerate(f.params): st0[p["d"]] = frozenset({("p", n)})
        calls = {}
        for _ in range(12):
            IN = {f.entry: dict(st0)}; wl = deque([f.entry]); outst = None; newc = {}
            ret = NONE; wr = {}
            n = 0
            while wl:
                b = wl.popleft(); st = dict(IN[b]); n += 1
                c = ctl[b] | {"c"}
                for e in f.elems(b):
                    if isinstance(e, int): s.node(f, f.nodes[e], st, c, calls)
                    elif e.get("x") == "init" and e.get("v", -1) >= 0:
                        l = "F:" + e["d"] if "::" in str(e.get("d")) else None
                        s.put(f, st, l, s.ev(f, e["v"], st) | ctl[b], True)
                if len(succ[b]) > 1:
                    cn = ph.cond_of(f, b); B = f.blocks[b]
                    cn = cn if cn is not None else B.get("cond")
                    v = s.ev(f, cn, st) if cn is not None else NONE
                    newc[b] = newc.get(b, NONE) | v
                if b == f.exit: outst = st
                for y in succ[b]:
                    if y not in IN: IN[y] = dict(st); wl.append(y); continue
                    ch = False; d = IN[y]
                    for l, v in st.items():
                        o = d.get(l)
                        if o is None:
                            o = s.get({}, l) if isinstance(l, str) and l[0] in "FG" and l not in d else NONE
                            d[l] = o | v; ch = True
                        elif not v <= o: d[l] = o | v; ch = True
                    for l in d:
                        if isinstance(l, str) and l[0] in "FG" and l not in st:
                            g = s.get({}, l)
                            if not g <= d[l]: d[l] = d[l] | g; ch = True
                    if ch and y not in wl: wl.append(y)
            c2 = {b: frozenset().union(*[newc.get(a, NONE) for a in icd.get(b, ())]) if icd.get(b) else NONE for b in succ}
            stable = c2 == ctl
            ctl = c2; conds = newc
            if stable: break
        s.ctrl[f.id] = ctl; s.cond[f.id] = conds; s.calls[f.id] = calls
        outst = outst if outst is not None else {}
        par = {}
        for n, p in enumerate(f.params):
            t = p["ct"].rstrip()
            if t.endswith(("*", "&", "]", "*const")) and p["d"] in outst: par[n] = outst[p["d"]]
        fld = {l: v for l, v in outst.items() if isinstance(l, str) and l[0] in "FG" and v}
        ret = outst.get("ret", NONE)
        return (ret, par, fld)

    def res(s, lab, argl, c):
        out = set()
        for a in lab:
            if a == "T": out.add("T")
            elif a == "c": out |= c
            elif isinstance(a, tuple): out |= argl[a[1]] if a[1] < len(argl) else NONE
        return frozenset(out)

    def node(s, f, x, st, c, calls):
        k = x["k"]; i = x["i"]
        cc = c - {"c"}
        if k == "DeclStmt":
            for d in x["decls"]:
                if d["init"] >= 0: st[d["d"]] = s.ev(f, d["init"], st) | (c if d.get("static") else NONE)
                else: st[d["d"]] = NONE
            return
        if k == "BinaryOperator" and x["op"] == "=":
            l, ex = s.loc(f, x["c"][0])
            y = f.nodes[f.strip(x["c"][0])]
            lab = s.ev(f, x["c"][1], st) | cc
            if l and l[0] in "FG": lab = lab | {"c"}
            if y["k"] == "ArraySubscriptExpr": lab = lab | s.ev(f, y["c"][1], st)
            s.put(f, st, l, lab, ex and y["k"] == "DeclRefExpr" or ex and y["k"] == "MemberExpr")
            return
        if k == "CompoundAssignOperator" or (k == "UnaryOperator" and x["op"] in ("++", "--")):
            l, ex = s.loc(f, x["c"][0])
            lab = cc
            for z in x["c"][1:]: lab = lab | s.ev(f, z, st)
            if l and l[0] in "FG": lab = lab | {"c"}
            s.put(f, st, l, lab, False); return
        if k == "ReturnStmt":
            st["ret"] = st.get("ret", NONE) | cc | (s.ev(f, x["c"][0], st) if x["c"] and x["c"][0] >= 0 else NONE); return
        if k == "CXXNewExpr":
            lab = NONE
            if not x.get("arr"):
                for z in x["c"]:
                    if z >= 0: lab = lab | s.ev(f, z, st)
            st[("r", i)] = lab; return
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): s.call(f, x, st, c, calls)

    def call(s, f, x, st, c, calls):
        i = x["i"]; q = x.get("qn", ""); n = x.get("n", ""); args = f.args(x); o = f.obj(x)
        argl = [s.ev(f, a, st) for a in args]; cc = c - {"c"}
        def setarg(k, lab, strong=True):
            l, ex = s.loc(f, args[k])
            if l is None: return
            y = f.nodes[f.strip(args[k])]
            s.put(f, st, l, lab | cc | ({"c"} if l[0] in "FG" else NONE), strong)
        if q in VARY: st[("r", i)] = T; return
        if q in UNIF: st[("r", i)] = NONE; return
        if q in RED:
            setarg(0, NONE); st[("r", i)] = NONE; return
        if q in SCAN:
            setarg(0, T); st[("r", i)] = NONE; return
        if q in MPIOUT:
            k, lab = MPIOUT[q]; setarg(k, lab); st[("r", i)] = NONE
            if q == "MPI_Comm_rank" : pass
            return
        if q == "PCU_Comm_Unpack": setarg(0, T, False); return
        if q.startswith("PCU_Comm_") or q.startswith("MPI_"): st[("r", i)] = NONE; return
        ts = [t for t in s.P.targets(f, x) if not t.file.startswith("pcu/")]
        if ts:
            calls[i] = (argl, c)
            ret = NONE
            for t in ts:
                if t.id not in s.sum: continue
                r, par, fld = s.sum[t.id]
                ret = ret | s.res(r, argl, cc)
                for k, lab in par.items():
                    if k >= len(args): continue
                    l, ex = s.loc(f, args[k])
                    if l is None: continue
                    v = s.res(lab, argl, cc) | (cc if not (lab <= {("p", k)}) else NONE)
                    if l[0] in "FG" and not (lab <= {("p", k)}) and "c" in c: v = v | {"c"}
                    if lab <= {("p", k)} and ("p", k) in lab: continue
                    s.put(f, st, l, v, len(ts) == 1 and ("p", k) not in lab)
                for l, lab in fld.items():
                    v = s.res(lab, argl, c)
                    if v: s.put(f, st, l, v, False)
            st[("r", i)] = ret
            return
        # outside the repository
        lab = frozenset().union(*argl) if argl else NONE
        if o is not None:
            ol = s.ev(f, o, st)
            l, _ = s.loc(f, o)
            const = x.get("const")
            if n in GROWS or (x.get("opcall") and n in ("operator=", "operator+=", "operator<<", "operator++", "operator--", "operator[]", "operator>>")):
                strong = n in ("clear", "operator=", "assign") and s.loc(f, o)[1]
                v = (lab if n != "reserve" else NONE) | cc
                if n == "operator[]": v = v if "map" in f.nodes[f.strip(o)]["ct"] else NONE
                if n in ("operator++", "operator--"): v = cc
                if l and l[0] in "FG" and v is not NONE: v = v | {"c"}
                if v or strong: s.put(f, st, l, v, strong)
                ol = ol | (v - {"c"})
            if x["k"] == "CXXMemberCallExpr" or x.get("opcall"): lab = lab | ol
        elif x.get("opcall") and args:
            # free operators: comparisons, arithmetic, << >>
            if n in ("operator++", "operator--", "operator+=", "operator<<", "operator>>", "operator="):
                l, ex = s.loc(f, args[0])
                if n != "operator<<": s.put(f, st, l, lab | cc, False)
        elif x["k"] in CALLS:
            # pointers and references handed to unknown code may receive anything derived from the other arguments
            for k, a in enumerate(args):
                y = f.nodes[a]
                t = y["ct"]
                if (t.rstrip().endswith("*") and "const" not in t) or (y.get("lv") and f.nodes[f.strip(a)]["k"] in ("DeclRefExpr", "MemberExpr") and n in ("swap", "sort", "getline")):
                    oth = frozenset().union(*[v for m, v in enumerate(argl) if m != k]) if len(argl) > 1 else NONE
                    if oth | cc: setarg(k, oth, False)
        st[("r", i)] = lab

    def solve(s):
        order = s.funs
        for f in order: s.sum[f.id] = (NONE, {}, {})
        deps = defaultdict(set)
        for rnd in range(30):
            ch = False
            work = order if rnd == 0 else [f for f in order if f.id in dirty]
            dirty = set()
            f0 = dict(s.F)
            for f in work:
                r = s.run(f)
                if r != s.sum[f.id]:
                    s.sum[f.id] = r; dirty |= s.callers[f.id] | {f.id}; ch = True
                root = not s.callers[f.id] or f.virt
                for l, lab in r[2].items():
                    v = "T" in lab
                    if root and not v:
                        v = any(isinstance(a, tuple) and s.vtype(f.params[a[1]]) for a in lab)
                    if v and not s.F[l] and l[2:] not in s.CONTRACT: s.F[l] = T; s.why[l] = f.qn; ch = True
            if any(s.F[l] != f0.get(l, NONE) for l in s.F): dirty = {f.id for f in order}
            if not ch and not dirty: break
        s.rounds = rnd + 1

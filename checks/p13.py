"""Reductions combine values of the type and with the operation they name, over all elements."""
import re
from agx import *
import phase as ph

MT = {"ompi_mpi_int": {"int"}, "ompi_mpi_double": {"double"}, "ompi_mpi_float": {"float"}, "ompi_mpi_long": {"long"}, "ompi_mpi_int64_t": {"long", "long long"},
      "ompi_mpi_int32_t": {"int"}, "ompi_mpi_unsigned_long": {"unsigned long"}, "ompi_mpi_uint64_t": {"unsigned long"}, "ompi_mpi_unsigned": {"unsigned int"},
      "ompi_mpi_byte": None, "ompi_mpi_char": {"char"}, "ompi_mpi_long_long_int": {"long long", "long"}, "ompi_mpi_c_bool": {"bool"}, "ompi_mpi_cxx_bool": {"bool"}}
OPS = {"ompi_mpi_op_max": "max", "ompi_mpi_op_min": "min", "ompi_mpi_op_sum": "add", "ompi_mpi_op_lor": "or", "ompi_mpi_op_land": "and"}
# call -> ((buffer, type) argument pairs, op argument)
MPI = {"MPI_Allreduce": (((0, 3), (1, 3)), 4), "MPI_Reduce": (((0, 3), (1, 3)), 4), "MPI_Allgather": (((0, 2), (3, 5)), None), "MPI_Alltoall": (((0, 2), (3, 5)), None),
       "MPI_Alltoallv": (((0, 3), (4, 7)), None), "MPI_Bcast": (((0, 2),), None), "MPI_Exscan": (((0, 3), (1, 3)), 4), "MPI_Scan": (((0, 3), (1, 3)), 4),
       "MPI_Gather": (((0, 2), (3, 5)), None), "MPI_Issend": (((0, 2),), None), "MPI_Recv": (((0, 2),), None), "MPI_Send": (((0, 2),), None), "MPI_Isend": (((0, 2),), None)}
MPI_OTHER = {"MPI_Comm_rank", "MPI_Comm_size", "MPI_Comm_dup", "MPI_Comm_free", "MPI_Test", "MPI_Iprobe", "MPI_Get_count", "MPI_Comm_f2c", "MPI_Init", "MPI_Finalize",
             "MPI_Initialized", "MPI_Wtime", "MPI_Comm_split", "MPI_Barrier", "MPI_Abort"}
NT = {"Doubles": "double", "Ints": "int", "Longs": "long", "SizeTs": "unsigned long", "doubles": "double", "ints": "int", "longs": "long", "sizets": "unsigned long"}


def pointee(f, i):
    """element type of the buffer argument (casts to void* removed), 'inplace' for MPI_IN_PLACE"""
    x = f.nodes[i]
    while x["k"] in CASTS and "void *" in x["ct"]:
        i = x["c"][0]; x = f.nodes[i]
    if x.get("cv") == 1 or (x["k"] in CASTS and x["c"] and f.nodes[f.strip(i)].get("cv") == 1): return "inplace"
    while x["k"] in CASTS and x.get("ck") == "ArrayToPointerDecay": break
    t = x["ct"].replace("const ", "").strip()
    m = re.match(r"(.*?)\s*\*(?:const)?$", t)
    if m: return m.group(1).strip()
    m = re.match(r"(.*?)\s*\[\d*\]$", t)
    if m: return m.group(1).strip()
    return None


CALLERS = {}


def handles(f, i, seen=()):
    """names of the MPI handle objects an expression may denote"""
    i = f.strip(i); x = f.nodes[i]
    if x["k"] == "UnaryOperator" and x["op"] == "&":
        y = f.nodes[f.strip(x["c"][0])]
        return {y.get("n")}
    if x["k"] == "DeclRefExpr":
        if not x["d"].startswith("%"): return {x["n"]}
        if x["d"] in seen: return set()
        out = set()
        n = next((k for k, p in enumerate(f.params) if p["d"] == x["d"]), None)
        if n is not None and CALLERS.get(f.id) and len(seen) < 6:        # handed over by the callers
            for g, c in CALLERS[f.id]:
                a = g.args(c)
                out |= handles(g, a[n], seen + (x["d"],)) if n < len(a) else {None}
            return out
        for k, v, at in var_uses(f).get(x["d"], []):
            if k == "def" and v is not None: out |= handles(f, v, seen + (x["d"],))
            elif k == "def": pass
            else: return {None}
        return out or {None}
    if x["k"] == "ConditionalOperator": return handles(f, x["c"][1], seen) | handles(f, x["c"][2], seen)
    return {None}


def const_reach(f):
    """blocks reachable when branches on compile-time constants (sizeof comparisons) go one way"""
    seen = {f.entry}; st = [f.entry]
    while st:
        b = st.pop(); su = f.succ()[b]; c = ph.cond_of(f, b)
        if c is not None and len(su) == 2:
            v = f.nodes[f.strip(c)].get("cv")
            if v is not None: su = [su[0] if v else su[1]]
        for y in su:
            if y not in seen: seen.add(y); st.append(y)
    return seen


class Merge:
    """what a merge function does to one element: 'add', 'min', 'max', 'assign'"""
    def __init__(s, P): s.P = P

    def op_of(s, f):
        if any(x.get("n") in ("memcpy", "memmove") for x in f.calls()): return "assign", None
        st = []
        for x in f.reach_nodes():
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"] in ("=", "+=", "-=", "*=", "|=", "&=", "^=") :
                l = f.nodes[f.strip(x["c"][0])]
                if l["k"] == "ArraySubscriptExpr" or (l["k"] == "UnaryOperator" and l["op"] == "*"): st.append(x)
        if len(st) != 1: return None, None
        x = st[0]; et = f.nodes[f.strip(x["c"][0])]["ct"]
        L = rkey(f, x["c"][0])
        if x["op"] == "+=": return "add", et
        if x["op"] != "=": return "op " + x["op"], et
        r = f.nodes[f.strip(x["c"][1])]
        if r["k"] == "BinaryOperator" and r["op"] == "+":
            return ("add" if L in (rkey(f, r["c"][0]), rkey(f, r["c"][1])) else "op +"), et
        if r["k"] == "ConditionalOperator":
            c = f.nodes[f.strip(r["c"][0])]; a, b = rkey(f, r["c"][1]), rkey(f, r["c"][2])
            if c["k"] == "BinaryOperator" and c["op"] in ("<", "<=", ">", ">="):
                p, q = rkey(f, c["c"][0]), rkey(f, c["c"][1])
                if {p, q} == {a, b} and p != q and L in (a, b):
                    less = c["op"] in ("<", "<=")
                    return ("min" if (p == a) == less else "max"), et
            return "op ?:", et
        if r["k"] in CALLS:
            n = r.get("n", "")
            if n in ("min", "fmin"): return "min", et
            if n in ("max", "fmax"): return "max", et
            for t in s.P.targets(f, r):
                o = s.helper(t)
                if o: return o, et
            return None, et
        # if (b < a) a = b
        b = block_of(f).get(x["i"]); R = rkey(f, x["c"][1])
        cd = control_deps(f)
        for c in cd.get(b, ()):
            n = ph.cond_of(f, c)
            if n is None: continue
            y = f.nodes[f.strip(n)]
            if y["k"] == "BinaryOperator" and y["op"] in ("<", "<=", ">", ">="):
                p, q = rkey(f, y["c"][0]), rkey(f, y["c"][1])
                if {p, q} == {L, R}:
                    less = y["op"] in ("<", "<="); taken = f.succ()[c][0]
                    on = b in set(postset(f, taken))
                    if not on: less = not less
                    return ("min" if (p == R) == less else "max"), et
        return "assign", et

    def helper(s, t):
        rs = [x for x in t.reach_nodes() if x["k"] == "ReturnStmt" and x["c"]]
        if len(rs) == 1:
            r = t.nodes[t.strip(rs[0]["c"][0])]
            if r["k"] == "ConditionalOperator":
                c = t.nodes[t.strip(r["c"][0])]
                if c["k"] == "BinaryOperator" and c["op"] in ("<", "<=", ">", ">="):
                    p, q = t.key(c["c"][0]), t.key(c["c"][1]); a, b = t.key(r["c"][1]), t.key(r["c"][2])
                    if {p, q} == {a, b}: return "min" if (p == a) == (c["op"] in ("<", "<=")) else "max"
            if r["k"] == "BinaryOperator" and r["op"] == "+": return "add"
        return None


def postset(f, b):
    seen = {b}; st = [b]
    while st:
        y = st.pop()
        pr = f.pred()
        for z in f.succ()[y]:
            if z not in seen and len(pr[z]) == 1: seen.add(z); st.append(z)
    return seen


def run(P, r, tier):
    nm = 0; M = Merge(P); R = Roles(P, r); CALLERS.clear(); CALLERS.update(R.callers)
    # 1. merge functions: pcu_{op}_{type}s
    mf = {}
    for q, fs in sorted(P.byname.items()):
        m = re.match(r"pcu_(add|min|max)_(\w+)$", q)
        if not m or m.group(2) not in NT: continue
        f = fs[0]; nm += 1; want = (m.group(1), NT[m.group(2)]); mf[f.id] = want
        op, et = M.op_of(f)
        if op is None: r.undecided(q, f.where(), "cannot see what this merge function computes"); continue
        if op != want[0]: r.bad(q + "|op", f.where(), "combines elements by %s, its name says %s" % (op, want[0]))
        if et is not None and et.replace("const ", "") != want[1]: r.bad(q + "|type", f.where(), "works on elements of type %s, its name says %s" % (et, want[1]))
        # element count: size / sizeof(element); the loop runs from 0 to it
        div = [x for x in f.reach_nodes() if x["k"] == "BinaryOperator" and x["op"] == "/"]
        for x in div:
            s = f.nodes[f.strip(x["c"][1])]
            if s["k"] == "UnaryExprOrTypeTraitExpr":
                if s["cat"] != want[1]: r.bad(q + "|count", f.where(x["i"]), "counts elements of type %s in an array of %s" % (s["cat"], want[1]))
        for n in loop_bounds(f):
            if n["start"] != 0 or n["op"] not in ("<", "!=") or n["step"] != 1: r.bad(q + "|loop", n["where"], "does not combine every element (starts at %s, continues while i %s n, step %s)" % (n["start"], n["op"], n["step"]))
    r.need("merge functions", nm, 7)
    # 2. the public array reductions: PCU_{Op}_{Type}s
    na = 0
    for q, fs in sorted(P.byname.items()):
        m = re.match(r"PCU_(Add|Min|Max|Exscan)_(\w+)$", q)
        if not m: continue
        f = fs[0]
        op = {"Add": "add", "Min": "min", "Max": "max", "Exscan": "add"}[m.group(1)]
        if m.group(2) in NT:
            na += 1; T = NT[m.group(2)]
            if f.params[0]["ct"].replace(" ", "") != (T + "*").replace(" ", ""): r.bad(q + "|type", f.where(), "takes %s, its name says %s" % (f.params[0]["ct"], T))
            cs = [x for x in f.calls() if x.get("qn") in ("pcu_allreduce", "pcu_scan", "pcu_reduce")]
            if len(cs) != 1:
                r.undecided(q, f.where(), "cannot see its reduction"); continue
            c = cs[0]; a = f.args(c)
            wantc = "pcu_scan" if m.group(1) == "Exscan" else "pcu_allreduce"
            if c["qn"] != wantc: r.bad(q + "|pattern", f.where(c["i"]), "is done by %s" % c["qn"])
            g = f.nodes[f.strip(a[1])]
            if g["k"] == "UnaryOperator": g = f.nodes[f.strip(g["c"][0])]
            fn = g.get("d") if g["k"] == "DeclRefExpr" else None
            got = mf.get(fn) or next((mf[k] for k in mf if P.funcs[k].name == g.get("n")), None)
            if got is None: r.bad(q + "|merge", f.where(c["i"]), "merges by %s, which is no element-wise merge" % g.get("n"))
            elif got != (op, T): r.bad(q + "|merge", f.where(c["i"]), "merges by %s of %s, its name says %s of %s" % (got + (op, T)))
            bl = f.nodes[f.strip(a[2])]
            if f.key(a[2]) != f.params[0]["d"]: r.bad(q + "|data", f.where(c["i"]), "does not reduce the array it is given")
            ks = rkey(f, a[3]); sz = {"double": 8, "long": 8, "int": 4, "unsigned long": 8}[T]; n = f.params[1]["d"]
            if ks not in ("(%s*%d)" % (n, sz), "(%d*%s)" % (sz, n)): r.bad(q + "|size", f.where(c["i"]), "reduces %s bytes of an array of n elements of %d bytes" % (f.text(a[3]), sz))
        else:
            # scalar form: one element through the array form of the same operation and type, result returned
            na += 1
            want = "PCU_%s_%ss" % (m.group(1), m.group(2))
            cs = [x for x in f.calls() if x.get("qn", "").startswith("PCU_") and x.get("qn") not in ("PCU_Comm_Initialized",)]
            if [x["qn"] for x in cs] != [want]: r.bad(q + "|delegate", f.where(), "reduces by %s instead of %s" % (",".join(x["qn"] for x in cs), want)); continue
            c = cs[0]; a = f.args(c)
            if f.nodes[f.strip(a[1])].get("cv") != 1: r.bad(q + "|delegate", f.where(c["i"]), "reduces %s elements of a single value" % f.text(a[1]))
            base = f.nodes[f.strip(a[0])]
            if base["k"] == "UnaryOperator" and base["op"] == "&": base = f.nodes[f.strip(base["c"][0])]
            v = base.get("d")
            rets = [x for x in f.reach_nodes() if x["k"] == "ReturnStmt"]
            for x in rets:
                y = f.nodes[f.strip(x["c"][0])]
                while y["k"] in ("ArraySubscriptExpr",) or (y["k"] == "UnaryOperator" and y["op"] == "*"):
                    if y["k"] == "ArraySubscriptExpr" and f.nodes[f.strip(y["c"][1])].get("cv") != 0: r.bad(q + "|result", f.where(x["i"]), "returns another element than the reduced one")
                    y = f.nodes[f.strip(y["c"][0])]
                if y.get("d") != v: r.bad(q + "|result", f.where(x["i"]), "does not return the reduced value")
            # the input reaches the buffer
            if not any(x["k"] == "DeclRefExpr" and x["d"] == f.params[0]["d"] for x in f.reach_nodes()): r.bad(q + "|input", f.where(), "ignores its argument")
            if f.params[0]["ct"] != f.cret: r.bad(q + "|type", f.where(), "takes %s and returns %s" % (f.params[0]["ct"], f.cret))
    for q, w in (("PCU_Or", "PCU_Max_Int"), ("PCU_And", "PCU_Min_Int")):
        f = P.need(q)[0]; cs = [x.get("qn") for x in f.calls()]
        if cs != [w]: r.bad(q + "|delegate", f.where(), "is computed by %s instead of %s" % (",".join(cs), w))
    r.need("PCU reduction entry points", na, 18)
    # exclusive scans subtract exactly their own contribution: p[i] -= copy[i], copy[i] = p[i] made before the scan
    for q in ("PCU_Exscan_Ints", "PCU_Exscan_Longs"):
        f = P.need(q)[0]; sub = [x for x in f.reach_nodes() if x["k"] == "CompoundAssignOperator" and x["op"] == "-="]
        b = block_of(f); scan = next(x for x in f.calls() if x.get("qn") == "pcu_scan")
        cp = [x for x in f.reach_nodes() if x["k"] == "BinaryOperator" and x["op"] == "=" and f.nodes[f.strip(x["c"][0])]["k"] == "ArraySubscriptExpr"
              and f.nodes[f.strip(x["c"][1])]["k"] == "ArraySubscriptExpr"]
        mem = [x for x in f.calls() if x.get("n") == "memcpy"]
        if len(sub) == 0 and not mem: r.undecided(q, f.where(), "cannot see how the scan is made exclusive"); continue
        for n in loop_bounds(f):
            if n["start"] != 0 or n["op"] not in ("<", "!=") or n["step"] != 1: r.bad(q + "|loop", n["where"], "does not treat every element")
        for x in sub:
            l, rr = f.nodes[f.strip(x["c"][0])], f.nodes[f.strip(x["c"][1])]
            if l["k"] == "ArraySubscriptExpr" and rr["k"] == "ArraySubscriptExpr":
                if f.key(l["c"][1]) != f.key(rr["c"][1]): r.bad(q + "|exclusive", f.where(x["i"]), "subtracts another element than its own")
        reach = reachable(f, b[scan["i"]])
        for x in cp:
            if b[x["i"]] in reach and b[x["i"]] != b[scan["i"]]: r.bad(q + "|exclusive", f.where(x["i"]), "copies the contributions after they were combined")
        for x in sub:
            if b[x["i"]] not in reach: r.bad(q + "|exclusive", f.where(x["i"]), "subtracts before the scan")
    # 3. raw MPI calls
    ncall = 0
    for f in sorted(P.funcs.values(), key=lambda z: z.id):
        for x in f.calls():
            q = x.get("qn", "")
            if not q.startswith("MPI_"): continue
            if q not in MPI:
                if q not in MPI_OTHER: r.bad("%s|%s|unknown" % (f.qn, q), f.where(x["i"]), "MPI routine %s is not covered by this analysis" % q)
                continue
            ncall += 1
            if block_of(f).get(x["i"]) not in const_reach(f): continue
            pairs, opi = MPI[q]; a = f.args(x)
            for bi, ti in pairs:
                el = pointee(f, a[bi])
                if el == "inplace": continue
                for h in handles(f, a[ti]):
                    if h not in MT: r.bad("%s|%s|datatype" % (f.qn, q), f.where(x["i"]), "cannot tell which MPI datatype is used (%s)" % h); continue
                    if MT[h] is None: continue
                    if el in ("char", "unsigned char", "void", None) and h in ("ompi_mpi_byte", "ompi_mpi_char"): continue
                    if el not in MT[h]:
                        r.bad("%s|%s|%s" % (f.qn, q, f.text(a[bi])), f.where(x["i"]), "buffer %s of %s is transferred as %s" % (f.text(a[bi]), el, h))
            if opi is not None:
                hs = handles(f, a[opi])
                for h in hs:
                    if h not in OPS: r.bad("%s|%s|op" % (f.qn, q), f.where(x["i"]), "cannot tell which operation is used (%s)" % h)
                    elif len(hs) == 1: named(r, f, x, a[1], OPS[h])
    r.need("raw MPI transfers", ncall, 15)
    # 4. results stored where the name says the opposite
    npc = 0
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        for x in f.calls():
            m = re.match(r"PCU_(Add|Min|Max)_", x.get("qn", ""))
            if not m: continue
            npc += 1
            p = x["i"]
            while p is not None and f.nodes[f.parent.get(p, -1)]["k"] in CASTS if f.parent.get(p) is not None else False: p = f.parent[p]
            px = f.nodes[f.parent[p]] if f.parent.get(p) is not None else None
            if px is not None and px["k"] == "BinaryOperator" and px["op"] == "=": named(r, f, x, px["c"][0], m.group(1).lower())
            if px is not None and px["k"] == "DeclStmt":
                for d in px["decls"]:
                    if d["init"] == p: nm2(r, f, x, d["n"], m.group(1).lower())
    r.need("PCU reductions in the library", npc, 20)
    R.main()
    r.need("element counts of reductions compared with their arrays", R.nlen, 4); r.need("labelled statistics", R.nlab, 8)
    r.explain = ("every reduction entry point, merge function and raw MPI transfer: element type and size of the buffer against the MPI datatype or merge function, operation against the name, "
                 "element count, delegation of scalar forms, exclusivity of scans; results named max/min against the operation that produced them")
    r.assume = ["MPI handles are Open MPI objects", "MPI itself is correct"]


LABEL = re.compile(r"<\s*((?:max|min|avg|imb|tot|total)(?:\s*,\s*(?:max|min|avg|imb|tot|total))+)\s*>")
ROLE = {"ompi_mpi_op_max": "max", "ompi_mpi_op_min": "min", "ompi_mpi_op_sum": "tot"}
WORD = {"max": "the maximum over all processes", "min": "the minimum over all processes", "tot": "the sum over all processes", "avg": "the average over all processes", "imb": "the maximum over the average"}


def lin(f, i, d=0):
    """linear form {atom: coefficient} of an integer expression; local variables with one value are replaced by it"""
    i = f.strip(i); x = f.nodes[i]; k = x["k"]
    if x.get("cv") is not None and isinstance(x["cv"], (int, float)): return {(): x["cv"]} if x["cv"] else {}
    if d < 12:
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            a, b = lin(f, x["c"][0], d + 1), lin(f, x["c"][1], d + 1); g = 1 if x["op"] == "+" else -1
            o = dict(a)
            for z, c in b.items(): o[z] = o.get(z, 0) + g * c
            return {z: c for z, c in o.items() if c}
        if k == "BinaryOperator" and x["op"] == "*":
            a, b = lin(f, x["c"][0], d + 1), lin(f, x["c"][1], d + 1)
            if set(a) <= {()}: a, b = b, a
            if set(b) <= {()}: return {z: c * b.get((), 0) for z, c in a.items() if b.get((), 0)}
        if k == "BinaryOperator" and x["op"] == "<<":
            b = f.nodes[f.strip(x["c"][1])].get("cv")
            if b is not None: return {z: c << b for z, c in lin(f, x["c"][0], d + 1).items()}
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            q = single_def(f, x["d"])
            if q is not None: return lin(f, q, d + 1)
    return {rkey(f, i): 1}


def const(f, i):
    x = f.nodes[f.strip(i)]
    return x["cv"] if x.get("cv") is not None else x.get("v") if x["k"] in ("FloatingLiteral", "IntegerLiteral") else None


class Roles:
    """what a local value is of the values of all processes: maximum, minimum, sum, average, imbalance; of which quantity, at which index"""
    def __init__(s, P, r):
        s.P = P; s.r = r; s.nlen = s.nlab = s.nspoken = 0; s.memo = {}
        s.callers = defaultdict(list)
        for f in P.funcs.values():
            for x in f.calls():
                for t in P.targets(f, x): s.callers[t.id].append((f, x))

    def reduced(s, f):
        """{variable: [(role, quantity)]} written by reductions into f's locals"""
        if f.id in s.memo: return s.memo[f.id]
        out = defaultdict(list); s.memo[f.id] = out
        for x in f.calls():
            q = x.get("qn", "")
            if q in ("MPI_Allreduce", "MPI_Reduce"):
                a = f.args(x); v = s.var(f, a[1])
                if v is not None: out[v].append((a[4], a[0]))
        return out

    def got(s, f, v, env):
        """what the reductions into a local make of it"""
        out = set()
        for o, b in s.reduced(f).get(v, ()):
            x = f.nodes[f.strip(o)]
            while x["k"] == "DeclRefExpr" and x["d"] in env:
                f2, o2, env2 = env[x["d"]]; x = f2.nodes[f2.strip(o2)]
                if not (x["k"] == "DeclRefExpr" and x["d"] in env2): hs = handles(f2, o2); break
                env = env2
            else: hs = handles(f, o)
            out.add((ROLE.get(next(iter(hs))) if len(hs) == 1 else None, s.quant(f, b, env)))
        return out

    def quant(s, f, i, env, d=0):
        """the local quantity an expression stands for"""
        v = s.var(f, i)
        if v is not None and d < 10:
            if v in env: return s.quant(*env[v], d + 1)
            q = single_def(f, v)
            if q is not None and not f.nodes[f.strip(q)]["k"] == "CXXNewExpr": return s.quant(f, q, env, d + 1)
        return (f.id, v or rkey(f, i))

    def var(s, f, i):
        x = f.nodes[f.strip(i)]
        if x["k"] == "UnaryOperator" and x["op"] == "&": x = f.nodes[f.strip(x["c"][0])]
        if x["k"] == "ArraySubscriptExpr" and f.nodes[f.strip(x["c"][1])].get("cv") == 0: x = f.nodes[f.strip(x["c"][0])]
        if x["k"] in CALLS and x.get("n") == "data": x = f.nodes[f.strip(f.obj(x))]
        if x["k"] == "CXXOperatorCallExpr" and x.get("n") == "operator[]": x = f.nodes[f.strip(x["c"][-2])]
        return x["d"] if x["k"] == "DeclRefExpr" and x["d"].startswith("%") else None

    def index(s, f, x):
        """(array variable, index node) of an element access"""
        if x["k"] == "ArraySubscriptExpr": b, i = x["c"][0], x["c"][1]
        elif x["k"] == "CXXOperatorCallExpr" and x.get("n") == "operator[]": b, i = x["c"][-2], x["c"][-1]
        else: return None
        y = f.nodes[f.strip(b)]
        return (y["d"], i) if y["k"] == "DeclRefExpr" and y["d"].startswith("%") else None

    def role(s, f, i, env, d=0):
        """(role, quantity, index) | ('div', text) for a quotient that is none of them | None"""
        if i is None or i < 0 or d > 15: return None
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            if x["d"] in env:
                g, j, e2 = env[x["d"]]; return s.role(g, j, e2, d + 1)
            rs = s.got(f, x["d"], env)
            if rs: return next(iter(rs)) + ((),) if len(rs) == 1 and next(iter(rs))[0] else None
            us = var_uses(f).get(x["d"], [])
            ds = [u for u in us if u[0] == "def" and u[1] is not None]
            if ds and not any(u[0] in ("mod", "esc") for u in us):
                out = {s.role(f, u[1], env, d + 1) for u in ds}
                return next(iter(out)) if len(out) == 1 else None
            return None
        ix = s.index(f, x)
        if ix:
            rs = s.got(f, ix[0], env); at = tuple(sorted((str(a), c) for a, c in lin(f, ix[1]).items()))
            if rs: return next(iter(rs)) + (at,) if len(rs) == 1 and next(iter(rs))[0] else None
            out = set()
            for y in f.reach_nodes():
                if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                    iy = s.index(f, f.nodes[f.strip(y["c"][0])])
                    if iy and iy[0] == ix[0]:
                        if y["op"] != "=": return None
                        v = s.role(f, y["c"][1], env, d + 1)
                        if v is None: return None
                        if v[0] == "div": out.add(v); continue
                        own = tuple(sorted((str(a), c) for a, c in lin(f, iy[1]).items()))
                        out.add((v[0], v[1]) + (at if v[2] == own else ("?",)))
            if len(out) == 1:
                v = next(iter(out)); return (v[0], v[1], at) if v[0] != "div" and v[2:] == at else v if v[0] == "div" else None
            return None
        if k in CALLS:
            m = re.match(r"PCU_(Max|Min|Add)_(\w+)$", x.get("qn", ""))
            if m and not m.group(2).endswith("s"): return ({"Max": "max", "Min": "min", "Add": "tot"}[m.group(1)], s.quant(f, f.args(x)[0], env), ())
            ts = s.P.targets(f, x)
            if len(ts) == 1 and len(ts[0].params) == len(f.args(x)):
                t = ts[0]; rs = [y for y in t.reach_nodes() if y["k"] == "ReturnStmt" and y.get("c")]
                if len(rs) == 1: return s.role(t, rs[0]["c"][0], {p["d"]: (f, a, env) for p, a in zip(t.params, f.args(x))}, d + 1)
            return None
        if k == "BinaryOperator" and x["op"] == "*":
            for a, b in ((0, 1), (1, 0)):
                if const(f, x["c"][b]) == 1: return s.role(f, x["c"][a], env, d + 1)
            return None
        if k == "BinaryOperator" and x["op"] == "/":
            a = s.role(f, x["c"][0], env, d + 1)
            if a is None or a[0] == "div": return a
            if a[0] == "tot":
                q = s.peers(f, x["c"][1], env)
                if q is True: return ("avg",) + a[1:]
                return ("div", "a sum divided by '%s', which is not the number of processes" % f.text(x["c"][1])[:40]) if q is False else None
            b = s.role(f, x["c"][1], env, d + 1)
            if b is None: return None
            if b[0] == "div": return b
            if a[0] == "max" and b[0] == "avg": return ("imb",) + a[1:] if a[1:] == b[1:] else ("div", "a maximum divided by the average of something else: '%s'" % f.text(i)[:50])
            return ("div", "'%s' divides %s by %s" % (f.text(i)[:40], WORD[a[0]], WORD[b[0]]))
        if k == "ConditionalOperator":
            a, b = s.role(f, x["c"][1], env, d + 1), s.role(f, x["c"][2], env, d + 1)
            return a if b is None else b if a is None else a if a == b else None
        return None

    def peers(s, f, i, env, d=0):
        """is it the number of processes: True, False, None (cannot tell)"""
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if d > 8: return None
        if k in CALLS:
            if x.get("qn") == "PCU_Comm_Peers": return True
            ts = s.P.targets(f, x); rs = set()
            for t in ts:
                for y in t.reach_nodes():
                    if y["k"] == "ReturnStmt" and y.get("c"): rs.add(s.peers(t, y["c"][0], {}, d + 1))
            return next(iter(rs)) if len(rs) == 1 else None
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            if x["d"] in env:
                g, j, e2 = env[x["d"]]; return s.peers(g, j, e2, d + 1)
            q = single_def(f, x["d"])
            if q is not None: return s.peers(f, q, env, d + 1)
            return None
        if k == "BinaryOperator" and x["op"] == "*":
            for a, b in ((0, 1), (1, 0)):
                if const(f, x["c"][b]) == 1: return s.peers(f, x["c"][a], env, d + 1)
        if k == "BinaryOperator" and x["op"] in ("+", "-", "*", "/"): return False
        if const(f, i) is not None: return False
        if k == "MemberExpr" and x.get("dk") == "Field":         # a field nothing sets from the number of processes
            def size(g, i, d=0):
                st = [i]
                while st:
                    y = g.nodes[st.pop()]
                    if y["k"] in CALLS and re.match(r"PCU_Comm_Peers$|PCU_Proc_Peers$|MPI_Comm_size$", y.get("qn", "")): return True
                    if y["k"] == "DeclRefExpr" and y["d"].startswith("%") and d < 4:
                        for u in var_uses(g).get(y["d"], []):
                            if u[0] == "esc" or u[1] is not None and u[0] in ("def", "mod") and size(g, u[1], d + 1): return True
                    st += [c for c in y["c"] if isinstance(c, int) and c >= 0]
                return False
            for g in s.P.funcs.values():
                for y in g.reach_nodes():
                    if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
                        z = g.nodes[g.strip(y["c"][0])]
                        if z["k"] == "MemberExpr" and z.get("d") == x["d"] and size(g, y["c"][1]): return None
            return False
        return None

    def alloc(s, f, v):
        """size expression (linear form) of a local array"""
        for q in f.vars.values() if isinstance(f.vars, dict) else f.vars:
            if q["d"] == v:
                m = re.match(r".*\[(\d+)\]$", q["ct"])
                if m: return {(): int(m.group(1))}
        us = var_uses(f).get(v, []); ds = [u for u in us if u[0] == "def" and u[1] is not None]
        if len(ds) == 1:
            x = f.nodes[f.strip(ds[0][1])]
            if x["k"] == "CXXNewExpr" and x.get("arr") and x.get("sz", -1) >= 0: return lin(f, x["sz"])
        for x in f.reach_nodes():
            if x["k"] == "DeclStmt":
                for q in x["decls"]:
                    if q["d"] == v and q["init"] >= 0:
                        y = f.nodes[f.strip(q["init"])]
                        if y["k"] == "CXXConstructExpr" and "vector" in y["ct"]:
                            a = [z for z in f.args(y) if f.nodes[z]["k"] != "CXXDefaultArgExpr"]
                            if a and "*" not in f.nodes[f.strip(a[0])]["ct"] and "vector" not in f.nodes[f.strip(a[0])]["ct"]: return lin(f, a[0])
        return None

    def main(s):
        P, r = s.P, s.r
        for f in sorted(P.funcs.values(), key=lambda z: z.id):
            if f.file.startswith("pcu/"): continue
            for x in f.calls():
                q = x.get("qn", ""); a = f.args(x); bufs = []
                if q in ("MPI_Allreduce", "MPI_Reduce"): bufs, n = (a[0], a[1]), a[2]
                elif re.match(r"PCU_(Add|Min|Max|Exscan)_\w+s$", q) and len(a) == 2: bufs, n = (a[0],), a[1]
                for b in bufs:
                    v = s.var(f, b)
                    if v is None: continue
                    al = s.alloc(f, v)
                    if al is None:
                        y = f.nodes[f.strip(b)]
                        if not (y["k"] == "UnaryOperator" and y["op"] == "&" and f.nodes[f.strip(y["c"][0])]["k"] == "DeclRefExpr"): continue
                        al = {(): 1}
                    c = lin(f, n); s.nlen += 1
                    df = {z: c.get(z, 0) - al.get(z, 0) for z in set(c) | set(al)}; df = {z: q for z, q in df.items() if q}
                    if df and (set(df) == {()} or len({q > 0 for q in df.values()}) == 1 and set(c) & set(al) - {()}):
                        r.bad("%s|%s|%s|count" % (f.qn, x["qn"], f.text(b)), f.where(x["i"]), "%s elements of %s are combined, it has %s" % (f.text(n), f.text(b), show(al)))
            # statistics presented under a name
            for x in f.calls():
                s.labels(f, x)
            for x in f.calls():
                if re.search(r"[Mm]essage|printf", x.get("n", "")): s.spoken(f, x)
            if re.match(r"(get)?_?(avg|average|mean)", f.name, re.I):
                for x in f.reach_nodes():
                    if x["k"] == "ReturnStmt" and x.get("c"):
                        v = s.role(f, x["c"][0], {})
                        if v is None: continue
                        s.nlab += 1
                        if v[0] != "avg": r.bad("%s|returned" % f.qn, f.where(x["i"]), "an average is returned as %s" % (v[1] if v[0] == "div" else WORD[v[0]]))
            if "imbalance" in f.name.lower():
                for x in f.reach_nodes():
                    if x["k"] == "ReturnStmt" and x.get("c"):
                        v = s.role(f, x["c"][0], {})
                        if v is None: continue
                        s.nlab += 1
                        if v[0] != "imb": r.bad("%s|returned" % f.qn, f.where(x["i"]), "an imbalance is returned as %s" % (v[1] if v[0] == "div" else WORD[v[0]]))

    def spoken(s, f, x):
        """a message that begins with 'max' or 'min', or prints a variable called so, prints what such a reduction made"""
        a = f.args(x); word = None
        for i in a:
            y = f.nodes[f.strip(i)]
            if y["k"] == "StringLiteral":
                t = y.get("v") if isinstance(y.get("v"), str) else f.text(i)
                m = re.match(r'\W*(max|min)(imum)?\b', t, re.I)
                if m and word is None: word = m.group(1).lower()
                continue
            y0 = y
            if y0["k"] == "ArraySubscriptExpr": y0 = f.nodes[f.strip(y0["c"][0])]
            w = word
            if y0["k"] == "DeclRefExpr" and y0["d"].startswith("%"):
                m = re.match(r"(max|min)[A-Z_]", y0["n"])
                if m: w = m.group(1)
            if w is None or y["k"] != "DeclRefExpr" and y["k"] not in CALLS and y["k"] != "ArraySubscriptExpr": continue
            s.nspoken += 1
            if s.touch(f, i, w.capitalize()) is False:
                s.r.bad("%s|%s|spoken" % (f.qn, f.text(i)[:40]), f.where(x["i"]), "'%s' is printed as a %simum and no such reduction over the processes went into it" % (f.text(i)[:40], w))

    def touch(s, f, i, kind, d=0, seen=()):
        """a reduction of the kind went into the value: True, False, None (cannot tell)"""
        if i is None or i < 0 or d > 12: return None
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if const(f, i) is not None or k in ("StringLiteral", "CXXBoolLiteralExpr"): return False
        if k in CALLS:
            q = x.get("qn", ""); m = re.match(r"PCU_(Max|Min|Add|Exscan)_", q)
            if m: return m.group(1) == kind
            if q.startswith("MPI_"): return None
            if q in ("PCU_Time", "PCU_Comm_Peers", "PCU_Comm_Self"): return False
            ts = s.P.targets(f, x)
            if not ts: return None
            return s.within(ts, kind, set())
        if k == "ArraySubscriptExpr": i = f.strip(x["c"][0]); x = f.nodes[i]; k = x["k"]
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            if any(p["d"] == x["d"] for p in f.params) or x["d"] in seen: return None
            rs = [False]; hit = False
            for y in f.calls():
                m = re.match(r"PCU_(Max|Min|Add|Exscan)_\w+s$|MPI_", y.get("qn", ""))
                if not m: continue
                if any(s.var(f, z) == x["d"] for z in f.args(y)):
                    if m.group(1) == kind: return True
                    if m.group(1) is None: return None
            for u in var_uses(f).get(x["d"], []):
                if u[0] == "esc": return None
                if u[0] in ("def", "mod") and u[1] is not None: rs.append(s.touch(f, u[1], kind, d + 1, seen + (x["d"],))); hit = True
            if "[" in x.get("ct", "") or "*" in x.get("ct", ""): return None
            if not hit: return None
            return True if True in rs else None if None in rs else False
        if k in ("BinaryOperator", "ConditionalOperator", "UnaryOperator", "CXXFunctionalCastExpr", "CStyleCastExpr"):
            rs = [s.touch(f, c, kind, d + 1, seen) for c in x["c"] if isinstance(c, int) and c >= 0]
            return True if True in rs else None if None in rs else False
        return None

    def within(s, ts, kind, seen):
        for t in ts:
            if t.id in seen: continue
            seen.add(t.id)
            for y in t.calls():
                q = y.get("qn", "")
                if q.startswith("PCU_%s_" % kind): return True
                if q in ("MPI_Allreduce", "MPI_Reduce", "MPI_Scan", "MPI_Exscan"): return None
                v = s.within(s.P.targets(t, y), kind, seen)
                if v is not False: return v
        return False

    def labels(s, f, x):
        a = f.args(x)
        for n, i in enumerate(a):
            y = f.nodes[f.strip(i)]
            t = y.get("v") if y["k"] == "StringLiteral" else None
            if t is None and y["k"] == "StringLiteral": t = f.text(i)
            if not isinstance(t, str): continue
            m = LABEL.search(t)
            if not m: continue
            labs = [w.strip() for w in m.group(1).split(",")]; labs = ["tot" if w == "total" else w for w in labs]
            before = len(re.findall(r"%(?!%)", t[:m.start()].replace("%%", ""))); after = len(re.findall(r"%", t[m.end():].replace("%%", "")))
            if after < len(labs): continue
            ar = a[n + 1 + before:n + 1 + before + len(labs)]
            if len(ar) < len(labs): continue
            envs = [{}]
            if s.params(f, ar):
                envs = []
                for g, c in s.callers[f.id][:20]:
                    ca = g.args(c)
                    if len(ca) == len(f.params): envs.append({p["d"]: (g, z, {}) for p, z in zip(f.params, ca)})
            for env in envs: s.judge(f, x, labs, ar, env)

    def params(s, f, ar):
        ps = {p["d"] for p in f.params}
        for i in ar:
            st = [i]
            while st:
                y = f.nodes[st.pop()]
                if y["k"] == "DeclRefExpr" and y["d"] in ps: return True
                st += [c for c in y["c"] if isinstance(c, int) and c >= 0]
        return False

    def judge(s, f, x, labs, ar, env):
        first = None
        for w, i in zip(labs, ar):
            v = s.role(f, i, env)
            if v is None: continue
            s.nlab += 1
            if v[0] != w:
                s.r.bad("%s|%s|%s" % (f.qn, w, f.text(i)[:40]), f.where(x["i"]), "what is printed as '%s' is %s" % (w, v[1] if v[0] == "div" else WORD[v[0]])); continue
            if first is None: first = (v, w)
            elif first[0][1:] != v[1:]:
                s.r.bad("%s|%s|%s" % (f.qn, w, f.text(i)[:40]), f.where(x["i"]), "'%s' and '%s' of one line are of different values: '%s'" % (first[1], w, f.text(i)[:40]))


def show(l): return "+".join((str(c) if z == () else (str(c) + "*" if c != 1 else "") + str(z)) for z, c in sorted(l.items(), key=str)) or "0"


def named(r, f, x, i, op):
    i = f.strip(i); y = f.nodes[i]
    if y["k"] == "UnaryOperator" and y["op"] == "&": y = f.nodes[f.strip(y["c"][0])]
    if y.get("n"): nm2(r, f, x, y["n"], op)


def nm2(r, f, x, n, op):
    l = n.lower()
    for w, bad in (("max", ("min", "add")), ("min", ("max", "add")), ("total", ("min", "max")), ("sum", ("min", "max"))):
        if l == w or (w in ("max", "min") and (l.startswith(w) or l.endswith(w))):
            if op in bad: r.bad("%s|%s|named" % (f.qn, n), f.where(x["i"]), "%s receives the %s over all processes" % (n, {"add": "sum"}.get(op, op)))


def reachable(f, b):
    seen = set(); st = list(f.succ()[b])
    while st:
        y = st.pop()
        if y not in seen: seen.add(y); st += f.succ()[y]
    return seen


def loop_bounds(f):
    """counting loops: start value, comparison, step"""
    out = []
    for h, body in loops(f).items():
        c = ph.cond_of(f, h)
        if c is None: continue
        x = f.nodes[f.strip(c)]
        if x["k"] != "BinaryOperator" or x["op"] not in ("<", "<=", ">", ">=", "!="): continue
        v = f.nodes[f.strip(x["c"][0])]
        if v["k"] != "DeclRefExpr" or not v["d"].startswith("%"): continue
        u = var_uses(f).get(v["d"], [])
        st = [a for a in u if a[0] == "def"]; md = [a for a in u if a[0] == "mod"]
        if len(st) != 1 or len(md) != 1 or st[0][1] is None: continue
        m = f.nodes[md[0][2]]
        step = 1 if m.get("op") == "++" else -1 if m.get("op") == "--" else (f.nodes[f.strip(m["c"][1])].get("cv") if m.get("op") == "+=" else None)
        start = f.nodes[f.strip(st[0][1])].get("cv")
        if start is None and "*" in v["ct"]:        # a pointer walking the array: its offset from the base
            y = f.nodes[f.strip(st[0][1])]
            if y["k"] == "DeclRefExpr": start = 0
            elif y["k"] == "BinaryOperator" and y["op"] == "+": start = f.nodes[f.strip(y["c"][1])].get("cv")
            elif y["k"] == "UnaryOperator" and y["op"] == "&":
                z = f.nodes[f.strip(y["c"][0])]
                if z["k"] == "ArraySubscriptExpr": start = f.nodes[f.strip(z["c"][1])].get("cv")
            else: start = 0
        out.append({"start": start, "op": x["op"], "bound": x["c"][1], "step": step, "where": f.where(x["i"]), "header": h, "var": v["d"]})
    return out

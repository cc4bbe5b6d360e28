"""Every constructor leaves every plain field of its object with a definite value (definite-assignment dataflow)."""
import re
from agx import *

SCALAR = ("int", "unsigned int", "long", "unsigned long", "bool", "double", "float", "char", "unsigned char", "short", "long long", "unsigned long long", "unsigned short")


class Def:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.ins = {}; s.ue = {}; s.enums = set(P.enums)

    def plain(s, ct):
        t = ct.replace("const ", "").strip()
        if t.endswith("*") or "(*)" in t: return True
        if t.endswith("]"): return s.plain(t[:t.index("[")].strip())
        return t in SCALAR or t in s.enums or t.startswith("struct ompi") or "ompi_communicator" in t

    def this_field(s, f, i):
        """field id when the expression is this->field (or an element of it)"""
        i = f.strip(i); x = f.nodes[i]
        while x["k"] == "ArraySubscriptExpr": i = f.strip(x["c"][0]); x = f.nodes[i]
        if x["k"] == "MemberExpr" and x["dk"] == "Field" and x["c"] and f.nodes[f.strip(x["c"][0])]["k"] == "CXXThisExpr": return x["d"]
        return None

    def gens(s, f, e):
        """fields of *this given a value by one control-flow element"""
        g = set()
        if isinstance(e, dict):
            if e.get("x") == "init" and e.get("d"): g.add(e["d"])
            elif e.get("x") == "init" and e.get("v", -1) >= 0:
                x = f.nodes[f.strip(e["v"])]
                if x["k"] == "CXXConstructExpr" and x.get("fn") in s.P.funcs: g |= s.must(s.P.funcs[x["fn"]])
            return g
        x = f.nodes[e]
        if x["k"] == "BinaryOperator" and x["op"] == "=":
            d = s.this_field(f, x["c"][0])
            if d: g.add(d)
        elif x["k"] in CALLS:
            o = f.obj(x)
            if x.get("n") == "operator=" and x.get("opcall"):
                d = s.this_field(f, x["c"][1])
                if d: g.add(d)
            if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr":
                ts = [s.must(t) for t in s.P.targets(f, x)]
                if ts: g |= set.intersection(*ts)
            for a in f.args(x):
                y = f.nodes[f.strip(a)]
                if y["k"] == "UnaryOperator" and y["op"] == "&":
                    d = s.this_field(f, y["c"][0])
                    if d: g.add(d)
                elif y["k"] == "MemberExpr" and "[" in y["ct"]:
                    d = s.this_field(f, a)
                    if d: g.add(d)
                elif y.get("lv") and f.nodes[a]["k"] != "ImplicitCastExpr":
                    d = s.this_field(f, a)
                    if d: g.add(d)
        return g

    def must(s, f):
        """fields of *this definitely assigned when f returns"""
        if f.id in s.memo: return s.memo[f.id]
        s.memo[f.id] = set()
        ALL = None
        IN = {}; order = rpo(f); out = {}
        gen = {}
        for b in order:
            g = set()
            for e in f.elems(b): g |= s.gens(f, e)
            gen[b] = g
        # a loop that fills an array runs at least once for arrays of constant size: treat its stores as made when it is left
        lp = loops(f)
        extra = defaultdict(set)
        for h, body in lp.items():
            arr = set()
            for b in body:
                for e in f.elems(b):
                    if isinstance(e, int) and f.nodes[e]["k"] == "BinaryOperator" and f.nodes[e]["op"] == "=" and f.nodes[f.strip(f.nodes[e]["c"][0])]["k"] == "ArraySubscriptExpr":
                        d = s.this_field(f, f.nodes[e]["c"][0])
                        # on every iteration
                        if d and s.every_iter(f, h, body, b): arr.add(d)
            for b in body:
                for y in f.succ()[b]:
                    if y not in body: extra[(b, y)] |= arr
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == f.entry: i = set()
                else:
                    i = None
                    for p in f.pred()[b]:
                        if p in out:
                            v = out[p] | extra.get((p, b), set())
                            i = set(v) if i is None else i & v
                    if i is None: i = set()
                IN[b] = i; o = i | gen[b]
                if out.get(b) != o: out[b] = o; ch = True
        s.ins[f.id] = IN
        s.memo[f.id] = out.get(f.exit, set())
        return s.memo[f.id]

    def every_iter(s, f, h, body, b):
        if b == h: return True
        # b is on every path from the header back to it
        seen = set(); st = [y for y in f.succ()[h] if y in body]
        while st:
            y = st.pop()
            if y == b or y in seen: continue
            seen.add(y)
            for z in f.succ()[y]:
                if z == h: return False
                if z in body: st.append(z)
        return True

    def exposed(s, f):
        """fields of *this that f may read before it has assigned them (transitively through its own methods)"""
        if f.id in s.ue: return s.ue[f.id]
        s.ue[f.id] = {}
        s.must(f)
        IN = s.ins.get(f.id, {}); R = {}
        for b in rpo(f):
            cur = set(IN.get(b, ()))
            for e in f.elems(b):
                if isinstance(e, dict):
                    cur |= s.gens(f, e); continue
                x = f.nodes[e]
                if x["k"] == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue" or x["k"] in ("CompoundAssignOperator",) or x["k"] == "UnaryOperator" and x.get("op") in ("++", "--"):
                    y = f.nodes[f.strip(x["c"][0])]
                    d = s.this_field(f, x["c"][0]) if y["k"] == "MemberExpr" else None
                    if d and d not in cur: R.setdefault(d, "%s:%d (%s)" % (f.file, x.get("l") or f.line, f.qn))
                elif x["k"] in CALLS:
                    o = f.obj(x)
                    if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr":
                        for t in s.P.targets(f, x):
                            for d, w in s.exposed(t).items():
                                if d not in cur: R.setdefault(d, w)
                cur |= s.gens(f, e)
        s.ue[f.id] = R
        return R


def live_preds(f):
    """predecessor edges that constant branch conditions allow"""
    import phase
    dead = set()
    for b, ss in f.succ().items():
        if len(ss) != 2: continue
        c = phase.cond_of(f, b)
        if c is None: continue
        i = c if isinstance(c, int) else c[0]
        x = f.nodes[f.strip(i)]
        if x["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral") and "cv" in x: dead.add((b, ss[1] if str(x["cv"]) not in ("0", "False", "false") else ss[0]))
    out = defaultdict(list); seen = {f.entry}; st = [f.entry]
    while st:
        b = st.pop()
        for y in f.succ()[b]:
            if (b, y) in dead: continue
            out[y].append(b)
            if y not in seen: seen.add(y); st.append(y)
    return out


def local_reads(P, f):
    """scalar locals that some path reads before any assignment, where no assignment can follow the same condition"""
    vu = var_uses(f); pars = {p["d"] for p in f.params}; out = []
    cand = {}
    for v, u in vu.items():
        if v in pars or not v.startswith("%") or v not in f.vars: continue
        if f.vars[v].get("glob") or f.vars[v].get("static"): continue
        ct = f.vars[v].get("ct", "")
        if ct.replace("const ", "").strip() not in SCALAR and not ct.strip().endswith("*"): continue
        if not any(a[0] == "def" and a[1] is None for a in u): continue
        if any(a[0] in ("esc", "decay") for a in u): continue
        cand[v] = u
    if not cand: return out, 0
    bo = block_of(f)
    ev = defaultdict(list)          # block -> [(pos, kind, var, node)]
    pos = {}
    for b in f.succ():
        for k, e in enumerate(f.elems(b)):
            if isinstance(e, int): pos[e] = (b, k)
    for b in f.succ():
        for k, e in enumerate(f.elems(b)):
            if not isinstance(e, int): continue
            x = f.nodes[e]
            if x["k"] == "DeclStmt":
                for d in x["decls"]:
                    if d["d"] in cand: ev[b].append((k, "undef" if d["init"] < 0 else "def", d["d"], e))
            elif x["k"] == "BinaryOperator" and x["op"] == "=":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr" and y["d"] in cand: ev[b].append((k, "def", y["d"], e))
            elif x["k"] == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue":
                y = f.nodes[x["c"][0]]
                while y["k"] == "ParenExpr": y = f.nodes[y["c"][0]]
                if y["k"] == "DeclRefExpr" and y["d"] in cand: ev[b].append((k, "use", y["d"], e))
            elif x["k"] == "CompoundAssignOperator" or x["k"] == "UnaryOperator" and x["op"] in ("++", "--"):
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr" and y["d"] in cand: ev[b].append((k, "use", y["d"], e))
    preds = live_preds(f)
    # must-undefined: read on a path where no assignment came before, whatever conditions hold at the read
    order = rpo(f)
    IN = {f.entry: {v: "U" for v in cand}}
    ch = True
    def step(b, st):
        st = dict(st)
        for k, w, v, e in ev[b]:
            if w == "def": st[v] = "D"
            elif w == "undef": st[v] = "U"
            elif w == "use" and st.get(v) == "U": yieldset.add((v, e))
        return st
    yieldset = set(); OUT = {}
    while ch:
        ch = False; yieldset.clear()
        for b in order:
            if b != f.entry:
                ins = [OUT[p] for p in preds[b] if p in OUT]
                m = {}
                for v in cand:
                    vs = {i.get(v) for i in ins}
                    m[v] = vs.pop() if len(vs) == 1 else "M"
                IN[b] = m
            o = step(b, IN[b])
            if OUT.get(b) != o: OUT[b] = o; ch = True
    out = sorted(yieldset)
    # maybe-undefined reads: only when no assignment is control dependent on anything the read also depends on (a read that
    # every path reaches after an assignment made on some paths only)
    may = set(); OUT2 = {}; ch = True
    def step2(b, st):
        st = set(st)
        for k, w, v, e in ev[b]:
            if w == "def": st.discard(v)
            elif w == "undef": st.add(v)
            elif w == "use" and v in st: may.add((v, e, b)); st.discard(v)
        return st
    while ch:
        ch = False; may.clear()
        for b in order:
            i = set(cand) if b == f.entry else set().union(*[OUT2[p] for p in preds[b] if p in OUT2] or [set()])
            o = step2(b, i)
            if OUT2.get(b) != o: OUT2[b] = o; ch = True
    pd = None
    for v, e, b in sorted(may):
        if (v, e) in yieldset: continue
        pd = pd or postdoms(f)
        decl = [bb for bb in ev for k, w, vv, ee in ev[bb] if w == "undef" and vv == v]
        if decl and all(b in pd[d] for d in decl):
            # every path from the declaration reaches the read; some reach it without an assignment: loops that may run zero times are charged too
            out.append((v, e))
    return out, len(cand)


def element_reads(P, f):
    """elements (constant subscript, or every one of a counted walk) of local arrays of fixed size that no store on any path reaches before they are read"""
    from p13 import loop_bounds
    arr = {}
    for x in f.reach_nodes():
        if x["k"] == "DeclStmt":
            for d in x["decls"]:
                q = f.vars.get(d["d"]) if isinstance(f.vars, dict) else None
                if q is None or d["init"] >= 0 or q.get("glob") or q.get("static"): continue
                m = re.match(r"(?:const )?([\w: ]+?)\s*\[(\d+)\]$", q.get("ct", ""))
                if m and m.group(1).strip() in SCALAR and int(m.group(2)) <= 64: arr[d["d"]] = int(m.group(2))
    if not arr: return [], 0, 0
    counted = {}
    for l in loop_bounds(f):
        e = f.nodes[f.strip(l["bound"])].get("cv")
        if l["start"] is not None and e is not None and l["step"] == 1 and l["op"] in ("<", "<=", "!="): counted[l["var"]] = (int(l["start"]), int(e) + (l["op"] == "<="))
    def outer(i):
        p = f.parent.get(i)
        while p is not None and f.nodes[p]["k"] in ("ParenExpr",): i, p = p, f.parent.get(p)
        return i, p
    ev = defaultdict(list); nr = 0
    for b in f.succ():
        for k, e in enumerate(f.elems(b)):
            if not isinstance(e, int): continue
            x = f.nodes[e]
            if x["k"] == "DeclStmt":
                for d in x["decls"]:
                    if d["d"] in arr: ev[b].append(("new", d["d"], None, e))
                continue
            if x["k"] != "DeclRefExpr" or x["d"] not in arr: continue
            v = x["d"]; i, p = outer(e); y = f.nodes[p] if p is not None else None
            if y is not None and y["k"] == "ImplicitCastExpr" and y.get("ck") == "ArrayToPointerDecay":
                i, p = outer(p); y = f.nodes[p] if p is not None else None
            if y is None or y["k"] != "ArraySubscriptExpr" or y["c"][0] != i and f.strip(y["c"][0]) != e:
                if y is not None and y["k"] == "UnaryExprOrTypeTraitExpr": continue
                if y is not None and y["k"] == "CallExpr" and re.match(r"PCU_(Add|Min|Max|Exscan)_\w+s$", y.get("qn", "")):
                    c = f.nodes[f.strip(f.args(y)[1])].get("cv")
                    if c is not None: ev[b].append(("read", v, set(range(int(c))), e)); nr += 1
                ev[b].append(("all", v, None, e)); continue
            z = f.nodes[f.strip(y["c"][1])]; c = z.get("cv")
            ks = {int(c)} if c is not None else set(range(*counted[z["d"]])) if z["k"] == "DeclRefExpr" and z["d"] in counted else None
            sub = p; i, p = outer(sub); w = f.nodes[p] if p is not None else None
            if w is not None and w["k"] == "ImplicitCastExpr" and w.get("ck") == "LValueToRValue":
                ev[b].append(("read", v, ks, sub)); nr += 1
            elif w is not None and w["k"] in ("BinaryOperator",) and w["op"] == "=" and w["c"][0] == i: ev[b].append(("late", v, ks, p))
            elif w is not None and (w["k"] == "CompoundAssignOperator" or w["k"] == "UnaryOperator" and w["op"] in ("++", "--")):
                ev[b].append(("read", v, ks, sub)); nr += 1
            else: ev[b].append(("set", v, ks, sub))
    # a store takes effect where the assignment itself stands
    place = {e: (b, k) for b in f.succ() for k, e in enumerate(f.elems(b)) if isinstance(e, int)}
    seq = defaultdict(list)
    for b in ev:
        for kind, v, ks, e in ev[b]:
            at = place.get(e, None)
            if at is None: at = (b, 10 ** 6 if kind == "late" else -1)
            seq[at[0]].append((at[1], kind, v, ks, e))
    for b in seq: seq[b].sort(key=lambda t: t[0])
    bad = set(); OUT = {}; ch = True; preds = live_preds(f); order = rpo(f)
    def step(b, st):
        st = {v: set(q) for v, q in st.items()}
        for k, kind, v, ks, e in seq[b]:
            n = arr[v]
            if kind == "new": st[v] = set()
            elif kind == "all" or ks is None and kind != "read": st[v] = set(range(n))
            elif kind == "read":
                if ks is not None:
                    for q in sorted(ks & set(range(n)) - st.get(v, set())): bad.add((v, q, e))
            else: st[v] = st.get(v, set()) | ks
        return st
    while ch:
        ch = False; bad.clear()
        for b in order:
            i = {}
            for p in preds[b]:
                for v, q in OUT.get(p, {}).items(): i[v] = i.get(v, set()) | q
            o = step(b, i)
            if OUT.get(b) != o: OUT[b] = o; ch = True
    return sorted(bad, key=str), len(arr), nr


class Fill:
    """elements of arrays that come from new[] (or are fields of constant size): given a value before they are read"""
    SINK = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "copy": (2,), "copy_n": (2,), "copy_backward": (2,), "transform": (2,), "fill": (0, 1), "fill_n": (0,), "iota": (0, 1), "fread": (0,),
            "partial_sum": (2,), "generate": (0, 1), "PCU_Comm_Unpack": (0,), "PCU_Comm_Read": (2,), "MPI_Recv": (0,), "MPI_Allgather": (3,), "MPI_Alltoall": (3,), "MPI_Alltoallv": (4,), "MPI_Gather": (3,),
            "MPI_Bcast": (0,), "MPI_Scan": (1,), "MPI_Exscan": (1,), "pcu_read": (1,), "pcu_read_unsigneds": (1,), "pcu_read_doubles": (1,)}

    def __init__(s, P, D):
        s.P = P; s.D = D; s.n = 0; s.nread = 0; s.writers = {}; s.exp = {}; s.kin = {}
        s.sent = set()                 # fields whose elements are compared with a constant
        for f in P.funcs.values():
            for x in f.reach_nodes():
                if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=", "<", ">="):
                    for p, q in ((0, 1), (1, 0)):
                        if f.nodes[f.strip(x["c"][q])].get("cv") is not None:
                            y = f.nodes[f.strip(x["c"][p])]
                            if y["k"] == "ArraySubscriptExpr":
                                m = f.nodes[f.strip(y["c"][0])]
                                if m["k"] == "MemberExpr": s.sent.add(m["d"])

    def base(s, f, i):
        """key of the array an element access goes to: (key, index node)"""
        x = f.nodes[f.strip(i)]
        if x["k"] == "ArraySubscriptExpr":
            y = f.nodes[f.strip(x["c"][0])]
            while y["k"] == "ArraySubscriptExpr" and y["ct"].rstrip().endswith("]"): x = y; y = f.nodes[f.strip(x["c"][0])]      # a component of an element
            return f.key(x["c"][0]), x["c"][1]
        if x["k"] == "UnaryOperator" and x["op"] == "*": return f.key(x["c"][0]), None
        return None, None

    def allocs(s, f):
        for x in f.reach_nodes():
            if x["k"] != "CXXNewExpr" or not x.get("arr") or x.get("init") not in (None, -1, 0, False, ""): continue
            if not s.D.plain(x.get("at") or x.get("cat") or "") and not s.D.plain(x.get("cat") or ""): continue
            p = x["i"]
            while f.parent.get(p) is not None and f.nodes[f.parent[p]]["k"] in CASTS: p = f.parent[p]
            y = f.nodes[f.parent[p]] if f.parent.get(p) is not None else None
            if y is None: continue
            if y["k"] == "BinaryOperator" and y["op"] == "=" and y["c"][1] == p:
                u = f.nodes[f.parent[y["i"]]] if f.parent.get(y["i"]) is not None else None
                if u is not None and (u["k"] in CASTS or u["k"] in ("BinaryOperator", "DeclStmt") or u["k"] in CALLS): continue      # a second name
                yield x, f.key(y["c"][0]), y["i"], f.nodes[f.strip(y["c"][0])]
            elif y["k"] == "DeclStmt":
                for d in y["decls"]:
                    if d["init"] >= 0 and f.strip(d["init"]) == x["i"]: yield x, d["d"], y["i"], None

    def touches(s, t, fld):
        """what t and what it calls do to the elements of a field: set of read / write"""
        k = (t.id, fld)
        if k in s.writers: return s.writers[k]
        s.writers[k] = set(); out = set()
        for x in t.reach_nodes():
            if x["k"] == "MemberExpr" and x["d"] == fld:
                p = x["i"]; up = t.nodes[t.parent[p]] if t.parent.get(p) is not None else None
                while up is not None and up["k"] in CASTS: p = up["i"]; up = t.nodes[t.parent[p]] if t.parent.get(p) is not None else None
                if up is not None and up["k"] == "ArraySubscriptExpr" and up["c"][0] == p:
                    q = up["i"]; uu = t.nodes[t.parent[q]] if t.parent.get(q) is not None else None
                    while uu is not None and uu["k"] == "ArraySubscriptExpr" and uu["c"][0] == q: q = uu["i"]; uu = t.nodes[t.parent[q]] if t.parent.get(q) is not None else None
                    if uu is not None and uu["k"] == "BinaryOperator" and uu["op"] == "=" and uu["c"][0] == q: out.add("write" if s.dense(t, up["c"][1]) or fld not in s.sent else "sparse")
                    elif uu is not None and uu["k"] in ("ImplicitCastExpr",) and uu.get("ck") == "LValueToRValue": out.add("read")
                    elif uu is not None and (uu["k"] == "CompoundAssignOperator" or uu["k"] == "UnaryOperator" and uu["op"] in ("++", "--")): out.add("read")
                    else: out.add("write")
                elif up is not None and up["k"] == "CXXDeleteExpr": pass
                elif up is not None and (up["k"] in CALLS or up["k"] in ("DeclStmt", "CXXConstructExpr", "ReturnStmt") or up["k"] == "BinaryOperator" and up["op"] in ("=", "+")): out.add("write")
        for x in t.calls():
            for g in s.P.targets(t, x): out |= s.touches(g, fld)
        s.writers[k] = out
        return out

    def dense(s, f, ix):
        """the index walks: a constant, a counter, a cursor"""
        if ix is None: return True
        x = f.nodes[f.strip(ix)]
        if x.get("cv") is not None: return True
        st = [x["i"]]; n = 0
        while st:
            y = f.nodes[f.strip(st.pop())]
            if y["k"] == "BinaryOperator" and y["op"] in ("+", "-", "*"): st += y["c"]
            elif y.get("cv") is not None: pass
            elif y["k"] == "UnaryOperator" and y["op"] in ("++", "--"): return True
            elif y["k"] == "DeclRefExpr":
                us = var_uses(f).get(y["d"], [])
                if not any(u[0] == "mod" for u in us): return False
            elif y["k"] == "MemberExpr": pass
            else: return False
        return True

    def param(s, t, j):
        """what a function does first to the elements of its pointer parameter: read / fill / none"""
        k = (t.id, j)
        if k in s.exp: return s.exp[k]
        s.exp[k] = "fill"
        if j >= len(t.params): return "fill"
        pk = t.params[j]["d"]
        us = var_uses(t).get(pk, [])
        if any(u[0] == "mod" for u in us) or any(u[0] == "def" and u[1] is not None for u in us): return "fill"      # walked or redirected
        ev = s.uses(t, pk, None)
        hit = s.search(t, ev, t.entry, None)
        ks = {e[1] for b in ev for e in ev[b]}
        s.exp[k] = "read" if hit else "fill" if ks & {"write", "fill", "ext", "end"} else "none" if not ks else "read"
        return s.exp[k]

    def handing(s, f, x, j, a):
        """kind of event when the array is argument j of call x"""
        n = x.get("n", ""); q = x.get("qn", "")
        ar = f.args(x)
        if n in s.SINK: return "fill" if j in s.SINK[n] else "read"
        if q in ("MPI_Allreduce", "MPI_Reduce"):
            if j == 0: return "read"
            y = f.nodes[ar[0]]
            from p13 import pointee
            return "read" if pointee(f, ar[0]) == "inplace" else "fill"
        if q in ("MPI_Issend", "MPI_Send", "MPI_Isend", "PCU_Comm_Pack", "PCU_Comm_Write"): return "read"
        if re.match(r"PCU_(Add|Min|Max|Exscan)_\w+s$", q): return "read"
        ts = s.P.targets(f, x)
        if ts:
            ks = {s.param(t, j) for t in ts}
            return "fill" if "fill" in ks else "read" if "read" in ks else None
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") or x.get("meth") or x.get("opcall") or n in ("make_pair", "make_tuple"):
            return "end" if f.key(a) is not None else "fill"
        return "ext"

    def uses(s, f, K, at):
        """{block: [(element, kind, index)]}: read, rmw, write, sparse, fill, ext (handed to code not seen), end"""
        ev = defaultdict(list); fld = None
        if at is not None:
            y = at
            while y["k"] == "ArraySubscriptExpr": y = f.nodes[f.strip(y["c"][0])]
            if y["k"] == "MemberExpr": fld = y["d"]
        for b in f.succ():
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]; k = x["k"]
                if k == "BinaryOperator" and x["op"] == "=":
                    a, ix = s.base(f, x["c"][0])
                    if a == K: ev[b].append((e, "sparse" if fld in s.sent and not s.dense(f, ix) else "write", ix))
                    elif f.key(x["c"][0]) == K and not s.isnew(f, x["c"][1]): ev[b].append((e, "end", None))
                    elif f.key(x["c"][1]) == K and "*" in f.nodes[f.strip(x["c"][1])]["ct"]: ev[b].append((e, "fill" if f.nodes[f.strip(x["c"][0])]["k"] == "DeclRefExpr" else "end", None))
                elif k == "DeclStmt":
                    for d in x["decls"]:
                        if d["init"] < 0: continue
                        y = f.nodes[f.strip(d["init"])]
                        if f.key(d["init"]) == K and "*" in y["ct"] or f.nodes[d["init"]].get("lv") and "&" in f.vars.get(d["d"], {}).get("ct", "") and s.base(f, y["i"])[0] == K: ev[b].append((e, "fill", None))
                elif k == "CompoundAssignOperator" or k == "UnaryOperator" and x["op"] in ("++", "--"):
                    a, ix = s.base(f, x["c"][0])
                    if a == K: ev[b].append((e, "rmw", ix))
                elif k == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue":
                    a, ix = s.base(f, x["c"][0])
                    if a == K: ev[b].append((e, "read", ix))
                elif k == "ReturnStmt" and x.get("c") and s.hands(f, x["c"][0], K): ev[b].append((e, "end", None))
                elif k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                    ks = set()
                    ar = f.args(x) if k != "InitListExpr" else x["c"]
                    for j, a in enumerate(ar):
                        if s.hands(f, a, K): ks.add(s.handing(f, x, j, a))
                    ks.discard(None)
                    if ks: ev[b].append((e, "fill" if "fill" in ks and "read" not in ks else "read" if "read" in ks else ks.pop(), None))
                    elif fld and k in CALLS:
                        for t in s.P.targets(f, x):
                            w = s.touches(t, fld)
                            if "write" in w: ev[b].append((e, "fill", None)); break
                            if "read" in w and fld in s.sent and s.passes(f, x, at): ev[b].append((e, "read", None)); break
                elif k == "CXXDeleteExpr":
                    if x.get("c") and f.key(x["c"][0]) == K: ev[b].append((e, "end", None))
                elif k == "LambdaExpr": ev[b].append((e, "fill", None))
        return ev

    def passes(s, f, x, at):
        """the object that holds the array takes part in the call"""
        y = f.nodes[f.strip(at["c"][0])] if at["k"] == "MemberExpr" and at["c"] else None
        if y is None: return False
        k = f.key(y["i"])
        return any(f.key(a) == k for a in f.args(x)) or (f.obj(x) is not None and f.key(f.obj(x)) == k)

    def isnew(s, f, i): return f.nodes[f.strip(i)]["k"] == "CXXNewExpr"

    def hands(s, f, a, K):
        """the array itself (or the address of an element) is part of the expression"""
        st = [a]
        while st:
            j = st.pop(); y = f.nodes[j]
            if f.key(j) == K and f.nodes[f.strip(j)]["k"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr"): return True
            if y["k"] == "UnaryOperator" and y["op"] == "&":
                q, _ = s.base(f, y["c"][0])
                if q == K: return True
            if y["k"] == "ArraySubscriptExpr":
                if y.get("lv") and f.parent.get(j) is not None and f.nodes[f.parent[j]].get("ck") != "LValueToRValue":
                    q, _ = s.base(f, j)
                    if q == K: return True
                continue
            if y["k"] == "LambdaExpr": return True
            if y["k"] in CALLS and j != a: continue
            st += [c for c in y["c"] if isinstance(c, int) and c >= 0]
        return False

    def span(s, f, ix):
        """(start, end, stride, offset of the walk, loop header) of the elements a store covers, as linear forms; None when it cannot be told"""
        from p13 import lin
        if ix is None: return None
        l = lin(f, ix)
        if set(l) <= {()}: return l, add(l, {(): 1}), 1, l, None
        x = f.nodes[f.strip(ix)]; off = {}; v = None; k = 0
        st = [(x["i"], 1)]
        while st:
            i, g = st.pop(); y = f.nodes[f.strip(i)]
            if y.get("cv") is not None: off = add(off, {(): g * y["cv"]})
            elif y["k"] == "BinaryOperator" and y["op"] in ("+", "-"): st += [(y["c"][0], g), (y["c"][1], g if y["op"] == "+" else -g)]
            elif y["k"] == "BinaryOperator" and y["op"] == "*":
                for p, q in ((0, 1), (1, 0)):
                    c = f.nodes[f.strip(y["c"][p])].get("cv")
                    if c is not None: st.append((y["c"][q], g * c)); break
                else: return None
            elif y["k"] == "UnaryOperator" and y["op"] == "++":
                z = f.nodes[f.strip(y["c"][0])]
                if z["k"] != "DeclRefExpr" or g != 1: return None
                c = s.cursor(f, z["d"])
                if c is None: return None
                return add(add(c, off), {(): 0 if y.get("post") else 1}), None, 1, None, None
            elif y["k"] == "DeclRefExpr" and (v is None or v == y["d"]) and g >= 1: v = y["d"]; k += g
            else: return None
        if v is None: return None
        at = block_of(f)
        for n in s.counted(f):
            if n["var"] == v and at.get(x["i"]) in n["body"] and n["step"] == 1 and n["op"] in ("<", "<=", "!="):
                if n["from"] is None: return None
                e = lin(f, n["bound"])
                if n["op"] == "<=": e = add(e, {(): 1})
                a = {z: c * k for z, c in lin(f, n["from"]).items()}; e = {z: c * k for z, c in e.items()}
                return add(a, off), add(e, off), k, off, n["h"]
        c = s.cursor(f, v)
        return (add(c, off), None, 1, None, None) if c is not None and k == 1 else None

    def cursor(s, f, v):
        """least value of a variable that starts at one value and only grows by one"""
        from p13 import lin
        us = var_uses(f).get(v, [])
        if any(u[0] not in ("def", "mod") for u in us): return None
        ds = {tuple(sorted((str(a), c) for a, c in lin(f, u[1]).items())): u[1] for u in us if u[0] == "def" and u[1] is not None}
        if len(ds) != 1: return None
        for u in us:
            if u[0] == "mod" and not (f.nodes[u[2]]["k"] == "UnaryOperator" and f.nodes[u[2]]["op"] == "++"): return None
        return lin(f, next(iter(ds.values())))

    def counted(s, f):
        import phase
        out = []; lp = loops(f)
        for h, body in lp.items():
            c = phase.cond_of(f, h)
            if c is None: continue
            x = f.nodes[f.strip(c)]
            if x["k"] != "BinaryOperator" or x["op"] not in ("<", "<=", "!="): continue
            v = f.nodes[f.strip(x["c"][0])]
            if v["k"] != "DeclRefExpr" or not v["d"].startswith("%"): continue
            u = var_uses(f).get(v["d"], []); ds = [a for a in u if a[0] == "def"]; md = [a for a in u if a[0] == "mod"]
            at = block_of(f); md = [a for a in md if at.get(a[2]) in body]
            if len(ds) > 1:                # the last value before the loop
                ds = [a for a in ds if a[1] is not None and at.get(a[2]) in f.pred()[h]]
            if len(ds) != 1 or ds[0][1] is None or len(md) != 1: continue
            if len([a for a in u if a[0] == "mod"]) > 1 and len([a for a in u if a[0] == "def"]) == 1: continue
            m = f.nodes[md[0][2]]
            step = 1 if m.get("op") == "++" else -1 if m.get("op") == "--" else (f.nodes[f.strip(m["c"][1])].get("cv") if m.get("op") == "+=" else None)
            out.append({"var": v["d"], "from": ds[0][1], "op": x["op"], "bound": x["c"][1], "step": step, "body": body, "h": h})
        return out

    def search(s, f, ev, start, site):
        """a read (element, kind) that some path from the site reaches without a store; loops that store are taken to run"""
        lp = loops(f)
        wl = {h for h, body in lp.items() if any(k in ("write", "fill") or k == "ext" for b in body for _, k, _ in ev.get(b, ()))}
        seen = set(); st = [(start, site is not None)]
        while st:
            b, first = st.pop()
            if (b, first) in seen: continue
            seen.add((b, first)); go = True; passed = not first
            for e in f.elems(b):
                if not isinstance(e, int): continue
                if not passed:
                    passed = e == site
                    continue
                if e == site: go = False; break
                for n, k, ix in ev.get(b, ()):
                    if n != e or k == "sparse": continue
                    if k in ("read", "rmw"): return n, k
                    go = False; break
                if not go: break
            if not go: continue
            for y in f.succ()[b]:
                if any(b in lp[h] and y not in lp[h] for h in wl): continue
                st.append((y, False))
        return None

    def constix(s, f, e):
        y = f.nodes[f.strip(f.nodes[e]["c"][0])]
        return y["k"] == "ArraySubscriptExpr" and f.nodes[f.strip(y["c"][1])].get("cv") is not None

    def stack(s, f, ev):
        """filled only by pushing (the counter of the elements tells how far to read)"""
        n = 0
        for b in ev:
            for _, k, ix in ev[b]:
                if k == "write":
                    if ix is None: return False
                    x = f.nodes[f.strip(ix)]
                    if not (x["k"] == "UnaryOperator" and x["op"] == "++" and f.nodes[f.strip(x["c"][0])]["k"] == "MemberExpr"): return False
                    n += 1
        return n > 0

    def unset(s, f, ev, start, site):
        """some path from the site ends (returns, leaves, allocates again) without a store"""
        lp = loops(f)
        wl = {h for h, body in lp.items() if any(k in ("write", "fill", "ext") for b in body for _, k, _ in ev.get(b, ()))}
        here = {h for h in lp if start in lp[h]}
        seen = set(); st = [(start, True)]
        while st:
            b, first = st.pop()
            if (b, first) in seen: continue
            seen.add((b, first)); go = True; passed = not first
            if b == f.exit: return True
            for e in f.elems(b):
                if not isinstance(e, int): continue
                if not passed: passed = e == site; continue
                if e == site: return True
                if any(n == e and k in ("write", "fill", "ext", "rmw") for n, k, _ in ev.get(b, ())): go = False; break
            if not go: continue
            for y in f.succ()[b]:
                if y in here and not first and y != start: return True      # the next round: another element
                if any(b in lp[h] and y not in lp[h] for h in wl - here): continue
                st.append((y, False))
        return False

    def run(s, f, bad):
        from p13 import lin, show
        sib = defaultdict(list)
        for x, K, site, at in list(s.allocs(f)):
            s.n += 1
            ev = s.uses(f, K, at); start = block_of(f).get(site)
            if start is None: continue
            name = f.text(at["i"]) if at is not None else K.split("%")[-1].split("#")[0]
            s.nread += sum(1 for b in ev for _, k, _ in ev[b] if k in ("read", "rmw"))
            hit = None if s.stack(f, ev) else s.search(f, ev, start, site)
            if hit: bad("%s|array %s" % (f.qn, name), f.where(hit[0]), "an element of %s is read before any element was given a value" % name); continue
            ks = {f.nodes[f.strip(ix)].get("cv") if ix is not None else None for b in ev for _, k, ix in ev[b] if k == "write"}
            if len(ks) == 1 and None not in ks and x.get("sz", -1) is not None and x.get("sz", -1) >= 0 and f.nodes[f.strip(x["sz"])].get("cv") is None:
                hit = s.search(f, {b: [z for z in l if z[1] not in ("write", "read")] for b, l in ev.items()}, start, site)
                if hit and hit[1] == "rmw" and not s.constix(f, hit[0]): bad("%s|array %s" % (f.qn, name), f.where(hit[0]), "an element of %s is changed before it was given a value" % name); continue
            sib[K].append((site, s.unset(f, ev, start, site), name))
            s.partial(f, x, K, site, at, ev, start, name, bad)
        for K, l in sib.items():
            if len(l) > 1 and any(not u for _, u, _ in l):
                for site, u, name in l:
                    if u: bad("%s|array %s|kept" % (f.qn, name), f.where(site), "a new %s is kept without its elements being given a value, unlike the other ones made here" % name)

    def partial(s, f, x, K, site, at, ev, start, name, bad):
        """the stores, taken together, leave out an element"""
        from p13 import lin, show
        if x.get("sz", -1) is None or x.get("sz", -1) < 0: return
        n = lin(f, x["sz"]); sp = []; read = at is not None
        reach = s.after(f, start); groups = defaultdict(lambda: defaultdict(list)); lp = loops(f); wrote = any(k == "write" for b in ev for _, k, _ in ev[b])
        for b in ev:
            if b not in reach: continue
            for e, k, ix in ev[b]:
                if k == "fill" or k == "ext" and not wrote: return
                if k == "write":
                    q = s.span(f, ix)
                    if q is None: return
                    if q[4] is not None: groups[(q[2], key(diff(q[0], q[3])), key(diff(q[1], q[3])))][key(q[3])].append((b, q))
                    else: sp.append((q[0], q[1]))
                elif k in ("read", "rmw", "ext"): read = True
        if not read: return
        nocond = True
        for (k, _, _), offs in groups.items():
            full = []
            for o, bs in offs.items():
                q = bs[0][1]
                if any(s.each(f, h, lp[h], {b for b, z in bs if z[4] == h}) for h in {z[4] for _, z in bs}): full.append(q)
                else: nocond = False
            c = sorted(full, key=lambda q: q[3].get((), 0))
            if k == 1:
                sp += [(q[0], q[1]) for q in c]; continue
            if any(set(diff(q[3], c[0][3])) - {()} for q in c): return
            vals = [q[3].get((), 0) for q in c]
            if vals and vals == list(range(vals[0], vals[0] + k)): sp.append((c[0][0], add(c[0][1], {})))
            elif vals:
                if len(groups) == 1 or len(vals) < k:
                    bad("%s|array %s|stride" % (f.qn, name), f.where(site), "%d of every %d elements of %s are given a value" % (len(vals), k, name)); return
        if not sp and nocond: return
        cur = {}; left = list(sp)
        while left:
            nx = [q for q in left if set(diff(q[0], cur)) <= {()} and diff(q[0], cur).get((), 0) <= 0]
            if not nx: break
            for q in nx:
                left.remove(q)
                if q[1] is None: return
                d = diff(q[1], cur)
                if not (set(d) <= {()} and d.get((), 0) <= 0): cur = q[1]
        if not nocond and any(True for _ in left): return
        d = diff(n, cur)
        if left:
            if all(set(diff(q[0], cur)) <= {()} for q in left): bad("%s|array %s|gap" % (f.qn, name), f.where(site), "element %s of %s is never given a value" % (show(cur), name))
        elif d and set(d) <= {()} and d[()] > 0: bad("%s|array %s|last" % (f.qn, name), f.where(site), "elements %s and on of %s, which has %s, are not always given a value" % (show(cur), name, show(n)))

    def each(s, f, h, body, bs):
        """every round of the loop passes one of the blocks"""
        if h in bs: return True
        seen = set(); st = [y for y in f.succ()[h] if y in body]
        while st:
            y = st.pop()
            if y in bs or y in seen: continue
            seen.add(y)
            for z in f.succ()[y]:
                if z == h: return False
                if z in body: st.append(z)
        return True

    def after(s, f, b):
        seen = {b}; st = [b]
        while st:
            for y in f.succ()[st.pop()]:
                if y not in seen: seen.add(y); st.append(y)
        return seen

    def tags(s, f, bad):
        """a new tag is read only after it was written"""
        for x in f.reach_nodes():
            if x["k"] not in CALLS or not re.match(r"create(Int|Long|Double)Tag$", x.get("n", "")): continue
            p = x["i"]
            while f.parent.get(p) is not None and f.nodes[f.parent[p]]["k"] in CASTS: p = f.parent[p]
            y = f.nodes[f.parent[p]] if f.parent.get(p) is not None else None
            if y is None: continue
            K = None
            if y["k"] == "BinaryOperator" and y["op"] == "=": K = f.key(y["c"][0])
            elif y["k"] == "DeclStmt": K = next((d["d"] for d in y["decls"] if d["init"] == p), None)
            if K is None: continue
            s.ntag += 1; site = y["i"]; bo = block_of(f); lp = loops(f); ev = defaultdict(list); w = False
            for b in f.succ():
                for e in f.elems(b):
                    z = f.nodes[e] if isinstance(e, int) else None
                    if z is None: continue
                    if z["k"] in CALLS:
                        a = f.args(z); n = z.get("n", "")
                        if any(f.key(q) == K for q in a):
                            if re.match(r"get(Int|Long|Double)Tag$", n): ev[b].append((e, "read"))
                            elif re.match(r"set(Int|Long|Double)Tag$", n): ev[b].append((e, "write")); w = True
                            else:
                                j = next(i for i, q in enumerate(a) if f.key(q) == K); r = False; ww = False
                                for t in s.P.targets(f, z):
                                    if j < len(t.params):
                                        pk = t.params[j]["d"]
                                        for q in t.calls():
                                            if any(t.key(c) == pk for c in t.args(q)):
                                                r = r or bool(re.match(r"get(Int|Long|Double)Tag$", q.get("n", ""))); ww = ww or bool(re.match(r"set(Int|Long|Double)Tag$", q.get("n", "")))
                                                if not re.match(r"[gs]et(Int|Long|Double)Tag$", q.get("n", "")): ww = True
                                if z.get("n") == "destroyTag": ev[b].append((e, "end"))
                                elif r: ev[b].append((e, "read"))
                                else: ev[b].append((e, "write"))
                    elif z["k"] == "ReturnStmt" and z.get("c") and f.key(z["c"][0]) == K: ev[b].append((e, "end"))
            wl = {h for h, body in lp.items() if any(k == "write" for b in body for _, k in ev.get(b, ()))}
            seen = set(); st = [(bo.get(site), True)]; hit = None
            while st and hit is None:
                b, first = st.pop()
                if (b, first) in seen or b is None: continue
                seen.add((b, first)); go = True; passed = not first
                for e in f.elems(b):
                    if not passed:
                        passed = e == site; continue
                    for n, k in ev.get(b, ()):
                        if n == e:
                            if k == "read": hit = n
                            go = False
                    if not go: break
                if not go: continue
                for z in f.succ()[b]:
                    if any(b in lp[h] and z not in lp[h] for h in wl): continue
                    st.append((z, False))
            if hit is not None: bad("%s|tag %s" % (f.qn, K.split("%")[-1].split("#")[0]), f.where(hit), "a value of the new tag %s is read before any was set" % K.split("%")[-1].split("#")[0])
            elif y["k"] == "BinaryOperator" and not w and s.field_tag(f, y["c"][0]): bad("%s|tag %s" % (f.qn, K), f.where(site), "the new tag %s is kept without any value being set, and is read at %s" % (f.text(y["c"][0]), s.field_tag(f, y["c"][0])))

    def field_tag(s, f, i):
        """where a tag kept in a field is read and compared with a constant"""
        m = f.nodes[f.strip(i)]
        if m["k"] != "MemberExpr": return None
        for g in s.P.funcs.values():
            for x in g.reach_nodes():
                if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=", "<", ">=", ">", "<="):
                    for p, q in ((0, 1), (1, 0)):
                        if g.nodes[g.strip(x["c"][q])].get("cv") is None: continue
                        y = g.nodes[g.strip(x["c"][p])]
                        if y["k"] in CALLS and re.match(r"get(Int|Long|Double)Tag$", y.get("n", "")):
                            for a in g.args(y):
                                z = g.nodes[g.strip(a)]
                                if z["k"] == "MemberExpr" and z["d"] == m["d"]: return g.where(x["i"])
        return None

    def ctor_arrays(s, f, fields, cov):
        """array fields of constant size: spans stored by a constructor (and the object's own methods it calls)"""
        for x in f.reach_nodes():
            if x["k"] == "BinaryOperator" and x["op"] == "=":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "ArraySubscriptExpr":
                    b = f.nodes[f.strip(y["c"][0])]
                    if b["k"] == "MemberExpr" and b["d"] in fields: q = s.span(f, y["c"][1]); cov[b["d"]].append(None if q is None or q[1] is None or q[2] != 1 else q[:2])
            elif x["k"] in CALLS:
                for a in f.args(x):
                    st = [a]
                    while st:
                        j = st.pop(); y = f.nodes[j]
                        if y["k"] == "MemberExpr" and y["d"] in fields: cov[y["d"]].append(None)
                        st += [c for c in y["c"] if isinstance(c, int) and c >= 0]
                o = f.obj(x)
                if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr":
                    for t in s.P.targets(f, x):
                        if t.id != f.id and not s.deep:
                            s.deep += 1; s.ctor_arrays(t, fields, cov); s.deep -= 1


def add(a, b):
    o = dict(a)
    for z, c in b.items(): o[z] = o.get(z, 0) + c
    return {z: c for z, c in o.items() if c}


def key(l): return tuple(sorted((str(a), c) for a, c in l.items()))


def diff(a, b): return add(a, {z: -c for z, c in b.items()})


def run(P, r, tier):
    D = Def(P); nc = nf = na = 0; F = Fill(P, D); F.ntag = 0
    elem = {}                      # array field -> where an element is read
    for f in P.funcs.values():
        if f.ctor: continue
        for x in f.reach_nodes():
            if x["k"] == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "ArraySubscriptExpr":
                    b = f.nodes[f.strip(y["c"][0])]
                    if b["k"] == "MemberExpr" and b["dk"] == "Field": elem.setdefault(b["d"], f.where(x["i"]))
    called = defaultdict(set)      # method -> {"this", "other"}: how it is called
    ext = defaultdict(list)        # field -> reads through another object
    for f in P.funcs.values():
        for x in f.reach_nodes():
            if x["k"] in CALLS:
                o = f.obj(x)
                for t in P.targets(f, x):
                    called[t.id].add("this" if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr" else "other")
            elif x["k"] == "ImplicitCastExpr" and x.get("ck") == "LValueToRValue":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "MemberExpr" and y["dk"] == "Field" and y["c"] and f.nodes[f.strip(y["c"][0])]["k"] != "CXXThisExpr": ext[y["d"]].append(f.where(x["i"]))
    def bases(q):
        out = [q]
        for b in P.recs.get(q, {}).get("bases", []): out += bases(b)
        return out
    byc = defaultdict(list)
    for f in P.funcs.values():
        if f.cls: byc[f.cls].append(f)
    for q, R in sorted(P.recs.items()):
        if R["f"].startswith("pcu/") or R.get("union"): continue
        fam = bases(q)
        ctors = [f for f in byc[q] if f.ctor and not (f.params and len(f.params) == 1 and f.params[0]["ct"].replace("const ", "").rstrip(" &") in (q, q + " &"))]
        fields = [(x, b) for b in fam for x in P.recs.get(b, {}).get("fields", []) if D.plain(x["ct"]) and not x["dinit"]]
        if not fields: continue
        user = [f for f in ctors if not f.implicit]
        if not user and P.derived.get(q): continue       # only a base: its fields are obligations of the derived classes
        # fields some method may read before it assigns them
        exposed = {}
        for b in fam:
            for f in byc[b]:
                if f.ctor or f.implicit and not f.dtor or f.static: continue
                if f.name == "operator=": continue
                if called[f.id] == {"this"}: continue
                for d, w in D.exposed(f).items(): exposed.setdefault(d, w)
        for x, b in fields:
            for w in ext.get(x["d"], [])[:1]: exposed.setdefault(x["d"], w)
        cs = user or [f for f in ctors if f.implicit]
        for f in cs:
            nc += 1; m = D.must(f)
            for x, b in fields:
                nf += 1
                if x["d"] in m or x["d"] not in exposed: continue
                if "]" in x["ct"]: continue
                r.bad("%s|%s|%s" % (f.qn, x["n"], len(f.params)), f.where(), "field %s has no definite value when this constructor returns, and is read at %s" % (x["n"], exposed[x["d"]]))
            for d, w in D.exposed(f).items():
                n = [x["n"] for x, b in fields if x["d"] == d]
                if n: r.bad("%s|%s|own" % (f.qn, n[0]), w, "field %s is read before the constructor gives it a value" % n[0])
        arr = {x["d"]: x for x, b in fields if "]" in x["ct"] and "(*)" not in x["ct"] and "(" not in x["ct"]}
        for f in cs:
            if not arr or f.implicit: continue
            cov = defaultdict(list); F.deep = 0; F.ctor_arrays(f, arr, cov); m = D.must(f)
            for d, x in sorted(arr.items()):
                w = elem.get(d)
                if not w: continue
                na += 1; N = int(re.search(r"\[(\d+)\]", x["ct"]).group(1)); c = cov.get(d)
                if not c:
                    if d not in m: r.bad("%s|%s|elements" % (f.qn, x["n"]), f.where(), "the elements of %s have no definite value when this constructor returns, and are read at %s" % (x["n"], w))
                    continue
                if None in c or not all(set(a) <= {()} and set(b) <= {()} for a, b in c): continue
                got = set()
                for a, b in c: got |= set(range(a.get((), 0), b.get((), 0)))
                if set(range(N)) - got: r.bad("%s|%s|elements" % (f.qn, x["n"]), f.where(), "element %d of %s has no definite value when this constructor returns" % (min(set(range(N)) - got), x["n"]))
    nl = 0; nfa = nfr = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        bad, n = local_reads(P, f); nl += n
        for v, e in bad:
            n = v.split("%")[-1].split("#")[0]
            r.bad("%s|local %s" % (f.qn, n), f.where(e), "local variable %s may be read before it is given a value" % n)
        if not f.file.startswith("pcu/"):
            bad, n, m = element_reads(P, f); nfa += n; nfr += m
            for v, q, e in bad:
                n = v.split("%")[-1].split("#")[0]
                r.bad("%s|local %s|element %d" % (f.qn, n, q), f.where(e), "element %d of %s is read here and no path gives it a value" % (q, n))
        if not f.file.startswith("pcu/"): F.run(f, r.bad); F.tags(f, r.bad)
    r.need("arrays from new[] followed", F.n, 30); r.need("element reads of those arrays", F.nread, 30); r.need("tags followed", F.ntag, 2); r.need("local arrays of fixed size", nfa, 3); r.need("element reads of those", nfr, 5); r.need("array fields of constructed objects", na, 8)
    r.need("constructors analysed", nc, 15); r.need("field obligations", nf, 60); r.need("locals declared without a value", nl, 20)
    r.explain = ("definite-assignment dataflow over constructor control-flow graphs, initialiser lists, base constructors and the object's own methods: every field of "
                 "arithmetic, enumeration, pointer or communicator type that a method may read before assigning it (upward-exposed reads, through its own calls) or that "
                 "other code reads is assigned on every path of every constructor; reaching-undefined dataflow for scalar locals declared without a value; "
                 "arrays from new[]: a store on every path before the first read, the stores together leaving out no element; new tags; constant-size array fields in constructors")

"""Ownership typestate of heap objects, graph iterators and file handles held in locals."""
from agx import *
import phase as ph

ALLOC = {"malloc": "malloc", "calloc": "malloc", "strdup": "malloc", "fopen": "file", "opendir": "dir", "popen": "pipe", "fdopen": "file", "Zoltan_Create": "zoltan"}
FREE = {"free": ("malloc", 0), "fclose": ("file", 0), "closedir": ("dir", 0), "pclose": ("pipe", 0)}
# released through the address of the variable that holds them; what Zoltan_LB_Partition leaves in the caller's variables
AFREE = {"Zoltan_Destroy": (("zoltan", 0),), "Zoltan_LB_Free_Part": tuple(("zlist", n) for n in range(4))}
AALLOC = {"Zoltan_LB_Partition": ("zlist", (5, 6, 7, 8, 10, 11, 12, 13))}
MAYNULL = {"malloc", "file", "dir", "pipe"}
FORM = {"new": "delete", "new[]": "delete[]", "malloc": "free", "file": "fclose", "dir": "closedir", "pipe": "pclose", "zoltan": "Zoltan_Destroy", "zlist": "Zoltan_LB_Free_Part"}
KEEP = {"push_back", "insert", "emplace", "emplace_back", "push_front", "push", "make_pair", "operator=", "pair", "at", "assign", "swap"}


def is_ptr(t):
    t = t.rstrip()
    return t.endswith("*") or t.endswith("*const") or "(*)[" in t or "(*const)[" in t


def is_pref(t):
    u = t.replace("const", "").replace(" ", "")
    return u.endswith("*&") or "(*&)[" in u


class Own:
    CAP = 6000

    def __init__(s, P):
        s.P = P; s.memo = {}; s.viol = {}; s.sites = set(); s.frees = set(); s.nstates = 0; s.active = set(); s.record = False; s.nfun = 0
        s.over = set(); s.at = None; s.arg = None; s.kept = set(); s.back = set()

    def bad(s, f, i, rule, msg, site=None):
        if not s.record: return
        key = "%s|%s|%s" % (f.qn, rule, site if site is not None else (f.text(i) if i is not None else ""))
        s.viol.setdefault(key, (f.where(i), msg))

    # summary: for one function: list of outcomes (tuple per pointer param of (state, newval?), ret)
    def summary(s, fid):
        if fid in s.memo: return s.memo[fid]
        f = s.P.funcs[fid]
        s.memo[fid] = frozenset({(tuple(("own", None) for p in f.params), None)})      # recursion default: borrows
        rec, s.record = s.record, False
        for _ in range(3):
            r = s.run(f)
            if r == s.memo[fid]: break
            s.memo[fid] = r
        s.record = rec
        return s.memo[fid]

    def interesting(s, f):
        """does anything in f touch pointers we could own?"""
        return True

    def val(s, f, i, vm):
        if i is None or i < 0: return None
        i = f.strip(i)
        if ("n", i) in vm: return vm[("n", i)]
        x = f.nodes[i]; k = x["k"]
        if k == "DeclRefExpr": return vm.get(x["d"])
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (k == "IntegerLiteral" and x.get("cv") == 0): return "null"
        if k == "BinaryOperator" and x["op"] == "=": return s.val(f, x["c"][1], vm)
        if k == "BinaryOperator" and x["op"] == ",": return s.val(f, x["c"][1], vm)
        if k == "UnaryOperator" and x["op"] == "&":
            # the address of a member of an object stands for the object (intrusive links)
            y = f.nodes[f.strip(x["c"][0])]
            while y["k"] == "MemberExpr" and y["c"]:
                if y.get("arrow"): return s.val(f, y["c"][0], vm)
                y = f.nodes[f.strip(y["c"][0])]
            return None
        if k == "ConditionalOperator":
            a = [s.val(f, c, vm) for c in x["c"][1:]]
            for v in a:
                if isinstance(v, tuple): return v
            return None
        return None

    def nullness(s, f, c, vm):
        """(var value, sense) of a null test: returns (val, True if condition true means nonnull)"""
        c = f.strip(c); x = f.nodes[c]
        if x["k"] == "UnaryOperator" and x["op"] == "!":
            v, t = s.nullness(f, x["c"][0], vm); return v, not t
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                if s.val(f, x["c"][b], vm) == "null":
                    return s.val(f, x["c"][a], vm), x["op"] == "!="
            return None, True
        if not is_ptr(x["ct"]): return None, True
        return s.val(f, c, vm), True

    def run(s, f):
        s.nfun += 1
        vm0 = {}; rs0 = {}
        for n, p in enumerate(f.params):
            if is_ptr(p["ct"]) or is_pref(p["ct"]):
                vm0[p["d"]] = ("p", n); rs0[("p", n)] = ("own", None)
        st0 = (frozenset(vm0.items()), frozenset(rs0.items()), frozenset())
        IN = defaultdict(set); IN[f.entry].add(st0); wl = deque([f.entry]); done = defaultdict(set); outs = set()
        while wl:
            b = wl.popleft()
            new = IN[b] - done[b]; done[b] |= new
            if len(done[b]) > s.CAP: s.over.add(f.qn); continue
            s.nstates += len(new)
            for st in new:
                cur = [(dict(st[0]), dict(st[1]), dict(st[2]))]
                for e in f.elems(b):
                    nxt = []
                    s.at = (f, e); s.arg = None
                    for vm, rs, kn in cur:
                        if isinstance(e, int): nxt += s.node(f, f.nodes[e], vm, rs, kn)
                        elif e.get("x") == "init" and e.get("v", -1) >= 0 and isinstance(s.val(f, e["v"], vm), tuple):
                            rs = dict(rs); s.escape(s.val(f, e["v"], vm), rs); nxt.append((vm, rs, kn))
                        else: nxt.append((vm, rs, kn))
                    cur = nxt
                succ = f.succ()[b]
                cnd = ph.cond_of(f, b)
                for vm, rs, kn in cur:
                    if b == f.exit:
                        outs |= s.finish(f, vm, rs); continue
                    for n, y in enumerate(succ):
                        vm2, kn2, rs2 = vm, kn, rs
                        if cnd is not None:
                            want = n == 0
                            v, sense = s.nullness(f, cnd, vm)
                            if v == "null" and (want == sense): continue
                            if isinstance(v, tuple) and v[0] != "p" and (want != sense): continue
                            kx = s.ckey(f, cnd)
                            if kx is not None:
                                k, neg = kx
                                w = want != neg
                                if isinstance(k, tuple):        # ("eq", expression, constant)
                                    e = kn.get(k[1])
                                    if e is not None and (e == k[2]) != w: continue
                                    if w and e is None and s.repeated(f, k): kn2 = dict(kn); kn2[k[1]] = k[2]
                                if kn.get(k, w) != w: continue
                                if k not in kn and s.repeated(f, k): kn2 = dict(kn2); kn2[k] = w
                            # a may-be-null parameter tested null owes nothing on that path
                            if isinstance(v, tuple) and v[0] == "p" and want != sense:
                                vm2 = {a: ("null" if z == v else z) for a, z in vm.items()}
                                if rs.get(v, ("",))[0] == "own": rs2 = dict(rs); rs2[v] = ("isnull", None)
                        t = (frozenset(vm2.items()), frozenset(rs2.items()), frozenset(kn2.items()))
                        if t not in IN[y]:
                            IN[y].add(t)
                            if y not in wl: wl.append(y)
        return frozenset(outs)

    def ckey(s, f, c):
        """condition over unmodified locals/fields: (key, negated)"""
        neg = False
        c = f.strip(c); x = f.nodes[c]
        while x["k"] == "UnaryOperator" and x["op"] == "!":
            neg = not neg; c = f.strip(x["c"][0]); x = f.nodes[c]
        st = [c]; sv = simple_vars(f)
        while st:
            j = st.pop(); y = f.nodes[j]
            if y["k"] == "DeclRefExpr":
                if y["d"].startswith("%"):
                    u = [a for a in var_uses(f).get(y["d"], []) if a[0] != "decay"]
                    isp = any(p["d"] == y["d"] for p in f.params)
                    if not (y["d"] in sv and len(u) <= (0 if isp else 1)): return None
            elif y["k"] not in ("MemberExpr", "CXXThisExpr", "ImplicitCastExpr", "BinaryOperator", "IntegerLiteral", "CXXBoolLiteralExpr") \
                    and y["k"] not in CASTS: return None
            if y["k"] == "BinaryOperator" and y["op"] == "=": return None
            st += [z for z in y["c"] if z >= 0]
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            if x["op"] == "!=": neg = not neg
            for a, b in ((0, 1), (1, 0)):
                cv = f.nodes[f.strip(x["c"][b])].get("cv", f.nodes[x["c"][b]].get("cv"))
                if cv is not None: return ("eq", f.key(x["c"][a]), cv), neg
            return "(%s==%s)" % tuple(sorted((f.key(x["c"][0]), f.key(x["c"][1])))), neg
        return f.key(c), neg

    def repeated(s, f, k):
        d = f.__dict__.setdefault("_ck", None)
        if d is None:
            d = defaultdict(int)
            for b in f.succ():
                c = ph.cond_of(f, b)
                if c is not None:
                    kk = s.ckey(f, c)
                    if kk:
                        d[kk[0]] += 1
                        if isinstance(kk[0], tuple): d[kk[0][1]] += 1
            f._ck = d
        return d[k] > 1 or (isinstance(k, tuple) and d[k[1]] > 1)

    def interior(s, f, a):
        x = f.nodes[f.strip(a)]
        return x["k"] == "UnaryOperator" and x["op"] == "&"

    def once_per_loop(s, f, i):
        """the site is guarded by `loop counter == loop-invariant value`: at most one execution per loop"""
        bo = block_of(f); b = bo.get(i)
        if b is None: return False
        h = inner_loop(f, b)
        if h is None: return False
        body = loops(f)[h]
        cd = f.__dict__.get("_cd")
        if cd is None: cd = f._cd = control_deps(f)
        def mods(v):
            return [a for a in var_uses(f).get(v, []) if a[0] != "decay" and bo.get(a[2]) in body]
        for c in cd[b]:
            if c not in body: continue
            n = ph.cond_of(f, c)
            if n is None: continue
            x = f.nodes[f.strip(n)]
            if x["k"] != "BinaryOperator" or x["op"] != "==": continue
            for p, q in ((0, 1), (1, 0)):
                v = f.nodes[f.strip(x["c"][p])]
                if v["k"] != "DeclRefExpr" or not v["d"].startswith("%"): continue
                m = mods(v["d"])
                if len(m) != 1 or m[0][0] != "mod" or f.nodes[m[0][2]].get("op") != "++": continue
                st = [x["c"][q]]; ok = True
                while st:
                    y = f.nodes[st.pop()]
                    if y["k"] in CALLS: ok = False
                    if y["k"] == "DeclRefExpr" and (not y["d"].startswith("%") or mods(y["d"])): ok = False
                    st += [z for z in y["c"] if z >= 0]
                if ok: return True
        return False

    def finish(s, f, vm, rs):
        par = []
        for n, p in enumerate(f.params):
            if ("p", n) in rs:
                nv = None
                if is_pref(p["ct"]):
                    v = vm.get(p["d"])
                    if v != ("p", n): nv = ("fresh", v[2]) if isinstance(v, tuple) and v[0] == "a" else ("null" if v == "null" else "top")
                par.append((rs[("p", n)], nv))
            else: par.append((("own", None), None))
        # leaks
        ret = vm.get("ret")
        esc = set()
        for n, p in enumerate(f.params):
            if is_pref(p["ct"]) and isinstance(vm.get(p["d"]), tuple): esc.add(vm[p["d"]])
        rv = None
        if isinstance(ret, tuple) and ret[0] == "a":
            rv = ("fresh", ret[2], rs.get(ret, ("own", None))[0]); esc.add(ret)
        elif ret == "null": rv = "null"
        elif ret is not None: rv = "other"
        for r, stt in rs.items():
            if r[0] == "a" and stt[0] == "own" and r not in esc and "thrown" not in vm:
                s.bad(f, r[1], "leak", "the %s obtained here is not released on some path to the end of the function" % r[2], f.text(r[1]))
        if "thrown" in vm: return set()
        return {(tuple(par), rv)}

    def free(s, f, i, v, form, vm, rs, what):
        if v == "null" or v is None: return
        s.frees.add((f.id, i))
        st = rs.get(v)
        if st is None: return
        if st[0] == "freed":
            s.bad(f, i, "double-free", "%s releases an object that has already been released" % what)
        elif st[0] == "esc" and v[0] == "a" and s.record: s.back.add((f.id, v[1]))
        if st[0] == "freed": pass
        elif v[0] == "a" and FORM.get(v[2]) != form and form is not None:
            s.bad(f, i, "wrong-release", "object obtained by %s is released by %s" % (v[2], form))
        rs[v] = ("freed", form)

    def released(s, f, i):
        """is this the address of a variable, given to a function that releases or fills it?"""
        p = f.parent.get(i)
        while p is not None and f.nodes[p]["k"] in CASTS: p = f.parent.get(p)
        return p is not None and f.nodes[p].get("qn", "") in (set(AFREE) | set(AALLOC))

    def escape(s, v, rs):
        if isinstance(v, tuple) and v in rs and rs[v][0] == "own":
            rs[v] = ("esc", None)
            f, e = s.at
            if s.record: s.kept.add((f.id, e if isinstance(e, int) else e["d"], v, s.arg))     # who keeps it

    def use(s, f, i, v, rs):
        if isinstance(v, tuple) and rs.get(v, ("",))[0] == "freed":
            s.bad(f, i, "use-after-release", "used after it was released")

    def alloc(s, f, x, kind, vm, rs):
        r = ("a", x["i"], kind)
        s.sites.add((f.id, x["i"]))
        if rs.get(r, ("",))[0] == "own" and not s.once_per_loop(f, x["i"]):
            s.bad(f, x["i"], "leak", "the %s obtained here in an earlier iteration is not released before the next" % kind, f.text(x["i"]))
        for k, v in list(vm.items()):
            if v == r: del vm[k]
        rs[r] = ("own", None); vm[("n", x["i"])] = r

    def node(s, f, x, vm, rs, kn):
        k = x["k"]; i = x["i"]
        one = [(vm, rs, kn)]
        if k == "CXXNewExpr":
            vm = dict(vm); rs = dict(rs)
            # placement new does not allocate
            s.alloc(f, x, "new[]" if x["arr"] else "new", vm, rs)
            return [(vm, rs, kn)]
        if k == "CXXDeleteExpr":
            vm = dict(vm); rs = dict(rs)
            s.free(f, i, s.val(f, x["c"][0], vm), "delete[]" if x["arr"] else "delete", vm, rs, "delete" + ("[]" if x["arr"] else ""))
            return [(vm, rs, kn)]
        if k == "CXXThrowExpr":
            vm = dict(vm); vm["thrown"] = True; return [(vm, rs, kn)]
        if k == "ReturnStmt":
            if x["c"] and x["c"][0] >= 0 and is_ptr(f.cret):
                vm = dict(vm); v = s.val(f, x["c"][0], vm)
                vm["ret"] = v if v is not None else "top"
                if isinstance(v, tuple) and v[0] == "p": rs = dict(rs); s.escape(v, rs)
                if isinstance(v, tuple): s.use(f, i, v, rs)
            return [(vm, rs, kn)]
        if k == "DeclStmt":
            vm = dict(vm); rs = dict(rs)
            for d in x["decls"]:
                if d.get("static"):
                    s.escape(s.val(f, d["init"], vm), rs) if d["init"] >= 0 else None; continue
                if is_ptr(d["ct"]):
                    v = s.val(f, d["init"], vm) if d["init"] >= 0 else None
                    if v is None: vm.pop(d["d"], None)
                    else: vm[d["d"]] = v
                elif d["init"] >= 0 and d["ct"].rstrip().endswith("&") and "*" in d["ct"]:
                    s.escape(s.val(f, d["init"], vm), rs)
            return [(vm, rs, kn)]
        if k == "BinaryOperator" and x["op"] == "=":
            l = f.nodes[f.strip(x["c"][0])]
            v = s.val(f, x["c"][1], vm)
            if not is_ptr(l["ct"]): return one
            vm = dict(vm); rs = dict(rs)
            if l["k"] == "DeclRefExpr" and l["d"].startswith("%"):
                if v is None: vm.pop(l["d"], None)
                else: vm[l["d"]] = v
                vm.pop(("n", i), None)
            else: s.escape(v, rs)
            return [(vm, rs, kn)]
        if k in ("MemberExpr", "ArraySubscriptExpr") or (k == "UnaryOperator" and x["op"] == "*"):
            if x["c"]:
                b = f.nodes[f.strip(x["c"][0])]
                if (k != "MemberExpr" or x.get("arrow")) : s.use(f, i, s.val(f, x["c"][0], vm), rs)
            return one
        if k == "UnaryOperator" and x["op"] == "&":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "DeclRefExpr" and y["d"] in vm and isinstance(vm[y["d"]], tuple) and not s.released(f, i):
                rs = dict(rs); s.escape(vm[y["d"]], rs)
            return [(vm, rs, kn)]
        if k == "InitListExpr" or k == "LambdaExpr":
            rs = dict(rs)
            for c in x["c"]: s.escape(s.val(f, c, vm), rs)
            return [(vm, rs, kn)]
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return s.call(f, x, vm, rs, kn)
        return one

    def call(s, f, x, vm, rs, kn):
        i = x["i"]; n = x.get("n"); args = f.args(x)
        vm = dict(vm); rs = dict(rs)
        vm.pop(("n", i), None)
        q = x.get("qn", "")
        if q in FREE:
            kind, a = FREE[q]
            s.free(f, i, s.val(f, args[a], vm), FORM[kind], vm, rs, q); return [(vm, rs, kn)]
        if q in AFREE or q in AALLOC:
            tab = AFREE.get(q) or tuple((AALLOC[q][0], a) for a in AALLOC[q][1])
            for kind, a in tab:
                if a >= len(args): continue
                y = f.nodes[f.strip(args[a])]
                y = f.nodes[f.strip(y["c"][0])] if y["k"] == "UnaryOperator" and y["op"] == "&" else None
                if y is None or y["k"] != "DeclRefExpr" or not y["d"].startswith("%"): continue
                if q in AFREE:
                    v = vm.get(y["d"])
                    if rs.get(v, ("",))[0] == "freed": continue      # the variable was emptied by the first release
                    s.free(f, i, v, FORM[kind], vm, rs, q); vm[y["d"]] = "null"
                else:
                    s.alloc(f, f.nodes[f.strip(args[a])], kind, vm, rs)
                    r = ("a", f.strip(args[a]), kind); vm[y["d"]] = r
            return [(vm, rs, kn)]
        if q in ALLOC:
            kd = ALLOC[q]
            vm0 = dict(vm); rs0 = dict(rs)
            s.alloc(f, x, kd, vm, rs)
            if kd == "zoltan": return [(vm, rs, kn)]
            vm0[("n", i)] = "null"
            return [(vm, rs, kn), (vm0, rs0, kn)]
        if q == "realloc":
            v = s.val(f, args[0], vm)
            if isinstance(v, tuple): rs[v] = ("freed", "free")
            s.alloc(f, x, "malloc", vm, rs); return [(vm, rs, kn)]
        ts = s.P.targets(f, x)
        o = f.obj(x)
        vals = [s.val(f, a, vm) for a in args]
        for a, v in zip(args, vals): s.use(f, i, v, rs)
        if o is not None and x["k"] == "CXXMemberCallExpr":
            m = f.nodes[x["c"][0]]
            if m.get("arrow"): s.use(f, i, s.val(f, o, vm), rs)
        if not ts:
            # outside the repository: containers keep what they are given, everything else borrows
            keep = n in KEEP or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or x.get("opcall") or (q == "" and not x.get("fn"))
            if keep:
                for v in vals: s.escape(v, rs)
            if x.get("opcall") and x.get("n") == "operator=" : pass
            return [(vm, rs, kn)]
        out = []
        for t in ts:
            for par, rv in s.summary(t.id):
                # an outcome on which the callee found its argument null is impossible for an object we hold
                if any(isinstance(v, tuple) and v[0] == "a" and stt[0] == "isnull" for v, (stt, nv) in zip(vals, par)): continue
                v2 = dict(vm); r2 = dict(rs)
                for n, (a, v, p, (stt, nv)) in enumerate(zip(args, vals, t.params, par)):
                    s.arg = (t.id, n)
                    if isinstance(v, tuple) and v in r2:
                        if stt[0] == "freed" and s.interior(f, a): pass
                        elif stt[0] == "freed": s.free(f, i, v, stt[1], v2, r2, "%s()" % t.name)
                        elif stt[0] == "esc": s.escape(v, r2)
                    if nv is not None:
                        y = f.nodes[f.strip(a)]
                        if y["k"] == "DeclRefExpr":
                            if nv[0] == "fresh":
                                s.sites.add((f.id, i))
                                r = ("a", i, nv[1])
                                if r2.get(r, ("",))[0] == "own":
                                    s.bad(f, i, "leak", "the object obtained here in an earlier iteration is not released before the next", f.text(i))
                                for kk, z in list(v2.items()):
                                    if z == r: del v2[kk]
                                r2[r] = ("own", None); v2[y["d"]] = r
                            elif nv == "null": v2[y["d"]] = "null"
                            else: v2.pop(y["d"], None)
                if isinstance(rv, tuple) and rv[0] == "fresh":
                    s.alloc(f, x, rv[1], v2, r2)
                    if rv[2] == "esc": r2[("a", i, rv[1])] = ("esc", None)
                elif rv == "null": v2[("n", i)] = "null"
                out.append((v2, r2, kn))
        # drop duplicates
        seen = {}; 
        for a, b, c in out: seen[(frozenset(a.items()), frozenset(b.items()))] = (a, b, c)
        return list(seen.values())

    def main(s, flt=None):
        for fid, f in sorted(s.P.funcs.items()):
            s.summary(fid)
        s.record = True
        for fid, f in sorted(s.P.funcs.items()):
            if flt and not flt(f): continue
            s.run(f)

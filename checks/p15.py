"""What may be missing is tested before it is used: iterators against the end, results that may be null, firsts of
collections that may be empty. Forward typestate over every function's control-flow graph."""
from agx import *
import phase as ph
import p13

FIRST = {"front", "back", "top", "pop", "pop_front", "pop_back"}
GROW = {"push_back", "push_front", "push", "insert", "emplace", "emplace_back", "insert_or_assign", "emplace_front"}
SHRINK = {"erase", "clear", "pop", "pop_back", "pop_front", "resize", "swap", "assign", "extract", "merge"}
QUIET = {"size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "count", "at", "reserve", "data", "front", "back", "top",
         "contains", "lower_bound", "upper_bound", "bucket_count", "capacity", "max_size", "rehash", "hash_function"}
ENDS = {"end", "cend", "rend"}
STARTS = {"begin", "cbegin", "rbegin", "lower_bound", "upper_bound", "find"}
NULLSRC = {"fopen", "pcu_fopen_", "freopen", "tmpfile", "opendir", "strchr", "strrchr", "strstr", "getenv", "strtok", "strpbrk"}
TOLERANT = {"free", "fflush", "printf", "setenv"}                       # library functions that accept a null pointer


READS = {"getline", "read", "get", "operator>>", "operator<<", "write", "put", "readsome", "seekg", "ignore", "peek"}


def is_iter(ct):
    c = (ct or "").replace("const ", "").rstrip(" &")
    return any(w in c for w in ("_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator", "_Node_const_iterator", "__normal_iterator",
                                "_List_iterator", "_List_const_iterator", "_Deque_iterator", "_Fwd_list_iterator", "reverse_iterator"))  and not c.startswith("std::pair")


def is_std(ct):
    c = (ct or "").replace("const ", "")
    return c.startswith("std::") and any(w in c for w in ("map<", "set<", "vector<", "list<", "deque<", "queue<", "stack<", "array<", "string", "multiset<"))


def is_stream(ct):
    return any(w in (ct or "") for w in ("std::basic_ifstream<", "std::basic_fstream<", "std::basic_ofstream<"))


def is_ptr(ct):
    return (ct or "").rstrip().endswith("*") or (ct or "").rstrip().endswith("*const")


class Null:
    def __init__(s, P, r):
        s.P = P; s.r = r; s.funs = [f for f in P.funcs.values() if not f.file.startswith("pcu/")]
        s.maynull = {}; s.needs = {}; s.vt = {}; s.en = {}; s.nuse = s.nguard = s.nsrc = 0
        s.mayret()

    # ------------------------------------------------------------- summaries
    def mayret(s):
        """functions that return a null pointer on some path"""
        ch = True; s.maynull = {f.id: False for f in s.P.funcs.values()}
        while ch:
            ch = False; s.needs = {}
            for f in s.P.funcs.values():
                if s.maynull[f.id] or not is_ptr(f.cret): continue
                if s.walk(f, report=False, given=True):
                    s.maynull[f.id] = True; ch = True
        s.needs = {}

    def callees_null(s, f, x, S=(frozenset(), frozenset())):
        """may this call come back with null?"""
        if (x.get("qn") or "").split("::")[-1] in NULLSRC and not x.get("meth"): return True
        for t in s.P.targets(f, x):
            if s.maynull.get(t.id): return not s.counted(f, x)
            if is_ptr(t.cret):
                for n, a in enumerate(f.args(x)):        # null in, null out
                    if is_ptr(f.nodes[f.strip(a)].get("ct")) and s.src(f, a, S)[0] == "may" and n < len(t.params) and s.through(t, n): return True
        return False

    def through(s, t, n):
        k = (t.id, n, "through")
        if k not in s.needs:
            s.needs[k] = False
            s.needs[k] = s.walk(t, report=False, seed=t.params[n]["d"]) in ("returned", "used+returned")
        return s.needs[k]

    def counted(s, f, x):
        """the next element of an iteration that is repeated exactly as often as there are elements"""
        if x.get("n") != "iterate" or not f.args(x): return False
        d = s.base(f, f.args(x)[0])
        if d is None: return False
        bo = block_of(f); b = bo.get(x["i"])
        if b is None: return False
        made = set()
        for u in var_uses(f).get(d, []):
            if u[0] == "def" and u[1] is not None:
                y = s.call(f, u[1])
                if y is None or not f.args(y): return False
                made.add((y.get("n"), rkey(f, f.args(y)[0])))
        h = inner_loop(f, b)
        if h is None: return False
        lb = [l for l in p13.loop_bounds(f) if l["header"] == h]
        if not lb:                           # counted in some other way: not judged here
            return any(s.numeric(f, c) for a in loops(f)[h] for c in s.conds(f, a) if any(y not in loops(f)[h] for y in f.succ()[a]))
        y = s.call(f, lb[0]["bound"]) or s.call(f, s.dig(f, lb[0]["bound"]))
        if y is None or y.get("n") != "degree" or not f.args(y): return True
        op = lb[0]["op"]
        if f.succ()[h] and f.succ()[h][0] not in loops(f)[h]: op = {">=": "<", "==": "!=", ">": "<="}.get(op, "?")   # tested for leaving
        if lb[0]["start"] != 0 or lb[0]["step"] != 1 or op not in ("<", "!="): return False
        return not made or any(k == rkey(f, f.args(y)[0]) for n, k in made if n == "pins") or not any(n == "pins" for n, k in made)

    def numeric(s, f, c):
        x = f.nodes[f.strip(c)]
        return x["k"] == "BinaryOperator" and x["op"] in ("<", "<=", ">", ">=", "!=", "==") and not any(is_ptr(f.nodes[f.strip(a)].get("ct")) for a in x["c"]) and \
            not any(f.nodes[f.strip(a)].get("cv") == 0 and f.nodes[f.strip(b)].get("ct", "").startswith("bool") for a in x["c"] for b in x["c"])

    def dig(s, f, i):
        for _ in range(6):
            i = f.strip(i); x = f.nodes[i]
            if x["k"] == "DeclRefExpr":
                d = init_of(f, x["d"])
                if d is None: return i
                i = d
            else: return i
        return i

    def needs_arg(s, t, n):
        """does the callee use parameter n without testing it first?"""
        k = (t.id, n)
        if k in s.needs: return s.needs[k]
        s.needs[k] = False
        if n < len(t.params) and is_ptr(t.params[n].get("ct")):
            s.needs[k] = s.walk(t, report=False, seed=t.params[n]["d"]).startswith("used")
        return s.needs[k]

    # ------------------------------------------------------------- expressions
    def base(s, f, i):
        """the local variable an expression names, through casts"""
        i = f.strip(i)
        if i is None or i < 0: return None
        x = f.nodes[i]
        while x["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and x["c"]:
            i = f.strip(x["c"][0]); x = f.nodes[i]
        if x["k"] in ("CXXConstructExpr",) and len(x["c"]) == 1 and is_iter(x.get("ct")): return s.base(f, x["c"][0])   # iterator -> const_iterator
        if x["k"] == "DeclRefExpr" and x["d"] in f.vars:
            s.vt[x["d"]] = f.vars[x["d"]].get("ct") or ""; return x["d"]
        if x["k"] == "BinaryOperator" and x["op"] == "=": return s.base(f, x["c"][0])
        if x["k"] == "MemberExpr" and x["c"] and x["dk"] == "Field" and is_ptr(x.get("ct")):
            y = x
            while y["k"] == "MemberExpr" and y["c"]: y = f.nodes[f.strip(y["c"][0])]
            if y["k"] in ("CXXThisExpr", "DeclRefExpr"):
                d = "." + rkey(f, i); s.vt[d] = x["ct"]; return d
        return None

    def stream(s, f, i):
        """the stream variable an expression is, or the one a read from it hands back"""
        for _ in range(8):
            i = f.strip(i); x = f.nodes[i]
            if x["k"] == "DeclRefExpr": return x["d"] if is_stream(f.vars.get(x["d"], {}).get("ct")) and x["d"].startswith("%") else None
            if x["k"] in CALLS and x.get("n") in READS:
                o = f.obj(x)
                i = o if o is not None else f.args(x)[0] if not x.get("opcall") and f.args(x) else x["c"][1] if x.get("opcall") else None
                if i is None: return None
            elif x["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and x["c"]: i = x["c"][0]
            else: return None
        return None

    def asked(s, f, e):
        """is the outcome of this read itself tested?"""
        p = f.parent.get(e) if isinstance(f.parent, dict) else f.parent[e]
        while p is not None and p >= 0:
            x = f.nodes[p]
            if x["k"] in CALLS and x.get("n") in ("operator bool", "operator!", "good", "fail", "bad", "is_open"): return True
            if x["k"] in CASTS or x["k"] in ("ParenExpr", "MemberExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") or x["k"] in CALLS and x.get("n") in READS: p = f.parent.get(p) if isinstance(f.parent, dict) else f.parent[p]
            else: break
        d = s.stream(f, e); bo = block_of(f); a = bo.get(e); seen = set(); wl = [a]   # or tested afterwards
        while wl:
            b = wl.pop()
            for y in f.elems(b):
                if not isinstance(y, int): continue
                z = f.nodes[y]
                if z["k"] in CALLS and z.get("n") in ("operator bool", "operator!", "good", "fail", "bad", "is_open") and (b != a or b in seen or f.elems(b).index(y) > f.elems(b).index(e)):
                    o = f.obj(z)
                    if o is None and z.get("opcall"): o = z["c"][1]
                    if o is not None and s.stream(f, o) == d: return True
            for y in f.succ()[b]:
                if y not in seen: seen.add(y); wl.append(y)
        return False

    def call(s, f, i):
        i = f.strip(i)
        if i is None or i < 0: return None
        x = f.nodes[i]
        for _ in range(6):
            if x["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and x["c"]: x = f.nodes[f.strip(x["c"][0])]
            elif x["k"] == "CXXConstructExpr" and len(x["c"]) == 1 and is_iter(x.get("ct")): x = f.nodes[f.strip(x["c"][0])]
            else: break
        return x if x["k"] in CALLS else None

    def src(s, f, i, S):
        """(state of the value, container key or None): 'may' missing, 'ok', or None (not followed)"""
        M, N = S
        i = f.strip(i)
        if i is None or i < 0: return None, None
        d = s.base(f, i)
        if d is not None:
            for t in M:
                if t[0] == "may" and t[1] == d: return "may", t[2]
            return "ok", None
        x = f.nodes[i]
        if x["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or (x.get("cv") == 0 and x["k"] == "IntegerLiteral"): return "may", "null"
        if x["k"] == "ConditionalOperator":
            a = [s.src(f, c, S) for c in x["c"][1:3]]
            for v in a:
                if v[0] == "may": return v
            return a[0]
        x = s.call(f, i)
        if x is None: return None, None
        o = f.obj(x); n = x.get("n")
        if n in STARTS and o is not None and is_iter(x.get("ct")):
            k = rkey(f, o)
            if n in ("begin", "cbegin", "rbegin") and ("ne", k) in N: return "ok", k
            if n == "find":
                if ("has", k, s.ak(f, x)) in N: return "ok", k
            return "may", k
        if n in ENDS and o is not None and is_iter(x.get("ct")): return "may", rkey(f, o)
        if x.get("opcall") and n in ("operator++", "operator--"):
            return f._p15.get(x["i"], ("ok", None)) if len(x["c"]) > 2 else ("may", s.cont(f, x["c"][1], S))
        if n in ("erase", "next", "prev", "advance") and is_iter(x.get("ct")): return "may", (rkey(f, o) if o is not None else None)
        if is_ptr(x.get("ct")) and s.callees_null(f, x, S): return "may", "call"
        return "ok", None

    def cont(s, f, i, S):
        d = s.base(f, i)
        for t in S[0]:
            if t[1] == d: return t[2]
        return None

    def ak(s, f, x):
        a = f.args(x)
        return rkey(f, a[0]) if a else ""

    # ------------------------------------------------------------- conditions
    def facts(s, f, c, S, depth=0):
        """(facts when true, facts when false): each a set of ('ok',var) ('ne',container) ('has',container,key)"""
        none = (set(), set())
        c = f.strip(c)
        if c is None or c < 0 or depth > 10: return none
        x = f.nodes[c]; k = x["k"]
        if k == "ParenExpr": return s.facts(f, x["c"][0], S, depth + 1)
        if k == "UnaryOperator" and x["op"] == "!":
            t, e = s.facts(f, x["c"][0], S, depth + 1); return e, t
        if k == "BinaryOperator" and x["op"] == "&&":
            a = s.facts(f, x["c"][0], S, depth + 1); b = s.facts(f, x["c"][1], S, depth + 1)
            return a[0] | b[0], a[1] & b[1]
        if k == "BinaryOperator" and x["op"] == "||":
            a = s.facts(f, x["c"][0], S, depth + 1); b = s.facts(f, x["c"][1], S, depth + 1)
            return a[0] & b[0], a[1] | b[1]
        if k == "BinaryOperator" and x["op"] == ",": return s.facts(f, x["c"][1], S, depth + 1)
        if k == "DeclRefExpr" and x.get("ct", "").replace("const ", "") == "bool":
            d = single_def(f, x["d"])
            if d is not None: return s.facts(f, d, S, depth + 1)
            return none
        if is_ptr(x.get("ct")):
            d = s.base(f, c)
            return ({("ok", d)}, set()) if d is not None else none
        op = None
        if k == "BinaryOperator" and x["op"] in ("==", "!=", "<", ">", "<=", ">="): op = x["op"]; a, b = x["c"]
        if k == "CXXOperatorCallExpr" and x.get("n") in ("operator==", "operator!=", "operator<"): op = x["n"][8:]; a, b = x["c"][1:3]
        if k == "CXXRewrittenBinaryOperator" and x["c"]: return s.facts(f, x["c"][0], S, depth + 1)
        if op is None:
            y = s.call(f, c)
            if y is not None and y.get("n") in ("operator bool", "operator!", "is_open", "good", "fail", "bad"):
                o = f.obj(y)
                if o is None and y.get("opcall"): o = y["c"][1]
                d = s.stream(f, o) if o is not None else None
                if d is not None:
                    out = {("ok", d, "*")}
                    return (set(), out) if y["n"] in ("operator!", "fail", "bad") else (out, set())
            if y is not None and y.get("n") == "empty" and f.obj(y) is not None: return set(), {("ne", rkey(f, f.obj(y)))}
            if y is not None and y.get("n") in ("count", "contains") and f.obj(y) is not None:
                o = rkey(f, f.obj(y)); return {("ne", o), ("has", o, s.ak(f, y))}, set()
            if y is not None and y.get("n") in ("size", "length") and f.obj(y) is not None: return {("ne", rkey(f, f.obj(y)))}, set()
            if y is not None:                      # a helper that only returns the test
                return s.helper(f, y, S, depth)
            return none
        for p, q, o2 in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            d = s.base(f, p); vx = f.nodes[f.strip(q)]
            null = vx["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or vx.get("cv") == 0
            if d is not None and is_ptr(s.vt[d]) and null:
                if o2 == "!=": return {("ok", d)}, set()
                if o2 == "==": return set(), {("ok", d)}
            y = s.call(f, p)
            # iterator against the end
            if is_iter(f.nodes[f.strip(p)].get("ct")) or (d is not None and is_iter(s.vt[d])):
                e = s.endof(f, q)
                if e is not None:
                    out = set()
                    if d is not None: out.add(("ok", d, e))
                    if y is not None and f.obj(y) is not None:
                        k2 = rkey(f, f.obj(y))
                        if y.get("n") == "find": out.add(("has", k2, s.ak(f, y)))
                        if y.get("n") in ("begin", "find", "cbegin"): out.add(("ne", k2))
                    if o2 in ("!=", "<"): return out, set()
                    if o2 == "==": return set(), out
            if y is not None and y.get("n") in ("size", "length", "count") and f.obj(y) is not None:
                o = rkey(f, f.obj(y)); fact = {("ne", o)}
                if y["n"] == "count": fact = {("ne", o), ("has", o, s.ak(f, y))}
                v = vx.get("cv")
                if v is None:
                    if o2 == ">": return fact, set()                  # something not negative is below the size
                    continue
                if (o2 == ">" and v >= 0) or (o2 == ">=" and v >= 1) or (o2 == "!=" and v == 0) or (o2 == "==" and v >= 1): return fact, set()
                if (o2 == "<" and 1 >= v > 0) or (o2 == "<=" and v == 0) or (o2 == "==" and v == 0) or (o2 == "<" and v >= 1) or (o2 == "<=" and v >= 0): return set(), fact
                if o2 == "!=" and v >= 1: return set(), fact
            if null:                              # count/test result compared with zero
                t, e = s.facts(f, p, S, depth + 1)
                if f.nodes[f.strip(p)].get("ct", "").replace("const ", "") in ("bool",):
                    if o2 == "==": return e, t
                    if o2 == "!=": return t, e
        return none

    def refused(s, f, b):
        """the path reported an error before it came here: the call itself was wrong"""
        return any(isinstance(e, int) and f.nodes[e].get("qn") == "EnGPar_Error_Message" for e in f.elems(b))

    def helper(s, f, x, S, depth):
        for t in s.P.targets(f, x):
            rs = [y for y in t.reach_nodes() if y["k"] == "ReturnStmt"]
            if len(rs) != 1 or not rs[0]["c"] or t.cret.replace("const ", "") != "bool": return set(), set()
            a = s.facts(t, rs[0]["c"][0], S, depth + 4)
            al = f.args(x); sub = {p["d"]: n for n, p in enumerate(t.params)}
            def conv(F):
                out = set()
                for z in F:
                    if z[0] == "ok" and z[1] in sub and sub[z[1]] < len(al):
                        d = s.base(f, al[sub[z[1]]])
                        if d is not None: out.add(("ok", d) + tuple(["*"] * (len(z) - 2)))
                    if z[0] in ("ne", "has"):
                        w = list(z); okk = True
                        for j in range(1, len(w)):
                            if w[j] in sub and sub[w[j]] < len(al): w[j] = rkey(f, al[sub[w[j]]])
                            elif w[j].startswith("%"): okk = False
                        if okk: out.add(tuple(w))
                return out
            return conv(a[0]), conv(a[1])
        return set(), set()

    def endof(s, f, i, depth=0):
        """the container whose end an expression is"""
        y = s.call(f, i)
        if y is not None and y.get("n") in ENDS and f.obj(y) is not None: return rkey(f, f.obj(y))
        d = s.base(f, i)
        if d is not None and depth < 4:
            u = [a for a in var_uses(f).get(d, []) if a[0] == "def" and a[1] is not None]
            ks = {s.endof(f, a[1], depth + 1) for a in u}
            ks |= {s.endof(f, f.nodes[a[2]]["c"][2], depth + 1) if 0 else None for a in ()}
            if len(ks) == 1: return ks.pop()
        return None

    def tested(s, f):
        """parameters, globals and fields that may be null at entry: optional arguments, and what the function itself tests for null"""
        if f.id in s.en: return s.en[f.id]
        out = set()
        for n, p in enumerate(f.params):
            if is_ptr(p.get("ct")) and any(n < len(j["params"]) and j["params"][n].get("def") for j in s.P.decls.get(f.id, ())):
                out.add(p["d"]); s.vt[p["d"]] = p["ct"]
            ct = p.get("ct") or ""
            if ct.rstrip().endswith("&") and not ct.startswith("const ") and is_iter(ct):      # a cursor the caller keeps
                out.add(p["d"]); s.vt[p["d"]] = ct.rstrip(" &")
        for b in f.succ():
            for c in s.conds(f, b):
                for F in s.facts(f, c, (frozenset(), frozenset())):
                    for z in F:
                        if z[0] != "ok" or len(z) > 2: continue
                        d = z[1]
                        if d in {p["d"] for p in f.params} or d.startswith(".") or f.vars.get(d, {}).get("glob") and d not in ("stdout", "stderr", "stdin"): out.add(d)
        s.en[f.id] = out
        return out

    # ------------------------------------------------------------- the walk
    def walk(s, f, report=True, seed=None, given=False):
        """typestate over f. seed: a parameter taken to be missing at entry.
        returns: with seed, how it is used untested; else whether a missing pointer may be returned
        given: every pointer argument is there"""
        succ = f.succ()
        if not hasattr(f, "_p15"): f._p15 = {}
        init = (frozenset({("may", seed, "arg")} if seed else () if given else {("may", d, None if is_iter(s.vt.get(d)) else "null") for d in s.tested(f)}), frozenset())
        IN = {f.entry: init}; wl = [f.entry]; ret = False; used = False; n = 0
        par = {p["d"] for p in f.params if p["d"] != seed and is_ptr(p.get("ct")) and all(u[0] != "def" for u in var_uses(f).get(p["d"], []))} if given or seed else ()
        while wl:
            b = wl.pop(); n += 1
            if n > 4000: raise Broken("P15: no fixed point in %s" % f.qn)
            S, a, u = s.block(f, b, IN[b], None if not seed else seed)
            ret |= a; used |= u
            cs = s.conds(f, b)
            for k, y in enumerate(succ[b]):
                T = S
                F = [s.facts(f, c, S) for c in cs]
                # a way out that is taken only when an argument is null, though it is there
                if len(F) == 1 and any(("ok", p) in F[0][1 - k] and len(F[0][1 - k]) == 1 for p in par): continue
                for w in F: T = s.refine(f, T, w[k])
                if y in IN:
                    new = (IN[y][0] | T[0], IN[y][1] & T[1])
                    if new == IN[y]: continue
                    IN[y] = new
                else: IN[y] = T
                wl.append(y)
        if report:
            for b in IN: s.block(f, b, IN[b], None, report=True)
        if seed: return "+".join(w for w, v in (("used", used), ("returned", ret)) if v)
        return ret

    def conds(s, f, b):
        """the expressions whose truth decides which way block b is left"""
        B = f.blocks[b]; c = ph.cond_of(f, b)
        if c is None: return []
        if B.get("tk") == "BinaryOperator": return [c]
        w = f.strip(B["cond"])
        if w == c: return [c]
        # a short circuit that was joined before the branch (temporaries): only the whole expression is known
        return [w, c] if c in B["e"] or any(f.strip(e) == c for e in B["e"] if isinstance(e, int)) else [w]

    def refine(s, f, S, F):
        M, N = set(S[0]), set(S[1])
        for z in F:
            if z[0] == "ok":
                for t in list(M):
                    if t[1] == z[1] and (len(z) == 2 or z[2] == "*" or t[2] is None or t[2] == z[2] or t[2] == "arg" or not s.cmpable(t[2], z[2])): M.discard(t)
            else: N.add(z)
        return frozenset(M), frozenset(N)

    def cmpable(s, a, b):
        """two container names that can be told apart"""
        return isinstance(a, str) and isinstance(b, str) and all(("(" not in z and "*" not in z) for z in (a, b))

    def setv(s, M, d, v, c):
        M = {t for t in M if t[1] != d}
        if v == "may": M.add(("may", d, c))
        return M

    def block(s, f, b, S, seed, report=False):
        M, N = set(S[0]), set(S[1]); ret = used = False
        vu = var_uses(f)

        def missing(i):
            v, c = s.src(f, i, (M, N))
            return v == "may", c

        def promised(i):
            """a getter that only looks up what it was asked for: that it is there is the caller's part"""
            y = s.call(f, i) or s.call(f, s.dig(f, i))
            if y is None or y.get("n") != "find" or not f.args(y) or f.cret in ("void", "bool") or not f.const: return False
            k = s.base(f, f.args(y)[0])
            if k not in {p["d"] for p in f.params} or any(u[0] in ("def", "mod") for u in vu.get(k, [])): return False
            return not any(ph.cond_of(f, z) is not None for z in f.succ())

        def use(i, at, how):
            nonlocal used
            i2 = f.strip(i); d = s.base(f, i)
            if report: s.nuse += 1
            v, c = missing(i)
            if v:
                if d is not None and d == seed: used = True
                if report and c != "arg" and not promised(i):
                    what = f.text(i2)
                    s.r.bad("%s|%s|%s" % (f.qn, how, what), f.where(at), "%s is %s although it may be %s" % (what, how, "null" if is_ptr(f.nodes[i2].get("ct")) else "the end (nothing found, or nothing there)"))

        def first(o, at, n):
            if report: s.nuse += 1
            k = rkey(f, o)
            if ("ne", k) not in N and report and not k.startswith("<") :
                s.r.bad("%s|%s|%s" % (f.qn, n, f.text(o)), f.where(at), "%s() of %s, which may be empty" % (n, f.text(o)))

        for e in f.elems(b):
            if not isinstance(e, int): continue
            x = f.nodes[e]; k = x["k"]
            if k == "DeclStmt":
                for d in x["decls"]:
                    ct = f.vars.get(d["d"], {}).get("ct", "")
                    if is_stream(ct):
                        M = s.setv(M, d["d"], "may", "stream"); s.vt[d["d"]] = ct
                        if report: s.nsrc += 1
                        continue
                    if not (is_iter(ct) or is_ptr(ct)):
                        N -= {z for z in N if any(d["d"] in str(w) for w in z[1:])}; continue
                    if d["init"] >= 0:
                        v, c = s.src(f, d["init"], (M, N))
                        if is_iter(ct) and f.nodes[f.strip(d["init"])]["k"] == "CXXConstructExpr" and not f.nodes[f.strip(d["init"])]["c"]: v, c = "may", None
                        if v == "may" and report: s.nsrc += 1
                        M = s.setv(M, d["d"], v, c)
                continue
            if k == "BinaryOperator" and x["op"] == "=":
                d = s.base(f, x["c"][0])
                lx = f.nodes[f.strip(x["c"][0])]
                if d is not None and lx["k"] in ("DeclRefExpr", "MemberExpr"):
                    M = {t for t in M if not t[1].startswith("." + d + ".")}
                    N = {z for z in N if not any(d in str(w) for w in z[1:])}
                    if is_ptr(s.vt[d]):
                        v, c = s.src(f, x["c"][1], (M, N))
                        if d.startswith(".") and c == "null": v = None
                        M = s.setv(M, d, v, c)
                        if v == "may" and report: s.nsrc += 1
                continue
            if k == "UnaryOperator" and x["op"] in ("++", "--"):
                d = s.base(f, x["c"][0])
                if d is not None: N = {z for z in N if not any(d in str(w) for w in z[1:])}
                continue
            if k == "UnaryOperator" and x["op"] == "&":
                d = s.base(f, x["c"][0])
                if d is not None and d == seed and "Graph" in s.vt[d]: used = True
                if d is not None: M = s.setv(M, d, None, None)
                continue
            if k == "UnaryOperator" and x["op"] == "*": use(x["c"][0], e, "dereferenced"); continue
            if k in CASTS and x.get("ck") == "PointerToIntegral": use(x["c"][0], e, "taken apart"); continue
            if k == "CXXDeleteExpr": continue
            if k == "ArraySubscriptExpr" and (s.base(f, x["c"][0]) or "").startswith("."): continue
            if k == "ArraySubscriptExpr": use(x["c"][0], e, "indexed"); continue
            if k == "MemberExpr" and x.get("arrow") and x["c"]:
                y = s.call(f, x["c"][0])
                if y is None or y.get("n") != "operator->": use(x["c"][0], e, "dereferenced")
                continue
            if k == "ReturnStmt":
                if x["c"] and is_ptr(f.cret):
                    v, c = missing(x["c"][0])
                    if v and not s.refused(f, b): ret = True
                continue
            if k not in CALLS: continue
            nm = x.get("n"); o = f.obj(x)
            if nm in READS or nm in ("open", "close"):
                d = s.stream(f, e) if nm in READS else s.stream(f, o) if o is not None else None
                if d is not None:
                    if report: s.nuse += 1
                    if nm in ("open", "close"): M = s.setv(M, d, "may", "stream")
                    elif ("may", d, "stream") in M and not s.asked(f, e) and report:
                        s.r.bad("%s|%s|%s" % (f.qn, nm, d), f.where(e), "%s of %s, which may not be open, and the outcome is not tested" % (nm, f.vars[d].get("n") or d))
                    continue
            if x.get("opcall"):
                ops = x["c"][1:]
                if nm in ("operator*", "operator->") and ops and is_iter(f.nodes[f.strip(ops[0])].get("ct")):
                    use(ops[0], e, "dereferenced"); continue
                if nm in ("operator++", "operator--") and ops and is_iter(f.nodes[f.strip(ops[0])].get("ct")):
                    d = s.base(f, ops[0])
                    if d is not None:
                        c = s.cont(f, ops[0], (M, N)); f._p15[e] = s.src(f, ops[0], (M, N))
                        M = s.setv(M, d, "ok" if nm == "operator--" else "may", c)
                    continue
                if nm == "operator=" and ops:
                    d = s.base(f, ops[0])
                    if d is not None:
                        N = {z for z in N if not any(d in str(w) for w in z[1:])}
                        if is_iter(s.vt[d]):
                            v, c = s.src(f, ops[1], (M, N)); M = s.setv(M, d, v, c)
                            if v == "may" and report: s.nsrc += 1
                    continue
                if nm == "operator[]" and o is not None and "map<" in (f.nodes[f.strip(o)].get("ct") or ""):
                    N.add(("ne", rkey(f, o))); N.add(("has", rkey(f, o), s.ak(f, x)))
                continue
            # methods of containers
            if o is not None and is_std(f.nodes[f.strip(o)].get("ct")):
                K = rkey(f, o)
                if nm in FIRST: first(o, e, nm)
                if nm in SHRINK:
                    N = {z for z in N if z[1] != K}
                    if nm == "erase":
                        a = f.args(x)
                        d = s.base(f, a[0]) if a else None
                        if a and d is not None and is_iter(s.vt[d]): use(a[0], e, "erased")
                        if d is not None and is_iter(s.vt[d]): M = s.setv(M, d, "may", K)
                if nm in GROW:
                    N.add(("ne", K))
                    for a in f.args(x):
                        if (f.nodes[f.strip(a)].get("ct") or "").replace("const ", "") in ("agi::GraphVertex *", "agi::GraphEdge *"): use(a, e, "kept")
            elif x["k"] != "CXXOperatorCallExpr":
                # every other call: arguments that must be there; what it may change
                ts = s.P.targets(f, x); al = f.args(x)
                for n, a in enumerate(al):
                    ax = f.nodes[f.strip(a)]
                    if is_ptr(ax.get("ct")) and ax["k"] not in ("GNUNullExpr", "CXXNullPtrLiteralExpr", "IntegerLiteral"):
                        ok = True
                        if ts: ok = not any(s.needs_arg(t, n) for t in ts)
                        elif x.get("fn") or x.get("qn"): ok = nm in TOLERANT or s.call(f, a) is not None and not s.callees_null(f, s.call(f, a))
                        if not ok: use(a, e, "passed to " + (nm or "a function"))
            # by-reference arguments and mutated containers
            for n, a in enumerate(f.args(x)):
                d = s.base(f, a)
                ai = f.strip(a)
                ref = s.byref(f, x, n)
                if d is not None and is_iter(s.vt[d]) and ref: M = s.setv(M, d, "may", None)
                if d is not None and is_ptr(s.vt[d]) and ref: M = s.setv(M, d, None, None)
                if ref: N = {z for z in N if z[1] != rkey(f, a)}
        return (frozenset(M), frozenset(N)), ret, used

    def byref(s, f, x, n):
        for t in s.P.targets(f, x):
            if n < len(t.params):
                ct = t.params[n].get("ct", "")
                return ct.rstrip().endswith("&") and not ct.startswith("const ")
        return False


def run(P, r, tier):
    A = Null(P, r)
    for f in sorted(A.funs, key=lambda z: z.id): A.walk(f)
    r.need("uses of pointers and iterators, each judged at its place", A.nuse, 1000)
    r.need("assignments of values that may be missing", A.nsrc, 40)
    r.count("functions analysed", len(A.funs))
    r.need("functions that may answer null", sum(A.maynull.values()), 3)
    r.listing["functions that may return null"] = sorted({P.funcs[i].qn for i, v in A.maynull.items() if v})
    r.explain = ("forward typestate over every function's control-flow graph: what a search, the first or next of an iteration, the opening of a file, an optional argument or a function that may answer null "
                 "gives counts as missing until a test of it on the path (against the end of the same collection, against null, by count or size) says otherwise; dereferencing, indexing, keeping it or handing it to "
                 "a function that uses that argument untested is a violation")
    r.assume = ["an iteration advanced exactly as often as the degree says always yields an element",
                "a const getter that only looks its key up is asked for keys that are there",
                "two paths into a place are both possible (branches on unrelated values are not correlated)"]

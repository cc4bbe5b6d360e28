"""P08: formatted output agrees with its arguments and stays inside its buffer; fixed-size storage is used within its extent."""
import re, math
import agx
from agx import *

INF = math.inf
STD = {"printf": 0, "vprintf": 0, "fprintf": 1, "vfprintf": 1, "sprintf": 1, "vsprintf": 1, "snprintf": 2, "vsnprintf": 2, "dprintf": 1}
VARF = ("vprintf", "vfprintf", "vsprintf", "vsnprintf")
WRITERS = {"sprintf": "fmt", "vsprintf": "fmt", "snprintf": "nfmt", "vsnprintf": "nfmt", "strcpy": "cpy", "strcat": "cat", "strncpy": "ncpy", "memcpy": "mem", "memset": "mem", "memmove": "mem"}
CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|L|j|z|t|q)?([a-zA-Z%])")
WID = {"bool": 4, "char": 4, "signed char": 4, "unsigned char": 4, "short": 4, "unsigned short": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
SZ = dict(WID, bool=1, char=1, short=2, double=8, float=4); SZ["signed char"] = SZ["unsigned char"] = 1; SZ["unsigned short"] = 2


def bare(t): return re.sub(r"\b(const|volatile)\b ?", "", t).strip()
def chararr(t):
    m = re.match(r"^(?:const )?(?:unsigned |signed )?char ?\[(\d+)\]$", t)
    return int(m.group(1)) if m else None
def ptrtype(t): return bare(t).endswith("*") or bare(t).endswith("]") or "(*)" in t


def literals(f, i):
    """the string literals an expression can denote, or None"""
    x = f.nodes[f.strip(i)]
    if x["k"] == "StringLiteral": return [(x.get("v", ""), chararr(x["ct"]))]
    if x["k"] == "PredefinedExpr": return [("", chararr(x["ct"]) or 64)]
    if x["k"] == "ConditionalOperator":
        a, b = literals(f, x["c"][1]), literals(f, x["c"][2])
        return a + b if a and b else None
    if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
        d = single_def(f, x["d"])
        if d is not None and ptrtype(f.vars[x["d"]]["ct"]): return literals(f, d)
        # several literals assigned
        u = var_uses(f).get(x["d"], [])
        if u and x["d"] not in {p["d"] for p in f.params} and all(a[0] == "def" for a in u):
            out = []
            for a in u:
                if a[1] is None: continue
                if f.nodes[f.strip(a[1])]["k"] != "StringLiteral": return None
                out += literals(f, a[1])
            return out or None
    return None


def variadics(P):
    """functions with `...`: id -> index of their format parameter"""
    out = {}
    for f in P.funcs.values():
        for x in f.nodes:
            if x and x["k"] in CALLS and "va_start" in x.get("n", ""):
                k = len(f.params) - 1
                if k >= 0 and "char" in f.params[k]["ct"] and "*" in f.params[k]["ct"]: out[f.id] = k
    return out


class Check:
    def __init__(s, P, r, bits):
        s.P = P; s.r = r; s.bits = bits; s.var = variadics(P); s.ne = s.nf = s.nc = s.nb = s.nw = s.na = s.nm = 0
        s.need = {}; s.ptext = {}; s.active = set()

    # ------------------------------------------------------------- formats
    def fmt_index(s, f, x):
        n = x.get("n", "")
        if n in STD and not s.P.targets(f, x): return STD[n]
        t = s.P.funcs.get(x.get("fn"))
        if t is not None and t.id in s.var: return s.var[t.id]
        return None

    def conversions(s, v):
        """(conversion, length, argument count) list, or None for a malformed format"""
        out = []; i = 0
        while True:
            i = v.find("%", i)
            if i < 0: return out
            m = CONV.match(v, i)
            if not m: return None
            out.append(m); i = m.end()

    def ok(s, m, t, f, a):
        """does an argument of type t fit conversion m"""
        c, l = m.group(5), m.group(4) or ""
        t = bare(t)
        if c in "diuxXo":
            if t.startswith("enum ") or t in s.P.enums: w = 4
            else: w = WID.get(t)
            if w is None: return False
            return w == (8 if l in ("l", "ll", "j", "z", "t", "q") else 4)
        if c == "c": return WID.get(t) == 4
        if c in "fFeEgGaA": return t == ("long double" if l == "L" else "double")
        if c == "s": return t in ("char *", "unsigned char *", "signed char *") or chararr(t) is not None
        if c == "p": return ptrtype(t)
        return False

    def formats(s):
        for f in sorted(s.P.funcs.values(), key=lambda z: z.id):
            pd = {p["d"] for p in f.params}
            va = f.id in s.var or any("va_list" in p["ct"] or "va_list" in p["t"] for p in f.params)
            for x in f.calls():
                k = s.fmt_index(f, x)
                if k is None: continue
                A = f.args(x)
                if k >= len(A): continue
                s.nf += 1; name = x.get("n")
                L = literals(f, A[k])
                if L is None:
                    y = f.nodes[f.strip(A[k])]
                    root = s.root(f, A[k])
                    if va: continue
                    if y["k"] == "DeclRefExpr" and y["d"] in pd:
                        s.r.bad("%s|%s|format" % (f.qn, name), f.where(x["i"]), "the caller's text %s is used as a format: a percent sign in it is taken for a conversion" % f.text(A[k])); continue
                    if root and chararr(f.vars.get(root, {}).get("ct", "")) is not None:
                        p = s.tainted(f, root)
                        if p: s.r.bad("%s|%s|format" % (f.qn, name), f.where(x["i"]), "%s is used as a format, and %s" % (f.text(A[k]), p))
                        continue
                    w = s.strtext(f, A[k])
                    if w is True: continue
                    if w: s.r.bad("%s|%s|format" % (f.qn, name), f.where(x["i"]), "%s is used as a format: a percent sign in %s is taken for a conversion" % (f.text(A[k])[:80], w)); continue
                    s.r.undecided("%s|%s|format" % (f.qn, name), f.where(x["i"]), "the format %s is not a literal" % f.text(A[k])); continue
                if name in VARF: continue
                for v, _ in L:
                    cs = s.conversions(v)
                    if cs is None:
                        s.r.bad("%s|%s|%s" % (f.qn, name, v[:40]), f.where(x["i"]), "the format %r holds a malformed conversion" % v); continue
                    j = k + 1; bad = None
                    for m in cs:
                        if m.group(5) == "%": continue
                        for st in (m.group(2), m.group(3)):
                            if st == "*":
                                if j >= len(A): bad = "fewer arguments than conversions"; break
                                if WID.get(bare(f.nodes[A[j]]["ct"])) != 4: bad = "a * width takes an int, not %s" % f.nodes[A[j]]["ct"]
                                j += 1
                        if j >= len(A): bad = "%s has no argument" % m.group(0); break
                        s.nc += 1
                        t = f.nodes[A[j]]["ct"]
                        if not s.ok(m, t, f, A[j]): bad = "%s prints %s, of type %s" % (m.group(0), f.text(A[j])[:60], f.nodes[f.strip(A[j])]["t"] if bare(f.nodes[f.strip(A[j])]["ct"]) == bare(t) else t); break
                        j += 1
                    if not bad and j < len(A): bad = "%d argument(s) have no conversion" % (len(A) - j)
                    if bad: s.r.bad("%s|%s|%s" % (f.qn, name, v[:40]), f.where(x["i"]), "%s%s" % (bad, "" if s.bits == "int32" else " (64-bit local ids)"))

    def strtext(s, f, i, seen=None):
        """True: built of percent-free literals and numbers; text: the part that comes from outside; None: unknown"""
        seen = seen if seen is not None else set()
        x = f.nodes[f.strip(i)]; k = x["k"]
        if k == "StringLiteral": return True if "%" not in x.get("v", "") else None
        if k in ("IntegerLiteral", "CharacterLiteral", "FloatingLiteral"): return True
        if k in ("CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXConstructExpr", "CXXTemporaryObjectExpr", "ConditionalOperator") or (k in CALLS and x.get("n") == "operator+"):
            cs = [c for c in (x["c"][1:] if k == "ConditionalOperator" or k in CALLS else x["c"]) if c >= 0 and f.nodes[c]["k"] != "CXXDefaultArgExpr"]
            rs = [s.strtext(f, c, seen) for c in cs]
            for z in rs:
                if z is not True and z is not None: return z
            return True if all(z is True for z in rs) else None
        if k in CALLS:
            n = x.get("n", "")
            if n in ("c_str", "data", "str"): return s.strtext(f, f.obj(x), seen)
            if n == "to_string": return True
            return None
        if k == "DeclRefExpr":
            if x["d"] in {p["d"] for p in f.params}: return "the parameter " + x["n"]
            if x["d"] in seen: return True
            seen.add(x["d"])
            rs = []
            for u in f.reach_nodes():
                if u["k"] == "DeclStmt":
                    for d in u["decls"]:
                        if d["d"] == x["d"] and d["init"] >= 0: rs.append(s.strtext(f, d["init"], seen))
                if u["k"] in CALLS and u.get("meth") and u.get("n") in ("operator=", "operator+=", "append", "assign"):
                    o = f.nodes[f.strip(f.obj(u))]
                    if o["k"] == "DeclRefExpr" and o["d"] == x["d"]:
                        for a in f.args(u)[:1]: rs.append(s.strtext(f, a, seen))
            for z in rs:
                if z is not True and z is not None: return z
            return True if rs and all(z is True for z in rs) else None
        if k == "MemberExpr" and x.get("dk") == "Field": return "the field " + x["n"]
        return None

    def root(s, f, i):
        """the local char buffer an expression points into"""
        x = f.nodes[f.strip(i)]; seen = set()
        while True:
            if x["k"] == "DeclRefExpr":
                if chararr(f.vars.get(x["d"], {}).get("ct", "")) is not None: return x["d"]
                if x["d"] in seen or not x["d"].startswith("%"): return None
                seen.add(x["d"])
                ds = [a[1] for a in var_uses(f).get(x["d"], []) if a[0] == "def" and a[1] is not None]
                rs = {s.root(f, d) for d in ds if f.strip(d) != x["i"] and s.names(f, d).isdisjoint({x["d"]})}
                return rs.pop() if len(rs) == 1 else None
            if x["k"] == "UnaryOperator" and x["op"] == "&":
                x = f.nodes[f.strip(x["c"][0])]
                if x["k"] == "ArraySubscriptExpr": x = f.nodes[f.strip(x["c"][0])]
                continue
            if x["k"] == "BinaryOperator" and x["op"] in "+-": x = f.nodes[f.strip(x["c"][0])]; continue
            return None

    def names(s, f, i):
        out = set(); st = [i]
        while st:
            x = f.nodes[st.pop()]
            if x["k"] == "DeclRefExpr": out.add(x["d"])
            st += [c for c in x["c"] if c >= 0]
        return out

    def tainted(s, f, root):
        """why the text of a local buffer may hold a percent sign"""
        for x in f.calls():
            A = f.args(x); n = x.get("n", "")
            for k, a in enumerate(A):
                if s.root(f, a) != root: continue
                if n in ("sprintf", "snprintf") and k == 0:
                    L = literals(f, A[STD[n]])
                    if not L: return "it is written from a format unknown here"
                    for v, _ in L:
                        for m in s.conversions(v) or []:
                            if m.group(5) == "%": return "%r writes a percent sign to it" % v
                            if m.group(5) == "s" and not all(literals(f, b) and not any("%" in l for l, _ in literals(f, b)) for b in A[STD[n] + 1:] if ptrtype(f.nodes[b]["ct"])):
                                return "%r copies text into it that may hold a percent sign" % v
        return None

    # ------------------------------------------------------------- bounds of integers
    def const(s, f, i):
        x = f.nodes[i]
        if x.get("cv") is not None: return int(x["cv"])
        x = f.nodes[f.strip(i)]
        if x.get("cv") is not None: return int(x["cv"])
        if x["k"] == "DeclRefExpr":
            d = single_def(f, x["d"]) if x["d"].startswith("%") else None
            if d is not None: return s.const(f, d)
            g = s.P.gvars.get(x["d"])
            if g and g.get("iv") is not None and not s.changed().get(x["d"]): return int(g["iv"])
        if x["k"] == "MemberExpr" and x.get("dk") == "Field":
            ws = s.changed().get(x["d"], ())
            if len(ws) == 1 and ws[0][1] is not None and s.P.funcs[ws[0][0]].ctor and x["d"] not in s.folding:
                s.folding.add(x["d"])
                try: return s.const(s.P.funcs[ws[0][0]], ws[0][1])
                finally: s.folding.discard(x["d"])
        if x["k"] == "BinaryOperator" and x["op"] in ("+", "-", "*"):
            a, b = s.const(f, x["c"][0]), s.const(f, x["c"][1])
            if a is not None and b is not None: return a + b if x["op"] == "+" else a - b if x["op"] == "-" else a * b
        return None

    folding = set()

    def changed(s):
        """where fields and globals are written: variable -> [(function, value or None when it is not a plain store)]"""
        if not hasattr(s, "_chg"):
            s._chg = defaultdict(list)
            for f in s.P.funcs.values():
                for x in f.nodes:
                    if x is None or x["k"] not in ("MemberExpr", "DeclRefExpr"): continue
                    d = x["d"]
                    if d.startswith("%") or x.get("dk") not in ("Field", "Var"): continue
                    p = f.parent.get(x["i"]); px = f.nodes[p] if p is not None else None
                    if px is None: s._chg[d].append((f.id, None)); continue
                    if px["k"] == "ImplicitCastExpr" and px.get("ck") == "LValueToRValue": continue
                    if px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == x["i"]: s._chg[d].append((f.id, px["c"][1])); continue
                    s._chg[d].append((f.id, None))
                for b in f.succ():
                    for e in f.elems(b):
                        if isinstance(e, dict) and e.get("x") == "init" and e.get("v", -1) >= 0 and e.get("d"): s._chg[e["d"]].append((f.id, e["v"]))
        return s._chg

    def maxtypes(s):
        if not hasattr(s, "_mt"):
            s._mt = None
            for rec in s.P.recs.values():
                if rec["rec"] == "agi::PNgraph":
                    for fl in rec["fields"]:
                        m = re.search(r"\[(\d+)\]$", fl["ct"])
                        if fl["n"] == "edge_list" and m: s._mt = int(m.group(1))
            if s._mt is None: raise Broken("anchor vanished: agi::PNgraph::edge_list of fixed extent")
        return s._mt

    def upper(s, f, i, depth=0):
        """greatest value of an integer expression: (value, 'ok'|'unk'); INF when it grows with the data"""
        c = s.const(f, i)
        if c is not None: return c
        x = f.nodes[f.strip(i)]; k = x["k"]
        if depth > 6: return None
        if k in CALLS:
            n = x.get("n", "")
            if n == "numEdgeTypes": return s.maxtypes()
            if n in ("PCU_Max_Int", "PCU_Min_Int", "PCU_Max_Long", "PCU_Min_Long") and f.args(x): return s.upper(f, f.args(x)[0], depth + 1)
            if n in ("PCU_Comm_Peers", "size", "numLocalVtxs", "numLocalEdges", "numGhostVtxs", "numTotalVtxs", "numGlobalVtxs", "numGlobalEdges", "numLocalPins", "length", "PCU_Comm_Self"): return INF
            return None
        if k == "MemberExpr":
            if x["n"] == "num_types": return s.maxtypes()
            if x["n"] in ("num_local_verts", "num_ghost_verts", "num_global_verts"): return INF
            return None
        if k == "ArraySubscriptExpr":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "MemberExpr" and y["n"] in ("num_local_edges", "num_local_pins", "num_global_edges", "num_global_pins"): return INF
            return None
        if k == "BinaryOperator" and x["op"] in ("+", "-", "*"):
            a, b = s.upper(f, x["c"][0], depth + 1), s.const(f, x["c"][1])
            if a is None or b is None: return None
            if x["op"] == "*" and b <= 0: return None
            return a + b if x["op"] == "+" else a - b if x["op"] == "-" else a * b
        if k == "BinaryOperator" and x["op"] == "%":
            b = s.upper(f, x["c"][1], depth + 1)
            return b - 1 if b and b != INF else None
        if k == "ConditionalOperator":
            a, b = s.upper(f, x["c"][1], depth + 1), s.upper(f, x["c"][2], depth + 1)
            return None if a is None or b is None else max(a, b)
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            d = single_def(f, x["d"])
            if d is not None: return s.upper(f, d, depth + 1)
            p = [j for j, q in enumerate(f.params) if q["d"] == x["d"]]
            if p and not var_uses(f).get(x["d"]) and f.id not in s.active:
                # all callers
                s.active.add(f.id)
                try:
                    best = None
                    if f.ext and not f.static and f.acc == "public": return None
                    for g in s.P.funcs.values():
                        for y in g.calls():
                            if f.id in [t.id for t in s.P.targets(g, y)]:
                                A = g.args(y)
                                if p[0] >= len(A): return None
                                v = s.upper(g, A[p[0]], depth + 1)
                                if v is None: return None
                                best = v if best is None else max(best, v)
                    return best
                finally: s.active.discard(f.id)
        return None

    def loopvar(s, f, h):
        """counting loop at header h: (variable, first value node, bound node, relation) or None"""
        c = f.blocks[h].get("cond")
        if c is None: return None
        for j in s.conj(f, c):
            x = f.nodes[j]
            if x["k"] != "BinaryOperator" or x["op"] not in ("<", "<=", "!=", ">", ">="): continue
            a, b, op = x["c"][0], x["c"][1], x["op"]
            if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
            v = f.nodes[f.strip(a)]
            if v["k"] != "DeclRefExpr" or not v["d"].startswith("%"): continue
            body = loops(f)[h]; bo = block_of(f)
            ins = [u for u in var_uses(f).get(v["d"], []) if bo.get(u[2]) in body and u[0] != "decay"]
            out = [u for u in var_uses(f).get(v["d"], []) if bo.get(u[2]) not in body]
            if not ins or any(u[0] != "mod" for u in ins): continue
            ok = True
            for u in ins:
                y = f.nodes[u[2]]
                if y["k"] == "UnaryOperator" and y["op"] == "++": continue
                if y["k"] == "CompoundAssignOperator" and y["op"] == "+=" and (s.const(f, y["c"][1]) or 0) > 0: continue
                ok = False
            if ok: return v["d"], [u for u in out], b, op, [u[2] for u in ins]
        return None

    def conj(s, f, c):
        x = f.nodes[f.strip(c)]
        if x["k"] == "BinaryOperator" and x["op"] == "&&": return s.conj(f, x["c"][0]) + s.conj(f, x["c"][1])
        return [f.strip(c)]

    def trips(s, f, h):
        """greatest number of iterations: number, INF (grows with the data) or None (unknown)"""
        lv = s.loopvar(f, h)
        if lv:
            v, out, b, op, mods = lv
            u = s.upper(f, b)
            lo = [s.const(f, o[1]) for o in out if o[0] == "def" and o[1] is not None]
            if u is None: return None
            if u == INF: return INF
            if not lo or None in lo: return None
            return max(0, u - min(lo) + (1 if op == "<=" else 0))
        c = f.blocks[h].get("cond")
        if c is not None:
            st = [c]
            while st:
                x = f.nodes[st.pop()]
                if x["k"] in CALLS and x.get("n") in ("iterate", "PCU_Comm_Receive", "PCU_Comm_Listen", "PCU_Comm_Unpacked", "operator!="): return INF
                st += [y for y in x["c"] if y >= 0]
        return None

    # ------------------------------------------------------------- text buffers
    def length(s, f, fm, A, k, st):
        """most characters a format writes: (count, exact known?)"""
        n = 0; unk = False; j = k + 1; i = 0
        cs = s.conversions(fm)
        if cs is None: return 0, True
        n = len(re.sub(CONV, "", fm))
        for m in cs:
            c = m.group(5)
            if c == "%": n += 1; continue
            w = int(m.group(2)) if m.group(2) and m.group(2) != "*" else 0
            p = int(m.group(3) or 0) if m.group(3) is not None and m.group(3) != "*" else None
            for z in (m.group(2), m.group(3)):
                if z == "*": j += 1; unk = True
            if j >= len(A): unk = True; continue
            a = A[j]; j += 1
            if c in "diuxXo":
                t = bare(f.nodes[a]["ct"]); cv = s.const(f, a)
                lo, hi = s.index(f, a, A[-1]) if cv is None else (cv, cv)
                e = max(len(str(lo)), len(str(hi))) if lo is not None and hi not in (None, INF) else (20 if WID.get(t) == 8 else 11)
                if p: e = max(e, p + 1)
            elif c == "c": e = 1
            elif c in "fF": e = 17 + (6 if p is None else p) + (1 if p != 0 else 0)
            elif c in "eEgGaA": e = 8 + (6 if p is None else p)
            elif c == "p": e = 18
            elif c == "s":
                e, un = s.text_len(f, a, st)
                if p is not None: e = min(e, p); un = False
                unk = unk or un
            else: e = 0
            n += max(e, w)
        return n, unk

    def text_len(s, f, a, st):
        """(most characters of a string argument, unknown?)"""
        L = literals(f, a)
        if L: return max((sz or 1) - 1 for _, sz in L), False
        x = f.nodes[f.strip(a)]
        r = s.root(f, a)
        if r and r in st: return st[r]
        if x["k"] == "DeclRefExpr" and x["d"] in {p["d"] for p in f.params} and not (x["d"] in st):
            return s.param_text(f, [p["d"] for p in f.params].index(x["d"]))
        if x["k"] in CALLS and x.get("n") in ("c_str", "data", "getenv", "strerror"): return INF, False
        if x["k"] == "MemberExpr": return INF, False
        return 0, True

    def param_text(s, f, k):
        """longest text handed over as parameter k: all callers' arguments; anything when nobody here calls the function"""
        key = (f.id, k)
        if key in s.ptext: return s.ptext[key]
        s.ptext[key] = (INF, False)
        n = 0; unk = False; hit = False
        for g in s.P.funcs.values():
            for x in g.calls():
                if x.get("n") != f.name or f.id not in [t.id for t in s.P.targets(g, x)]: continue
                A = g.args(x)
                if k >= len(A): continue
                hit = True
                l, u = s.text_len(g, A[k], {})
                n = max(n, l); unk = unk or u
        if hit: s.ptext[key] = (n, unk)
        return s.ptext[key]

    def buffers(s):
        for f in sorted(s.P.funcs.values(), key=lambda z: z.id):
            bufs = {d: chararr(v["ct"]) for d, v in f.vars.items() if chararr(v.get("ct", "")) is not None and d.startswith("%")}
            if not bufs: continue
            s.nb += len(bufs)
            s.analyse(f, bufs)

    def summary(s, f, k):
        """characters a function needs in the buffer handed to it as argument k: (count, unknown?) or None when it does not write"""
        key = (f.id, k)
        if key in s.need: return s.need[key]
        s.need[key] = None
        p = f.params[k]
        if "*" not in p["ct"] or p["ct"].startswith("const") or bare(p["ct"]) != "char *": return None
        s.need[key] = s.analyse(f, {p["d"]: None})
        return s.need[key]

    def analyse(s, f, bufs):
        """walk the function, keeping for each buffer the longest text and for each pointer its greatest offset"""
        most = {}
        unkm = set()

        def ptr(i, st):
            """(buffer, offset, unknown?) of a pointer expression"""
            x = f.nodes[f.strip(i)]; k = x["k"]
            if k == "DeclRefExpr":
                if x["d"] in bufs: return (x["d"], 0, False) if ("p", x["d"]) not in st else st[("p", x["d"])]
                return st.get(("p", x["d"]))
            if k == "BinaryOperator" and x["op"] == "+":
                b = ptr(x["c"][0], st)
                if b is None: return None
                v = num(x["c"][1], st)
                return (b[0], b[1] + v[0], b[2] or v[1])
            if k == "UnaryOperator" and x["op"] == "&":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "ArraySubscriptExpr":
                    b = ptr(y["c"][0], st)
                    if b is None: return None
                    v = num(y["c"][1], st); return (b[0], b[1] + v[0], b[2] or v[1])
                return None
            if k in ("CompoundAssignOperator", "BinaryOperator") and x["op"] in ("+=", "="): return ptr(x["c"][0], st)
            return None

        def num(i, st):
            c = s.const(f, i)
            if c is not None: return (c, False)
            x = f.nodes[f.strip(i)]
            if x["k"] == "DeclRefExpr" and ("n", x["d"]) in st: return st[("n", x["d"])]
            if x["i"] in ret: return ret[x["i"]]
            if x["k"] in CALLS and x.get("n") == "strlen":
                b = ptr(f.args(x)[0], st)
                if b: l = st.get(b[0], (0, True)); return (max(0, l[0] - b[1]), l[1] or b[2])
                t = s.text_len(f, f.args(x)[0], st); return t
            if x["k"] == "BinaryOperator" and x["op"] in "+-":
                a, b = num(x["c"][0], st), num(x["c"][1], st)
                return (a[0] + b[0], a[1] or b[1]) if x["op"] == "+" else (max(0, a[0] - (b[0] if f.nodes[x["c"][1]].get("cv") is not None else 0)), a[1] or b[1])
            return (0, True)

        ret = {}

        def demand(b, chars, unk, x, what):
            """chars (with the terminator) must fit buffer b"""
            n = bufs[b]; s.nw += 1
            m = most.get(b, 0)
            if chars > m: most[b] = chars
            if unk: unkm.add(b)
            if n is None: return
            if chars > n:
                s.r.bad("%s|%s" % (f.qn, f.vars[b]["n"]), f.where(x["i"]), "%s may write %s bytes to %s, which holds %d" % (what, "any number of" if chars == INF else int(chars), f.vars[b]["n"], n))
            elif unk: s.r.undecided("%s|%s" % (f.qn, f.vars[b]["n"]), f.where(x["i"]), "the length of what %s writes to %s is not known" % (what, f.vars[b]["n"]))

        def step(e, st):
            x = f.nodes[e]; k = x["k"]
            if k in CALLS:
                n = x.get("n", ""); A = f.args(x)
                own = not s.P.targets(f, x)
                if own and n in WRITERS and A:
                    b = ptr(A[0], st); kind = WRITERS[n]
                    if b is None: return
                    B, off, u = b
                    # the destination read as a source
                    if kind in ("fmt", "nfmt", "cpy", "cat"):
                        for a in A[1:]:
                            if ptrtype(f.nodes[a]["ct"]):
                                c = ptr(a, st)
                                if c and c[0] == B and f.nodes[f.strip(a)]["k"] in ("DeclRefExpr", "BinaryOperator", "UnaryOperator"):
                                    s.r.bad("%s|%s|overlap" % (f.qn, f.vars[B]["n"]), f.where(x["i"]), "%s reads %s while writing over it" % (n, f.vars[B]["n"]))
                    cap = None
                    if kind == "fmt":
                        L = literals(f, A[1])
                        if not L: l, lu = 0, True
                        else:
                            ls = [s.length(f, v, A, 1, st) for v, _ in L]
                            l = max(z[0] for z in ls); lu = any(z[1] for z in ls)
                        demand(B, off + l + 1, u or lu, x, n); ret[e] = (l, lu); st[B] = (off + l, u or lu)
                    elif kind == "nfmt":
                        cap = s.upper(f, A[1]); L = literals(f, A[2])
                        ls = [s.length(f, v, A, 2, st) for v, _ in L] if L else [(0, True)]
                        l = max(z[0] for z in ls)
                        if cap is not None and cap != INF:
                            # the size argument itself is what must fit
                            demand(B, off + cap, u, x, n); st[B] = (off + min(l, cap - 1), False)
                        else:
                            if "-" in f.text(A[1]) or "strlen" in f.text(A[1]): s.r.undecided("%s|%s" % (f.qn, f.vars[B]["n"]), f.where(x["i"]), "size argument %s" % f.text(A[1]))
                            else: demand(B, 0, True, x, n)
                            st[B] = (off + l, True)
                        ret[e] = (l, True)
                    elif kind in ("cpy", "cat"):
                        l, lu = s.text_len(f, A[1], st)
                        base = off if kind == "cpy" else st.get(B, (0, True))[0]
                        bu = u if kind == "cpy" else st.get(B, (0, True))[1]
                        demand(B, base + l + 1, bu or lu, x, n); st[B] = (base + l, bu or lu)
                    elif kind in ("mem", "ncpy"):
                        l = s.upper(f, A[2])
                        demand(B, off + (0 if l is None else l), l is None or u, x, n); st[B] = (max(off + (l or 0), st.get(B, (0, 0))[0]), l is None or u)
                    return
                ts = s.P.targets(f, x)
                for t in ts:
                    if t is f: continue
                    for j, a in enumerate(A):
                        if j >= len(t.params): break
                        b = ptr(a, st)
                        if b is None: continue
                        sm = s.summary(t, j)
                        if sm is None: continue
                        demand(b[0], b[1] + sm[0], b[2] or sm[1], x, t.name); st[b[0]] = (b[1] + sm[0] - 1, b[2] or sm[1])
                return
            if k == "DeclStmt":
                for d in x["decls"]:
                    if d["d"] in bufs:
                        L = literals(f, d["init"]) if d["init"] >= 0 else None
                        st[d["d"]] = (max((z or 1) - 1 for _, z in L), False) if L else (0, d["init"] < 0 and False)
                        continue
                    if d["init"] < 0: continue
                    assign(d["d"], d["init"], st)
            if k == "BinaryOperator" and x["op"] == "=":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr": assign(y["d"], x["c"][1], st)
                if y["k"] == "ArraySubscriptExpr" or (y["k"] == "UnaryOperator" and y["op"] == "*"): store(y, st, x)
            if k == "CompoundAssignOperator" and x["op"] in ("+=", "-="):
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr":
                    q = st.get(("p", y["d"]))
                    v = num(x["c"][1], st)
                    if x["op"] == "-=": v = (0, True)
                    if q: st[("p", y["d"])] = (q[0], q[1] + v[0], q[2] or v[1])
                    elif ("n", y["d"]) in st: st[("n", y["d"])] = (st[("n", y["d"])][0] + v[0], st[("n", y["d"])][1] or v[1])
            if k == "UnaryOperator" and x["op"] in ("++", "--"):
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr":
                    q = st.get(("p", y["d"]))
                    if q and x["op"] == "++": st[("p", y["d"])] = (q[0], q[1] + 1, q[2])
                    if ("n", y["d"]) in st and x["op"] == "++": st[("n", y["d"])] = (st[("n", y["d"])][0] + 1, st[("n", y["d"])][1])

        def store(y, st, x):
            if y["k"] == "ArraySubscriptExpr":
                b = ptr(y["c"][0], st)
                if b is None: return
                v = num(y["c"][1], st)
                if not v[1] and not b[2]: demand(b[0], b[1] + v[0] + 1, False, x, "a store")
            else:
                b = ptr(y["c"][0], st)
                if b and not b[2]: demand(b[0], b[1] + 1, False, x, "a store")

        def assign(d, v, st):
            t = f.vars.get(d, {}).get("ct", "")
            if "*" in t:
                b = ptr(v, st)
                if b: st[("p", d)] = b
                else: st.pop(("p", d), None)
            elif WID.get(bare(t)): st[("n", d)] = num(v, st)

        def join(a, b):
            if a is None: return dict(b)
            o = dict(a)
            for k2, v in b.items():
                if k2 not in o: o[k2] = v
                elif len(v) == 3:
                    w = o[k2]
                    o[k2] = (v[0], max(v[1], w[1]), v[2] or w[2]) if v[0] == w[0] else (v[0], v[1], True)
                else: o[k2] = (max(v[0], o[k2][0]), v[1] or o[k2][1])
            return o

        LP = loops(f); succ = f.succ(); order = {b: i for i, b in enumerate(rpo(f))}

        def region(blocks, head, st0, skip):
            """one pass over an acyclic region (inner loops collapsed): (state on back edges to skip, states on exits)"""
            IN = {head: st0}; back = None; out = {}
            seq = sorted(blocks, key=lambda b: order[b]); done = set()
            for b in seq:
                if b in done or b not in IN: continue
                if b in LP and b != skip:
                    body = LP[b]; done |= body
                    exits = loop(b, IN[b])
                    for y, z in exits.items():
                        if y == skip: back = join(back, z)
                        elif y in blocks: IN[y] = join(IN.get(y), z)
                        else: out[y] = join(out.get(y), z)
                    continue
                cur = dict(IN[b])
                for e in f.elems(b):
                    if isinstance(e, int): step(e, cur)
                for y in succ[b]:
                    if y == skip: back = join(back, cur)
                    elif y in blocks: IN[y] = join(IN.get(y), cur)
                    else: out[y] = join(out.get(y), cur)
            return back, out

        def loop(h, st):
            n = s.trips(f, h); exits = {}; cur = st; i = 0
            while True:
                if n not in (None, INF) and i >= n:
                    # the last test of the condition
                    for e in f.elems(h):
                        if isinstance(e, int): step(e, cur)
                    for y in succ[h]:
                        if y not in LP[h]: exits[y] = join(exits.get(y), cur)
                    break
                back, out = region(LP[h], h, cur, h)
                for y, z in out.items(): exits[y] = join(exits.get(y), z)
                i += 1
                if back is None: break
                new = join(cur, back)
                if new == cur: break
                lim = n if n not in (None, INF) else 3
                if i > lim:
                    if n in (None, INF):
                        # what still grows has no bound
                        for k2, v in new.items():
                            o = cur.get(k2)
                            if o is None or o == v: continue
                            if len(v) == 3: new[k2] = (v[0], INF if n == INF and not v[2] else v[1], n is None or v[2])
                            elif v[0] != o[0]: new[k2] = (INF if n == INF and not v[1] else v[0], n is None or v[1])
                        back, out = region(LP[h], h, new, h)
                        for y, z in out.items(): exits[y] = join(exits.get(y), z)
                    break
                cur = new
            return exits

        st0 = {b: (0, False) for b in bufs}
        for b in bufs:
            if bufs[b] is None: st0[("p", b)] = (b, 0, False)
        region(set(succ), f.entry, st0, None)
        if None in bufs.values():
            b = next(iter(bufs)); return (most.get(b, 0), b in unkm) if b in most or b in unkm else None

    # ------------------------------------------------------------- fixed arrays
    def extent(s, f, i):
        """elements of a fixed-size array expression"""
        x = f.nodes[f.strip(i)]
        m = re.search(r"^[^(]*\[(\d+)\](?:\[\d+\])*$", x["ct"])
        if m: return int(m.group(1))
        m = re.search(r"\(\*(?:const)?\)\[(\d+)\]", x["ct"])
        return None

    def index(s, f, i, at):
        """(least, greatest) of a subscript; None where unknown"""
        c = s.const(f, i)
        if c is not None: return c, c
        x = f.nodes[f.strip(i)]; k = x["k"]
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            b = block_of(f).get(at)
            best = None
            for h, body in loops(f).items():
                if b not in body: continue
                lv = s.loopvar(f, h)
                if not lv or lv[0] != x["d"]: continue
                v, out, bd, op, mods = lv
                u = s.upper(f, bd)
                lo = [s.const(f, o[1]) for o in out if o[0] == "def" and o[1] is not None]
                # the header itself runs once more
                if b == h: return (min(lo) if lo and None not in lo else None), None
                # moved on before the use
                bo = block_of(f); dm = dominators(f); extra = 0
                for q in mods:
                    qb = bo.get(q)
                    if qb == b and f.elems(b).index(q) < f.elems(b).index(at): extra = 1
                    elif qb != b and qb in dm.get(b, ()) and qb in body and qb != h: extra = 1
                return (min(lo) if lo and None not in lo else None), (u if u is None else u - (0 if op == "<=" else 1) + extra)
            d = single_def(f, x["d"])
 
            if d is not None:
                z = s.index(f, d, at)
                if z[1] is not None: return z
            if "etype" in x["t"]: return 0, s.maxtypes() - 1
            return None, None
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            a = s.index(f, x["c"][0], at); c = s.const(f, x["c"][1])
            if c is None:
                if x["op"] == "+": 
                    c = s.const(f, x["c"][0]); a = s.index(f, x["c"][1], at)
                if c is None: return None, None
            g = 1 if x["op"] == "+" else -1
            return tuple(None if z is None else z + g * c for z in a)
        if k == "BinaryOperator" and x["op"] == "%":
            c = s.upper(f, x["c"][1])
            return None, (c - 1 if c and c != INF else None)
        if k == "UnaryOperator" and x["op"] == "++":
            a = s.index(f, x["c"][0], at); return a
        return None, s.upper(f, i)

    def picks(s, t, j, seen=()):
        """does the function use this parameter to pick something (and not only to compute with it)?"""
        if (t.id, j) in seen: return False
        d = t.params[j]["d"]
        for y in t.reach_nodes():
            if y["k"] != "DeclRefExpr" or y["d"] != d: continue
            c, p = y["i"], t.parent.get(y["i"])
            while p is not None:
                z = t.nodes[p]
                if z["k"] == "ArraySubscriptExpr" and z["c"][1] == c: return True
                if z["k"] in CALLS or z["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr"):
                    ts = s.P.targets(t, z); args = t.args(z) if z["k"] in CALLS else z["c"]
                    n = next((n for n, a in enumerate(args) if a == c), None)
                    if n is None or not ts or n >= len(ts[0].params) or s.picks(ts[0], n, seen + ((t.id, j),)): return True
                    break
                if z["k"] in ("VarDecl", "DeclStmt", "ReturnStmt") or (z["k"] == "BinaryOperator" and z["op"] == "=" and z["c"][1] == c and t.nodes[t.strip(c)]["k"] == "DeclRefExpr"): return True
                if z["k"] == "BinaryOperator" and z["op"] in ("%", "/", "<", ">", "<=", ">=", "==", "!="): break
                c, p = p, t.parent.get(p)
            else: return True
        return False

    def arrays(s):
        for f in sorted(s.P.funcs.values(), key=lambda z: z.id):
            for x in f.reach_nodes():
                if x["k"] == "ArraySubscriptExpr":
                    n = s.extent(f, x["c"][0])
                    if n is None: continue
                    s.na += 1
                    lo, hi = s.index(f, x["c"][1], x["i"])
                    # &a[n] is a valid end pointer
                    p = f.parent.get(x["i"])
                    if p is not None and f.nodes[p]["k"] == "UnaryOperator" and f.nodes[p]["op"] == "&": n += 1
                    key = "%s|%s" % (f.qn, f.text(x["i"]))
                    if hi is not None and hi >= n:
                        s.r.bad(key, f.where(x["i"]), "%s: the index reaches %s, the array holds %d" % (f.text(x["i"]), "any value" if hi == INF else hi, n))
                    elif lo is not None and lo < 0:
                        s.r.bad(key, f.where(x["i"]), "%s: the index starts at %d" % (f.text(x["i"]), lo))
                    elif hi is None: s.r.undecided(key, f.where(x["i"]), "no bound known for the index of %s" % f.text(x["i"]))
                if x["k"] in CALLS:
                    s.moved(f, x)
                    for t in s.P.targets(f, x)[:1]:
                        for j, a in enumerate(f.args(x)):
                            if j >= len(t.params) or "etype" not in t.params[j]["t"]: continue
                            s.ne += 1
                            if f.nodes[f.strip(a)].get("cv") is not None: continue
                            lo, hi = s.index(f, a, x["i"])
                            if hi is not None and hi >= s.maxtypes() and s.picks(t, j):
                                s.r.bad("%s|%s|type" % (f.qn, t.name), f.where(x["i"]), "%s(%s): the edge type reaches %s, a graph has at most %d types" % (t.name, f.text(a), "any value" if hi == INF else hi, s.maxtypes()))

    COUNT = {"PCU_Comm_Pack": (1, 2, 1), "PCU_Comm_Unpack": (0, 1, 1), "PCU_Comm_Write": (1, 2, 1), "memcpy": (0, 2, 1), "memset": (0, 2, 1), "memmove": (0, 2, 1)}

    def moved(s, f, x):
        """byte and element counts handed over together with a fixed object"""
        n = x.get("n", ""); A = f.args(x)
        jobs = []
        if n in s.COUNT:
            p, c, u = s.COUNT[n]
            if len(A) > c: jobs.append((A[p], A[c], True))
            if n in ("memcpy", "memmove") and len(A) > 2: jobs.append((A[1], A[2], True))
        elif n in ("fread", "fwrite") and len(A) > 2:
            a, b = s.upper(f, A[1]), s.upper(f, A[2])
            if a is not None and b is not None: s.moved1(f, x, A[0], a * b, True)
            return
        elif n.startswith("PCU_") and n.endswith("s") and len(A) == 2 and "*" in f.nodes[A[0]]["ct"]: jobs.append((A[0], A[1], False))
        elif n.startswith(("pcu_read_", "pcu_write_")) and len(A) == 3: jobs.append((A[1], A[2], False))
        for p, c, by in jobs:
            v = s.upper(f, c)
            s.moved1(f, x, p, v, by)

    def moved1(s, f, x, p, v, by):
        y = f.nodes[f.strip(p)]
        tot = None
        if y["k"] == "UnaryOperator" and y["op"] == "&":
            z = f.nodes[f.strip(y["c"][0])]
            if z["k"] in ("DeclRefExpr", "MemberExpr"):
                t = bare(z["ct"])
                el = SZ.get(t) or (8 if t.endswith("*") else None)
                if el: tot = el if by else 1
                m = re.match(r"^(.*?) ?\[(\d+)\]$", t)
                if m and (SZ.get(m.group(1)) or m.group(1).endswith("*")): tot = (SZ.get(m.group(1)) or 8) * int(m.group(2)) if by else None
            elif z["k"] == "ArraySubscriptExpr":
                n = s.extent(f, z["c"][0]); c = s.const(f, z["c"][1])
                if n is not None and c is not None:
                    el = SZ.get(bare(z["ct"])) or (8 if bare(z["ct"]).endswith("*") else None)
                    if el: tot = (n - c) * (el if by else 1)
        else:
            m = re.match(r"^(.*?) ?\[(\d+)\]$", bare(y["ct"]))
            if m and y["k"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
                el = SZ.get(m.group(1)) or (8 if m.group(1).endswith("*") else None)
                if el: tot = int(m.group(2)) * (el if by else 1)
        if tot is None: return
        s.nm += 1
        key = "%s|%s|%s" % (f.qn, x.get("n"), f.text(p))
        if v is None: s.r.undecided(key, f.where(x["i"]), "the amount moved at %s is not known" % f.text(x["i"])[:80])
        elif v > tot: s.r.bad(key, f.where(x["i"]), "%s moves %s %s of an object of %d" % (x.get("n"), "any number of" if v == INF else v, "bytes" if by else "elements", tot))


def run(P, r, tier):
    tot = defaultdict(int)
    for bits in ("int32", "int64"):
        Q = P if bits == "int32" else agx.load("int64")
        c = Check(Q, r, bits)
        c.formats(); c.buffers(); c.arrays()
        for k in ("ne", "nf", "nc", "nb", "nw", "na", "nm"): tot[k] += getattr(c, k)
    r.need("formatted calls (both builds)", tot["nf"], 200)
    r.need("conversions matched with arguments", tot["nc"], 150)
    r.need("fixed text buffers", tot["nb"], 30)
    r.need("writes to text buffers", tot["nw"], 60)
    r.need("subscripts of fixed arrays", tot["na"], 200)
    r.need("edge types passed to functions", tot["ne"], 100)
    r.need("amounts moved from or to fixed objects", tot["nm"], 40)
    r.explain = ("every printf-family call and every call of a repository function that forwards a format: conversions against the promoted argument types, in both local-id builds; the text that a fixed buffer may hold is "
                 "bounded along all paths (loops taken as often as their bound allows, callee needs summarised at the call); every subscript of an array of fixed extent and every amount moved to or from one is bounded")
    r.assume = ["floating-point values printed with %f stay below 10^15 in magnitude", "an edge type passed as an argument is a valid one (0 to MAX_TYPES-1)", "a graph may have MAX_TYPES edge types"]

"""The Fortran interface, the C interface and the C++ library agree, parameter by parameter."""
import difflib, os, re, subprocess
from agx import *
import agx
from p13 import lin

F90 = "ftn/engpar.f90"
KINDS = {"c_int": ("int", 4), "c_int32_t": ("int", 4), "c_int64_t": ("int", 8), "c_double": ("real", 8), "c_float": ("real", 4), "c_bool": ("bool", 1),
         "c_char": ("char", 1), "c_size_t": ("int", 8), "c_long": ("int", 8), "c_ptr": ("ptr", 8)}
CT = {"int": ("int", 4), "unsigned int": ("int", 4), "long": ("int", 8), "unsigned long": ("int", 8), "double": ("real", 8), "float": ("real", 4),
      "bool": ("bool", 1), "char": ("char", 1), "long long": ("int", 8)}


def ctype(ct):
    """(class, size, by reference) of a C parameter type"""
    ct = re.sub(r"\bconst\b", "", ct).strip()
    m = re.match(r"(.*?)\s*(\*|\[\d*\])$", ct)
    if ct.replace(" ", "") == "void*": return ("ptr", 8, False)
    if m and m.group(1).strip() in CT: return CT[m.group(1).strip()] + (True,)
    if ct in CT: return CT[ct] + (False,)
    if ct == "void": return None
    return ("?" + ct, 0, False)


def fortran(ids):
    path = os.path.join(REPO, F90)
    if not os.path.exists(path): raise Broken("anchor vanished: " + F90)
    r = subprocess.run(["cpp", "-traditional-cpp", "-P", "-I" + os.path.join(REPO, "agi")] + agx.IDS[ids] + [path], capture_output=True, text=True)
    if r.returncode: raise Broken("cannot preprocess %s: %s" % (F90, r.stderr[:300]))
    # line numbers from the raw file
    line = {}
    for n, l in enumerate(open(path), 1):
        m = re.search(r"name\s*=\s*['\"](\w+)['\"]", l, re.I)
        if m: line[m.group(1)] = n
    txt = []
    for l in r.stdout.splitlines():
        q = None; o = ""
        for ch in l:
            if q: 
                if ch == q: q = None
            elif ch in "'\"": q = ch
            elif ch == "!": break
            o += ch
        o = o.rstrip()
        if txt and txt[-1].endswith("&"): txt[-1] = txt[-1][:-1] + " " + o.strip().lstrip("&")
        else: txt.append(o)
    out = {}; cur = None
    for l in txt:
        s = l.strip()
        m = re.match(r"(subroutine|function)\s+(\w+)\s*\((.*?)\)\s*bind\s*\(\s*c\s*,\s*name\s*=\s*['\"](\w+)['\"]\s*\)", s, re.I)
        if m:
            cur = {"kind": m.group(1).lower(), "fname": m.group(2).lower(), "args": [a.strip().lower() for a in m.group(3).split(",") if a.strip()], "decl": {},
                   "line": line.get(m.group(4), 0)}
            out[m.group(4)] = cur; continue
        if re.match(r"end\s*(subroutine|function)", s, re.I): cur = None; continue
        if cur is None: continue
        m = re.match(r"(type|integer|real|logical|character)\s*\(\s*(?:kind\s*=\s*)?(\w+)\s*\)\s*(.*)$", s, re.I)
        if m:
            base = m.group(2).lower(); rest = m.group(3)
            if "::" in rest: attrs, names = rest.split("::", 1)
            else: attrs, names = "", rest
            attrs = attrs.lower()
            dim = re.search(r"dimension\s*\(\s*([^)]*)\)", attrs); it = re.search(r"intent\s*\(\s*(\w+)\s*\)", attrs)
            for nm in re.findall(r"(\w+)\s*(\(([^)]*)\))?", names):
                d = nm[2] if nm[1] else (dim.group(1).strip() if dim else None)
                cur["decl"][nm[0].lower()] = {"kind": base, "value": bool(re.search(r"\bvalue\b", attrs)), "dim": d, "intent": it.group(1) if it else None}
    return out


def norm(n): return n.lower().replace("_", "")
def sim(a, b): return difflib.SequenceMatcher(None, norm(a), norm(b)).ratio()


def swapped(pairs):
    """pairs (a, x) of equally typed things; a pair of pairs whose names fit clearly better crosswise"""
    for i in range(len(pairs)):
        for j in range(i + 1, len(pairs)):
            (a, x), (b, y) = pairs[i], pairs[j]
            if norm(a) == norm(x) or norm(b) == norm(y):
                if not (norm(a) == norm(y) or norm(b) == norm(x)): continue
            if sim(a, y) + sim(b, x) > sim(a, x) + sim(b, y) + 0.35: return (a, x), (b, y)
    return None


class Bind:
    def __init__(s, P, r, ids):
        s.P = P; s.r = r; s.ids = ids; s.n = s.npar = s.nfwd = s.nlen = 0

    def bad(s, key, where, msg):
        s.r.bad(key, where, msg + (" (64-bit local ids)" if s.ids == "int64" else ""))

    def main(s):
        fs = fortran(s.ids)
        decls = defaultdict(list)
        for l in s.P.decls.values():
            for d in l: decls[d["qn"]].append(d)
        for cname, F in sorted(fs.items()):
            s.n += 1
            w = "%s:%d (%s)" % (F90, F["line"], cname)
            ds = [d for d in decls.get(cname, []) if d["extc"]]
            body = [f for f in s.P.byname.get(cname, []) if any(d["decl"] == f.id and d["extc"] for d in ds)]
            if not ds: s.bad(cname + "|undeclared", w, "no C function of this name with C linkage"); continue
            if not body:
                s.bad(cname + "|undefined", w, "the C function is declared but nothing with this name, these parameters and C linkage is defined"); 
                d = ds[0]; f = None
            else: f = body[0]; d = [x for x in ds if x["decl"] == f.id and not x["def"]] or [x for x in ds if x["decl"] == f.id]; d = d[0]
            pars = d["params"]
            if len(pars) != len(F["args"]):
                s.bad(cname + "|arity", w, "%d Fortran arguments, %d C parameters" % (len(F["args"]), len(pars))); continue
            same = defaultdict(list)
            for a, p in zip(F["args"], pars):
                s.npar += 1
                fd = F["decl"].get(a)
                if fd is None: s.bad("%s|%s|type" % (cname, a), w, "argument %s has no declaration" % a); continue
                if fd["kind"] not in KINDS: s.bad("%s|%s|type" % (cname, a), w, "argument %s has a kind that is not interoperable: %s" % (a, fd["kind"])); continue
                cl, sz = KINDS[fd["kind"]]; byref = not fd["value"]
                c = ctype(p["ct"])
                if c[0] == "ptr" and c[2] is False and cl == "ptr" and not byref: pass
                elif (cl, sz, byref) != c:
                    s.bad("%s|%s|type" % (cname, a), w, "argument %s is %s of %d bytes %s, the C parameter %s is %s" % (
                        a, cl, sz, "by reference" if byref else "by value", p["n"], p["ct"]))
                same[c].append((a, p["n"]))
            for g in same.values():
                q = swapped(g)
                if q: s.bad("%s|order" % cname, w, "arguments %s and %s appear to be exchanged against the C parameters %s and %s" % (q[0][0], q[1][0], q[0][1], q[1][1]))
            rt = F["decl"].get(F["fname"]); rc = ctype(d["cret"])
            if (F["kind"] == "function") != (rc is not None): s.bad(cname + "|result", w, "one side returns a value, the other does not")
            elif rc is not None and (rt is None or KINDS.get(rt["kind"]) != (rc[0], rc[1])): s.bad(cname + "|result", w, "result kinds differ: Fortran %s, C %s" % (rt and rt["kind"], d["cret"]))
            if f is not None:
                names = [(x["n"], y["n"]) for x, y in zip(d["params"], f.params) if x["n"] and y["n"]]
                bt = defaultdict(list)
                for x, y in zip(d["params"], f.params):
                    if x["n"] and y["n"]: bt[x["ct"]].append((x["n"], y["n"]))
                for g in bt.values():
                    q = swapped(g)
                    if q: s.bad("%s|decl-order" % cname, f.where(), "parameters %s and %s of the declaration are exchanged in the definition" % (q[0][0], q[1][0]))
                s.body(cname, F, f); s.strict(cname, F, f)
        s.constants(fs)
        # every declared C function is defined with that signature and known to Fortran
        for q, ds in sorted(decls.items()):
            for d in ds:
                if d["f"].endswith("cengpar.h") and d["extc"]:
                    if d["decl"] not in s.P.funcs: s.bad(q + "|undefined", "%s:%d (%s)" % (d["f"], d["l"], q), "declared with C linkage but not defined")
                    elif not any(x["extc"] for x in s.P.decls[d["decl"]] if x["def"]): s.bad(q + "|linkage", "%s:%d (%s)" % (d["f"], d["l"], q), "defined without C linkage")
                    if q not in fs: s.bad(q + "|fortran", "%s:%d (%s)" % (d["f"], d["l"], q), "has no Fortran interface")

    def origin(s, f, i, depth=0):
        """the wrapper parameters an argument is made of"""
        if i is None or i < 0 or depth > 10: return set()
        i = f.strip(i); x = f.nodes[i]
        if x["k"] == "DeclRefExpr":
            for n, p in enumerate(f.params):
                if p["d"] == x["d"]: return {n}
            if x["d"].startswith("%"):
                d = init_of(f, x["d"])
                if d is not None: return s.origin(f, d, depth + 1)
                return set()
        out = set()
        for c in x["c"]: out |= s.origin(f, c, depth + 1)
        return out

    def body(s, cname, F, f):
        pn = [p["n"] for p in f.params]; pos = {a: n for n, a in enumerate(F["args"])}
        used = set()
        for x in f.reach_nodes():
            if x["k"] == "DeclRefExpr":
                for n, p in enumerate(f.params):
                    if p["d"] == x["d"]: used.add(n)
        for n, p in enumerate(f.params):
            if n not in used: s.bad("%s|%s|unused" % (cname, p["n"]), f.where(), "parameter %s is ignored" % p["n"])
        # array lengths
        dims = {}
        for a, n in pos.items():
            d = F["decl"].get(a, {}).get("dim")
            if d and d.lower() in pos: dims[n] = pos[d.lower()]
        for x in f.reach_nodes():
            if x["k"] in CALLS or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                ar = f.args(x)
                for k in range(len(ar) - 1):
                    a = f.nodes[f.strip(ar[k])]; b = f.nodes[f.strip(ar[k + 1])]
                    if a["k"] == "DeclRefExpr" and b["k"] == "BinaryOperator" and b["op"] == "+":
                        pa = s.origin(f, ar[k]); pb = s.origin(f, b["c"][0]); ln = s.origin(f, b["c"][1])
                        if len(pa) == 1 and next(iter(pa)) in dims:
                            s.nlen += 1
                            n = next(iter(pa))
                            if pb != pa: s.bad("%s|%s|range" % (cname, pn[n]), f.where(x["i"]), "a range starts in %s and ends in another array" % pn[n])
                            elif ln != {dims[n]} or f.nodes[f.strip(b["c"][1])]["k"] != "DeclRefExpr":
                                s.bad("%s|%s|length" % (cname, pn[n]), f.where(x["i"]), "%s has %s elements but is taken to have %s" % (pn[n], pn[dims[n]], f.text(b["c"][1])))
            if x["k"] == "ArraySubscriptExpr":
                base = f.nodes[f.strip(x["c"][0])]
                if base["k"] != "DeclRefExpr": continue
                n = next((k for k, p in enumerate(f.params) if p["d"] == base["d"]), None)
                if n is None or n not in dims: continue
                ix = f.nodes[f.strip(x["c"][1])]
                bound = None
                if ix["k"] == "DeclRefExpr":
                    b = block_of(f).get(x["i"])
                    h = inner_loop(f, b) if b is not None else None
                    if h is not None:
                        import phase
                        c = phase.cond_of(f, h)
                        if c is not None:
                            y = f.nodes[f.strip(c)]
                            if y["k"] == "BinaryOperator" and y["op"] in ("<", "<=", "!=") and f.key(y["c"][0]) == f.key(x["c"][1]): bound = s.origin(f, y["c"][1]); op = y["op"]
                if bound:
                    s.nlen += 1
                    if bound != {dims[n]} or op == "<=": s.bad("%s|%s|length" % (cname, pn[n]), f.where(x["i"]), "%s has %s elements but is walked to %s" % (
                        pn[n], pn[dims[n]], "/".join(pn[k] for k in bound)))
                # stores through an intent(in) array
                p = f.parent.get(x["i"]); px = f.nodes[p] if p is not None else None
                if px is not None and px["k"] in ("BinaryOperator", "CompoundAssignOperator") and px["op"].endswith("=") and px["op"] not in ("==", "!=", "<=", ">=") and px["c"][0] == x["i"]:
                    if F["decl"].get(F["args"][n], {}).get("intent") == "in":
                        s.bad("%s|%s|intent" % (cname, pn[n]), f.where(x["i"]), "writes %s, which the Fortran interface declares intent(in)" % pn[n])
        # forwarding into the library
        for x in f.calls():
            for t in s.P.targets(f, x):
                ar = f.args(x); pairs = defaultdict(list)
                for a, p in zip(ar, t.params):
                    o = s.origin(f, a)
                    if len(o) == 1: s.nfwd += 1; pairs[re.sub(r"[&\s]|const", "", p["ct"])].append((pn[next(iter(o))], p["n"]))
                for g in pairs.values():
                    q = swapped(g)
                    if q: s.bad("%s|forward" % cname, f.where(x["i"]), "%s and %s are passed to %s as %s and %s" % (q[0][0], q[1][0], t.name, q[0][1], q[1][1]))
                    seen = defaultdict(set)
                    for a, x2 in g: seen[a].add(x2)
                    for a, v in seen.items():
                        if len(v) > 1: s.bad("%s|%s|twice" % (cname, a), f.where(x["i"]), "%s is passed to %s for both %s" % (a, t.name, " and ".join(sorted(v))))
                for a in ar:
                    if f.nodes[a]["k"] == "CXXDefaultArgExpr":
                        k = list(ar).index(a); p = t.params[k]
                        for n, q in enumerate(pn):
                            if norm(q) == norm(p["n"]): s.bad("%s|%s|dropped" % (cname, q), f.where(x["i"]), "%s is not passed on to %s" % (q, t.name))
                break

    # -- every argument is handed on as it is, on every path
    def values(s, f, i, d=0, seen=()):
        """what an expression may be: ('P', n) a parameter itself, ('C', node) a call's result, ('X', params) something else made of them"""
        if i is None or i < 0 or d > 20: return {("X", ())}
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr"): return s.values(f, x["c"][0], d + 1, seen)
        if k == "DeclRefExpr":
            for n, p in enumerate(f.params):
                if p["d"] == x["d"]:
                    us = var_uses(f).get(x["d"], [])
                    if any(u[0] in ("mod",) or u[0] == "def" and u[1] is not None for u in us): return {("P", n), ("X", (n,))} if not any(u[0] == "esc" for u in us) else {("P", n)}
                    return {("P", n)}
            if x["d"].startswith("%") and x["d"] not in seen:
                us = var_uses(f).get(x["d"], [])
                if us and all(u[0] == "def" and u[1] is not None for u in us):
                    out = set()
                    for u in us: out |= s.values(f, u[1], d + 1, seen + (x["d"],))
                    return out
                o = s.contents(f, x["d"], d, seen)
                if o: return o
            return {("X", tuple(sorted(s.deep(f, i))))}
        if k == "ConditionalOperator": return s.values(f, x["c"][1], d + 1, seen) | s.values(f, x["c"][2], d + 1, seen)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [z for z in f.args(x) if f.nodes[z]["k"] != "CXXDefaultArgExpr"]
            if len(a) == 1: return s.values(f, a[0], d + 1, seen)
            if len(a) == 2:
                v = s.values(f, a[0], d + 1, seen); y = f.nodes[f.strip(a[1])]
                if y["k"] == "BinaryOperator" and y["op"] == "+" and "*" in y["ct"]: return v
        if k in CALLS:
            if x.get("n") == "MPI_Comm_f2c" or x.get("n") in ("move", "forward", "c_str"):
                a = f.args(x) or [f.obj(x)]
                return s.values(f, a[0], d + 1, seen)
            ts = s.P.targets(f, x)
            if ts and all(t.file == f.file for t in ts):         # a helper of the interface
                out = set()
                for t in ts:
                    for y in t.reach_nodes():
                        if y["k"] == "ReturnStmt" and y.get("c"):
                            for v in s.values(t, y["c"][0], d + 1):
                                if v[0] == "P": out |= s.values(f, f.args(x)[v[1]], d + 1, seen) if v[1] < len(f.args(x)) else {("X", ())}
                                elif v[0] == "C": out.add(("C", x["i"]))
                                else: out.add(("X", tuple(sorted(s.deep(f, i)))))
                return out
            return {("C", i)} if ts else {("X", tuple(sorted(s.deep(f, i))))}
        if k == "UnaryOperator" and x["op"] == "&":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "ArraySubscriptExpr" and f.nodes[f.strip(y["c"][1])].get("cv") == 0: return s.values(f, y["c"][0], d + 1, seen)
        return {("X", tuple(sorted(s.deep(f, i))))}

    def contents(s, f, v, d, seen):
        """a local container: the one construction, or the arrays its elements come from"""
        for x in f.reach_nodes():
            if x["k"] == "DeclStmt":
                for q in x["decls"]:
                    if q["d"] == v and q["init"] >= 0:
                        i = q["init"]; y = f.nodes[f.strip(i)]
                        if y["k"] == "ExprWithCleanups": y = f.nodes[f.strip(y["c"][0])]
                        if y["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                            a = [z for z in f.args(y) if f.nodes[z]["k"] != "CXXDefaultArgExpr"]
                            if a: return s.values(f, y["i"], d + 1, seen + (v,))
        return None

    def deep(s, f, i, seen=()):
        """every parameter an expression is computed from"""
        out = set(); st = [i]
        while st:
            x = f.nodes[st.pop()]
            if x is None: continue
            if x["k"] == "DeclRefExpr":
                n = next((k for k, p in enumerate(f.params) if p["d"] == x["d"]), None)
                if n is not None: out.add(n)
                elif x["d"].startswith("%") and x["d"] not in seen:
                    for u in var_uses(f).get(x["d"], []):
                        if u[1] is not None and u[0] in ("def", "mod"): out |= s.deep(f, u[1], seen + (x["d"],))
            st += [c for c in x["c"] if isinstance(c, int) and c >= 0]
        return out

    def strict(s, cname, F, f):
        pn = [p["n"] for p in f.params]; pos = {a: n for n, a in enumerate(F["args"])}; dims = {}
        for a, n in pos.items():
            d = F["decl"].get(a, {}).get("dim")
            if d and d.lower() in pos: dims[n] = pos[d.lower()]
        arr = {n for a, n in pos.items() if F["decl"].get(a, {}).get("dim") and F["decl"][a]["dim"] != "*"}
        text = {n for a, n in pos.items() if F["decl"].get(a, {}).get("dim") == "*"}      # a name: it may select what is passed on (methods())
        counts = set(dims.values()) ; hand = defaultdict(set); res = {}
        at = block_of(f)
        lps = loops(f)
        def site(n, i):
            b = at.get(i)
            for h, body in lps.items():
                if b in body: hand[n].add(h)
            hand[n].add(b)
        for x in f.reach_nodes():
            if x["k"] in CALLS:
                ts = s.P.targets(f, x)
                if not ts: continue
                ar = list(f.args(x)); o = f.obj(x) if x.get("meth") else None
                got = set()
                for a in ar + ([o] if o is not None else []):
                    vs = s.values(f, a); ps = {v[1] for v in vs if v[0] == "P"}
                    if ps: s.nfwd += 1
                    for v in vs:
                        if v[0] == "X" and set(v[1]) - counts - text and (not ps or len(vs) > 1) and a != o and not any(t.file == f.file for t in ts) and not s.elementwise(f, a):
                            n = sorted(set(v[1]) - counts - text)[0]
                            if n in arr and not ps and len(vs) == 1: continue
                            s.bad("%s|%s|changed" % (cname, pn[n]), f.where(x["i"]), "%s does not get %s as it was given: '%s'" % (ts[0].name, pn[n], f.text(a)[:60])); break
                        if v == ("X", ()) and ps:
                            n = sorted(ps)[0]
                            s.bad("%s|%s|changed" % (cname, pn[n]), f.where(x["i"]), "%s does not always get %s: '%s'" % (ts[0].name, pn[n], f.text(a)[:60])); break
                    for n in ps | {n for v in vs if v[0] == "X" for n in v[1]}: site(n, x["i"]); got.add(n)
                    if not ps and f.nodes[f.strip(a)]["k"] == "DeclRefExpr":
                        for n in s.filled(f, f.nodes[f.strip(a)]["d"]): site(n, x["i"]); got.add(n)
                res[x["i"]] = (ts, got)
            if x["k"] in ("BinaryOperator",) and x["op"] == "=":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "MemberExpr":
                    vs = s.values(f, x["c"][1])
                    for v in vs:
                        if v[0] == "P": site(v[1], x["i"])
                        elif v[1] and isinstance(v[1], tuple):
                            for n in v[1]: site(n, x["i"])
                            s.bad("%s|%s|changed" % (cname, pn[v[1][0]]), f.where(x["i"]), "%s is not stored as it was given: '%s'" % (pn[v[1][0]], f.text(x["i"])[:60]))
                    for n in s.deep(f, x["c"][0]): site(n, x["i"])
        # on every path
        for n, bs in hand.items():
            if n in counts: continue
            seen = set(); st = [f.entry]
            while st:
                b = st.pop()
                if b in seen or b in bs: continue
                seen.add(b)
                if b == f.exit: s.bad("%s|%s|path" % (cname, pn[n]), f.where(), "on some path %s is not handed on" % pn[n]); break
                st += f.succ()[b]
        # elements
        for x in f.reach_nodes():
            if x["k"] != "ArraySubscriptExpr": continue
            b = f.nodes[f.strip(x["c"][0])]
            n = next((k for k, p in enumerate(f.params) if p["d"] == b.get("d")), None) if b["k"] == "DeclRefExpr" else None
            if n is None or n not in arr: continue
            p = f.parent.get(x["i"]); up = f.nodes[p] if p is not None else None
            if up is not None and up["k"] == "UnaryOperator" and up["op"] == "&": continue
            ix = f.nodes[f.strip(x["c"][1])]
            if ix.get("cv") is not None: s.bad("%s|%s|element" % (cname, pn[n]), f.where(x["i"]), "only element %s of %s is used" % (ix["cv"], pn[n])); continue
            post = ix["k"] == "UnaryOperator" and ix["op"] in ("++", "--")
            if post: ix = f.nodes[f.strip(ix["c"][0])]
            if ix["k"] == "DeclRefExpr" and ix["d"].startswith("%"):
                us = var_uses(f).get(ix["d"], []); ds = [u for u in us if u[0] == "def" and u[1] is not None]
                if len(ds) == 1:
                    c = f.nodes[f.strip(ds[0][1])].get("cv")
                    if c is not None and c != 0: s.bad("%s|%s|element" % (cname, pn[n]), f.where(x["i"]), "%s is walked from element %s" % (pn[n], c))
                ms = [u for u in us if u[0] == "mod"]
                for u in ms:
                    m = f.nodes[u[2]]
                    if m["k"] == "UnaryOperator" and m["op"] != "++" or m["k"] == "CompoundAssignOperator" and (m["op"] != "+=" or f.nodes[f.strip(m["c"][1])].get("cv") != 1):
                        s.bad("%s|%s|element" % (cname, pn[n]), f.where(u[2]), "%s is not walked element by element: '%s'" % (pn[n], f.text(u[2])))
                # leaving the loop early
                bb = at.get(x["i"]); live = reaches_exit(f)
                for h, body in lps.items():
                    if bb in body:
                        for q in body:
                            if q == h: continue
                            for z in f.succ()[q]:
                                if z not in body and z in live and not header_part(f, h, q, body):
                                    s.bad("%s|%s|early" % (cname, pn[n]), f.where(x["i"]), "the walk over %s can end before its last element" % pn[n])
            # what is stored
            if up is not None and up["k"] == "BinaryOperator" and up["op"] == "=" and up["c"][0] == x["i"]:
                v = f.nodes[f.strip(up["c"][1])]
                if v["k"] in ("BinaryOperator", "ConditionalOperator"): s.bad("%s|%s|stored" % (cname, pn[n]), f.where(up["i"]), "%s receives a changed value: '%s'" % (pn[n], f.text(up["i"])[:60]))
                elif v["k"] == "MemberExpr" and v["ct"].replace("const ", "") != x["ct"].replace("const ", ""):
                    s.bad("%s|%s|stored" % (cname, pn[n]), f.where(up["i"]), "%s receives %s, which is of another kind: '%s'" % (pn[n], v["n"], f.text(up["i"])[:60]))
        # entries of arrays of one length go together
        step = defaultdict(dict)
        for x in f.reach_nodes():
            if x["k"] != "ArraySubscriptExpr": continue
            b = f.nodes[f.strip(x["c"][0])]
            n = next((k for k, p in enumerate(f.params) if p["d"] == b.get("d")), None) if b["k"] == "DeclRefExpr" else None
            if n is None or n not in dims: continue
            ix = f.nodes[f.strip(x["c"][1])]
            if ix["k"] == "UnaryOperator" and ix["op"] in ("++", "--"): continue
            hs = [h for h, body in lps.items() if at.get(x["i"]) in body]
            if not hs: continue
            h = min(hs, key=lambda h: len(lps[h])); l = tuple(sorted((str(z), c) for z, c in lin(f, ix["i"]).items() if c))
            for n2, (l2, w) in step[(h, dims[n])].items():
                if n2 != n and l2 != l and {z for z, _ in l} & {z for z, _ in l2} - {"()"}:
                    s.bad("%s|%s|together" % (cname, pn[n]), f.where(x["i"]), "%s is taken at '%s' where %s, which has an entry for each of its, is taken at another place" % (pn[n], f.text(ix["i"])[:30], pn[n2]))
            step[(h, dims[n])].setdefault(n, (l, x["i"]))
        # lengths are not handles or types
        for x in f.calls():
            if x.get("n") == "MPI_Comm_f2c":
                for v in s.values(f, f.args(x)[0]):
                    if v[0] == "P" and v[1] in counts: s.bad("%s|%s|length" % (cname, pn[v[1]]), f.where(x["i"]), "the communicator %s is declared to be the length of %s" % (pn[v[1]], " and ".join(pn[n] for n in dims if dims[n] == v[1])))
        # the library's function of the same name does the work
        short = cname.split("_", 1)[1].lower() if "_" in cname else cname
        named = [g for g in s.P.funcs.values() if g.name.lower() in (short, "engpar_" + short) and g.file != f.file and g.file.startswith(("agi/", "partition/", "support/", "interfaces/")) and (g.qn.startswith(("agi::", "engpar::")) or g.name.startswith("EnGPar"))]
        if named:
            ids = {g.name for g in named}
            if not any(t.name in ids or t.file == f.file for ts, _ in res.values() for t in ts):
                s.bad("%s|other" % cname, f.where(), "does not call the library's %s" % named[0].qn)
        # what comes back is what the library returned
        if res and f.cret != "void":
            best = max(len(g) for _, g in res.values()); main = {i for i, (_, g) in res.items() if len(g) == best}
            for x in f.reach_nodes():
                if x["k"] == "ReturnStmt" and x.get("c"):
                    for v in s.values(f, x["c"][0]):
                        if v[0] != "C" or v[1] not in main and f.strip(v[1]) not in main:
                            s.bad("%s|returned" % cname, f.where(x["i"]), "does not return what the library returned: '%s'" % f.text(x["i"])[:60])

    def elementwise(s, f, a):
        return f.nodes[f.strip(a)]["k"] == "DeclRefExpr" and bool(s.filled(f, f.nodes[f.strip(a)]["d"]))

    def filled(s, f, v):
        """parameters a local container is filled from"""
        out = set()
        for x in f.reach_nodes():
            tgt = None; vals = []
            if x["k"] == "BinaryOperator" and x["op"] == "=": tgt, vals = x["c"][0], [x["c"][0], x["c"][1]]
            elif x["k"] == "CXXOperatorCallExpr" and x.get("n") == "operator=": tgt, vals = x["c"][-2], x["c"][-2:]
            elif x["k"] in CALLS and x.get("meth") and x.get("n") in ("push_back", "emplace_back", "insert", "emplace", "assign"): tgt, vals = f.obj(x), f.args(x)
            if tgt is None: continue
            st = [tgt]; hit = False
            while st:
                y = f.nodes[st.pop()]
                if y["k"] == "DeclRefExpr" and y["d"] == v: hit = True
                st += [c for c in y["c"] if isinstance(c, int) and c >= 0]
            if hit:
                for z in vals: out |= s.deep(f, z)
        return out

    def constants(s, fs):
        """the kinds published for Fortran programs are those of the library's types"""
        path = os.path.join(REPO, F90)
        r = subprocess.run(["cpp", "-traditional-cpp", "-P", "-I" + os.path.join(REPO, "agi")] + agx.IDS[s.ids] + [path], capture_output=True, text=True)
        want = {}
        for f in s.P.funcs.values():
            for p in f.params:
                for k in ("gid_t", "lid_t", "wgt_t", "part_t", "etype"):
                    if p.get("t", "").replace("const ", "").strip() in (k, "agi::" + k): want[k] = CT.get(p["ct"].replace("const ", "").strip())
        n = 0
        for m in re.finditer(r"parameter\s*::\s*ENGPAR_(\w+?)_T\s*=\s*(\w+)", r.stdout, re.I):
            k = {"GID": "gid_t", "LID": "lid_t", "WGT": "wgt_t", "PART": "part_t", "EDGE": "etype"}.get(m.group(1).upper()); w = want.get(k)
            if k is None or w is None: continue
            n += 1; g = KINDS.get(m.group(2).lower())
            if g is not None and g != w: s.bad("constant|%s" % m.group(1), "%s (module engpar)" % F90, "ENGPAR_%s_T is a kind of %s of %d bytes, agi::%s is %s of %d bytes" % ((m.group(1),) + g + (k,) + w))
        s.nconst = n

    def methods(s):
        """the method names accepted by split are those of the enumeration, all of them"""
        f = s.P.need("cengpar_split")[0]; got = {}
        for x in f.reach_nodes():
            if x["k"] == "BinaryOperator" and x["op"] == "=" or (x["k"] == "CXXOperatorCallExpr" and x.get("n") == "operator="):
                kids = x["c"][-2:]
                lit = None; en = None
                st = [kids[0]]
                while st:
                    y = f.nodes[st.pop()]
                    if y["k"] == "StringLiteral": lit = y.get("v")
                    st += [c for c in y["c"] if c >= 0]
                st = [kids[1]]
                while st:
                    y = f.nodes[st.pop()]
                    if y["k"] == "DeclRefExpr" and y["dk"] == "EnumConstant": en = y["n"]
                    st += [c for c in y["c"] if c >= 0]
                if lit and en: got[lit] = (en, x["i"])
        if not got:      # written another way: pair literals and enumerators in order of comparison calls is not attempted
            s.r.count("split method names", 0); return
        for l, (e, i) in got.items():
            if l != e: s.bad("cengpar_split|%s" % l, f.where(i), "method name \"%s\" selects %s" % (l, e))
        E = [e for q, e in s.P.enums.items() if q.endswith("SPLIT_METHOD")]
        if not E: raise Broken("anchor vanished: SPLIT_METHOD")
        for q, v in E[0]["vals"]:
            n = q.split("::")[-1]
            if n not in {e for e, _ in got.values()}: s.bad("cengpar_split|missing|%s" % n, f.where(), "split method %s cannot be selected by name" % n)
        s.r.count("split method names", len(got))


def reaches_exit(f):
    live = {f.exit}; ch = True
    while ch:
        ch = False
        for b, ss in f.succ().items():
            if b not in live and any(z in live for z in ss): live.add(b); ch = True
    return live


def header_part(f, h, q, body):
    """q only continues the loop's own condition (&&, ||)"""
    st = [h]; seen = set()
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == q: return True
        if len(f.succ()[b]) == 2 and all(e is None or not isinstance(e, int) or f.nodes[e]["k"] not in ("BinaryOperator",) or f.nodes[e]["op"] != "=" for e in f.elems(b)):
            st += [z for z in f.succ()[b] if z in body and len(f.succ()[z]) == 2 and any(y not in body for y in f.succ()[z]) and not any(isinstance(e, int) and f.nodes[e]["k"] in ("BinaryOperator", "CompoundAssignOperator") and f.nodes[e]["op"].endswith("=") and f.nodes[e]["op"] not in ("==", "!=", "<=", ">=") for e in f.elems(z))]
    return False


def run(P, r, tier):
    tot = [0, 0, 0, 0]; nconst = 0
    for ids in ("int32", "int64"):
        b = Bind(P if ids == "int32" else agx.load(ids), r, ids); b.main()
        if ids == "int32": b.methods()
        for k, v in enumerate((b.n, b.npar, b.nfwd, b.nlen)): tot[k] += v
        nconst += b.nconst
    r.need("interface procedures compared (2 configurations)", tot[0], 40)
    r.need("parameters compared", tot[1], 100); r.need("arguments followed into the library", tot[2], 30); r.need("array lengths compared", tot[3], 8)
    r.count("published kinds compared", nconst)
    r.explain = ("every bind(C) procedure of ftn/engpar.f90 (preprocessed for both local-id widths) against the declaration and the definition of the C function it names: "
                 "count, order, kind, size, passing and result; inside the C function every parameter is used, arrays are walked by the length Fortran declares for them, "
                 "intent(in) arrays are not written, and arguments reach the library parameters they belong to")
    r.assume = ["two equally typed parameters are told apart by their names", "CMake passes the same local-id width to the Fortran and C++ sides"]

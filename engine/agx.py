"""agx: program model of /repo built from the clang exporter's facts.

Everything a check decides is decided on this model: typed expression nodes,
control-flow graphs, resolved calls (virtual calls by class hierarchy, C function
tables by their initialisers), classes and declarations.  Nothing is executed.
"""
import json, os, subprocess, sys, time, tempfile, shutil, hashlib, glob
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AGX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "agx")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """the analysis itself cannot answer (exit status 2, never 0 or 1)"""


def build_tool():
    src = os.path.join(VERIF, "engine", "exporter.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = TOOL + ".stamp"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("exporter does not build: " + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, "w").write(h)


# directories that make up the library, and the sources left out of them with the reason
DIRS = ["pcu", "pcu/noto", "pcu/reel", "support", "agi", "partition", "partition/Diffusive",
        "partition/Diffusive/src", "partition/Metrics", "partition/Multilevel", "partition/Coloring",
        "interfaces"]
SKIP = {
    "support/engpar_version.cpp": "generated by the configure step and not tracked: two functions returning a literal",
    "interfaces/apfGraph.cpp": "needs SCOREC/PUMI headers that are not installed (not part of this build)",
    "interfaces/dofGraph.cpp": "needs SCOREC/PUMI headers that are not installed (not part of this build)",
}
MIN_UNITS = 46     # translation units on the pinned tree (48); fewer means a vanished anchor
DEFS = ["-DENGPAR_HAS_MALLINFO2", "-DHAS_PARMETIS", "-DHAS_ZOLTAN"]
IDS = {"int32": ["-DLOCAL_ID_FTYPE=C_INT32_T", "-DLOCAL_ID_TYPE=int32_t"],      # the two configurations of LONG_LOCAL_INDICES
       "int64": ["-DLOCAL_ID_FTYPE=C_INT64_T", "-DLOCAL_ID_TYPE=int64_t"]}


def flags(path, ids="int32"):
    inc = ["pcu", "pcu/reel", "pcu/noto", "agi", "interfaces", "support", "partition",
           "partition/Diffusive", "partition/Diffusive/src", "partition/Metrics",
           "partition/Multilevel", "partition/Coloring"]
    f = ["-w", "-resource-dir", LLVM + "/lib/clang/18"]
    f += ["-I%s/%s" % (REPO, i) for i in inc]
    f += ["-isystem", "/usr/include/trilinos"]
    try:
        show = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split()
    except OSError:
        show = []
    f += show or ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
    if path.endswith(".c"):
        return ["-std=gnu17"] + f
    return ["-std=gnu++11"] + DEFS + IDS[ids] + f


def sources():
    out = []
    for d in DIRS:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.c")) + glob.glob(os.path.join(REPO, d, "*.cpp"))):
            r = os.path.relpath(p, REPO)
            if r not in SKIP:
                out.append(p)
    return out


class Func:
    def __init__(s, j):
        s.id = j["fn"]; s.qn = j["qn"]; s.name = j["n"]; s.file = j["f"]; s.line = j["l"]; s.eline = j.get("le", 0)
        s.cls = j.get("cls"); s.params = j["params"]; s.ret = j["ret"]; s.cret = j["cret"]
        s.virt = j.get("virt", False); s.over = j.get("over", []); s.const = j.get("const", False)
        s.ctor = j.get("ctor", False); s.dtor = j.get("dtor", False); s.acc = j.get("acc"); s.static = j.get("static", False)
        s.implicit = j.get("implicit", False); s.ext = j.get("ext", True)
        n = [None] * (max([x["i"] for x in j["nodes"]] + [-1]) + 1)
        for x in j["nodes"]:
            x.setdefault("c", [])
            n[x["i"]] = x
        s.nodes = n
        s.vars = {v["d"]: v for v in j["vars"]}
        for p in s.params:
            s.vars.setdefault(p["d"], dict(p, glob=False, l=s.line))
        s.blocks = {b["b"]: b for b in j["blocks"]}
        s.entry = j["entry"]; s.exit = j["exit"]
        s.parent = {}
        for x in n:
            if x is None: continue
            for c in x["c"]:
                if c >= 0: s.parent.setdefault(c, x["i"])
            for k in ("sz", "init", "argx"):
                if x.get(k, -1) is not None and isinstance(x.get(k, -1), int) and x.get(k, -1) >= 0: s.parent.setdefault(x[k], x["i"])
            for d in x.get("decls", []):
                if d["init"] >= 0: s.parent.setdefault(d["init"], x["i"])
        s._succ = None
        s.noret_calls = set()
        s.sig = j

    @property
    def short(s):
        return s.qn

    def where(s, i=None):
        if i is None or s.nodes[i] is None: return "%s:%d (%s)" % (s.file, s.line, s.qn)
        x = s.nodes[i]
        return "%s:%d (%s)" % (x.get("f") or s.file, x["l"], s.qn)

    # --- cfg
    def succ(s):
        if s._succ is None:
            d = {}
            for b, B in s.blocks.items():
                ss = [x for x in B["s"] if x >= 0]
                if B.get("noret") or any(isinstance(e, int) and e in s.noret_calls for e in B["e"]): ss = []
                d[b] = ss
            # keep only what is reachable from entry
            seen = {s.entry}; st = [s.entry]
            while st:
                x = st.pop()
                for y in d[x]:
                    if y not in seen: seen.add(y); st.append(y)
            s._succ = {b: v for b, v in d.items() if b in seen}
            s._pred = defaultdict(list)
            for b, v in s._succ.items():
                for y in v: s._pred[y].append(b)
        return s._succ

    def pred(s):
        s.succ(); return s._pred

    def reach_exit(s):
        return s.exit in s.succ()

    def elems(s, b):
        return s.blocks[b]["e"]

    def calls(s):
        """all call/construct nodes in reachable blocks, in cfg order"""
        for b in sorted(s.succ(), reverse=True):
            for e in s.elems(b):
                if isinstance(e, int):
                    x = s.nodes[e]
                    if x["k"] in CALLS or x["k"] == "CXXConstructExpr" or x["k"] == "CXXTemporaryObjectExpr":
                        yield x

    def reach_nodes(s):
        for b in s.succ():
            for e in s.elems(b):
                if isinstance(e, int): yield s.nodes[e]

    def args(s, x):
        """argument node ids of a call (object excluded)"""
        if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return x["c"]
        a = x["c"][1:]
        if x.get("opcall") and x.get("meth"): a = a[1:]
        return a

    def obj(s, x):
        """object node of a method call, or None"""
        if not x.get("meth"): return None
        if x.get("opcall"): return x["c"][1]
        m = s.nodes[x["c"][0]]
        return m["c"][0] if m["k"] == "MemberExpr" and m["c"] else None

    # --- expression helpers
    def strip(s, i):
        """skip casts that keep the value"""
        while i is not None and i >= 0:
            x = s.nodes[i]
            if x["k"] in CASTS or x["k"] == "CXXDefaultArgExpr":
                if not x["c"]: return i
                i = x["c"][0]
            elif x["k"] in ("CXXConstructExpr",) and x.get("copy") and len(x["c"]) == 1:
                i = x["c"][0]
            else: return i
        return i

    def key(s, i, depth=0):
        """structural text of an expression (locals by identity, fields by class)"""
        if i is None or i < 0: return "-"
        i = s.strip(i)
        x = s.nodes[i]; k = x["k"]
        if depth > 24: return "..."
        if k == "DeclRefExpr": return x["d"]
        if k == "CXXThisExpr": return "this"
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "UnaryExprOrTypeTraitExpr") and "cv" in x: return str(x["cv"])
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"): return "0"
        if k == "StringLiteral": return json.dumps(x.get("v", ""))
        if k == "FloatingLiteral": return repr(x.get("v"))
        if k == "MemberExpr": return (s.key(x["c"][0], depth + 1) if x["c"] else "") + "." + x["d"].split("::")[-1] if x["dk"] == "Field" else (s.key(x["c"][0], depth + 1) if x["c"] else "") + "." + x["n"]
        if k in ("BinaryOperator", "CompoundAssignOperator"): return "(%s%s%s)" % (s.key(x["c"][0], depth + 1), x["op"], s.key(x["c"][1], depth + 1))
        if k == "UnaryOperator": return "(%s%s)" % (x["op"], s.key(x["c"][0], depth + 1))
        if k == "ArraySubscriptExpr": return "%s[%s]" % (s.key(x["c"][0], depth + 1), s.key(x["c"][1], depth + 1))
        if k in CALLS:
            o = s.obj(x)
            return "%s%s(%s)" % ((s.key(o, depth + 1) + "." if o is not None else ""), x.get("n", "?"), ",".join(s.key(a, depth + 1) for a in s.args(x)))
        return "%s<%s>" % (k, ",".join(s.key(c, depth + 1) for c in x["c"] if c >= 0))

    def text(s, i):
        import re
        return re.sub(r"%(\w+)#\d+", r"\1", s.key(i))


CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr",
         "CXXFunctionalCastExpr", "CXXDynamicCastExpr")


class Program:
    def __init__(s):
        s.funcs = {}; s.recs = {}; s.enums = {}; s.decls = {}; s.gvars = {}; s.units = 0
        s.derived = defaultdict(set); s.overriders = defaultdict(set); s.byname = defaultdict(list)

    def finish(s):
        for f in s.funcs.values():
            s.byname[f.qn].append(f)
            for o in f.over: s.overriders[o].add(f.id)
        ch = True
        while ch:
            ch = False
            for o, fs in list(s.overriders.items()):
                for f in list(fs):
                    new = s.overriders.get(f, set()) - fs
                    if new: fs |= new; ch = True
        for r in s.recs.values():
            for b in r.get("bases", []): s.derived[b].add(r["rec"])
        # function tables: field name -> functions it may hold, from initialisers and assignments
        s.ftab = defaultdict(set)
        for g in s.gvars.values():
            for n, v in g.get("initf", []):
                if v in s.funcs: s.ftab[(g["ct"], n)].add(v); s.ftab[n].add(v)
        # functions that never return
        ch = True
        while ch:
            ch = False
            for f in s.funcs.values():
                if not f.reach_exit() and not getattr(f, "noret", False):
                    f.noret = True; ch = True
            if ch:
                for f in s.funcs.values():
                    add = set()
                    for x in f.nodes:
                        if x and x["k"] in CALLS:
                            t = s.funcs.get(x.get("fn"))
                            if t is not None and getattr(t, "noret", False) and not x.get("virt"): add.add(x["i"])
                    if add - f.noret_calls: f.noret_calls |= add; f._succ = None
        return s

    def targets(s, f, x):
        """possible repo definitions a call may enter"""
        out = []
        fid = x.get("fn")
        if fid:
            if x.get("virt"):
                c = {fid} | s.overriders.get(fid, set())
                return [s.funcs[t] for t in c if t in s.funcs]
            return [s.funcs[fid]] if fid in s.funcs else []
        if x["k"] in CALLS and x["c"]:
            cal = f.nodes[f.strip(x["c"][0])]
            while cal["k"] == "UnaryOperator" and cal["op"] == "*": cal = f.nodes[f.strip(cal["c"][0])]
            if cal["k"] == "MemberExpr": return [s.funcs[t] for t in s.ftab.get(cal["n"], ()) if t in s.funcs]
        return []

    def get(s, qn, cls=None):
        l = s.byname.get(qn, [])
        return l

    def need(s, qn):
        l = s.byname.get(qn, [])
        if not l: raise Broken("anchor vanished: no definition of %s" % qn)
        return l


def load(ids="int32"):
    build_tool()
    srcs = sources()
    if len(srcs) < MIN_UNITS:
        raise Broken("only %d translation units found, expected at least %d" % (len(srcs), MIN_UNITS))
    tmp = tempfile.mkdtemp(prefix="agx.")
    P = Program()
    try:
        def one(k):
            out = os.path.join(tmp, "%d.json" % k)
            r = subprocess.run([TOOL, REPO, out, srcs[k], "--"] + flags(srcs[k], ids), capture_output=True, text=True, cwd=REPO)
            return out, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(srcs))))
        for k, (out, r) in enumerate(res):
            if not os.path.exists(out): raise Broken("exporter failed on %s: %s" % (srcs[k], r.stderr[-1500:]))
            done = False
            for line in open(out, errors="replace"):
                j = json.loads(line)
                if "error" in j: raise Broken("%s does not compile: %s" % (srcs[k], r.stderr[-1500:]))
                if "done" in j: done = True
                elif "nocfg" in j: raise Broken("no control-flow graph for %s in %s" % (j["nocfg"], srcs[k]))
                elif "fn" in j and "nodes" in j:
                    if j["fn"] not in P.funcs: P.funcs[j["fn"]] = Func(j)
                elif "decl" in j: P.decls.setdefault(j["decl"], []).append(j)
                elif "rec" in j: P.recs.setdefault(j["rec"], j)
                elif "enum" in j: P.enums.setdefault(j["enum"], j)
                elif "gvar" in j:
                    if j["gvar"] not in P.gvars or j.get("initf"): P.gvars[j["gvar"]] = j
            if not done: raise Broken("truncated facts for %s" % srcs[k])
            P.units += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P.srcs = [os.path.relpath(x, REPO) for x in srcs]
    return P.finish()


# ---------------------------------------------------------------- graph utilities
def rpo(f):
    succ = f.succ(); seen = set(); out = []
    st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y); st.append((y, iter(succ[y]))); break
        else:
            out.append(b); st.pop()
    return out[::-1]


def postdoms(f):
    """immediate-set post-dominators over reachable blocks (virtual exit = all sinks)"""
    succ = f.succ(); nodes = list(succ)
    X = "X"
    s2 = {b: (list(v) if v else [X]) for b, v in succ.items()}
    s2[X] = []
    allb = set(nodes) | {X}
    pd = {b: set(allb) for b in nodes}; pd[X] = {X}
    order = rpo(f)[::-1]
    ch = True
    while ch:
        ch = False
        for b in order:
            ns = set.intersection(*[pd[y] for y in s2[b]]) | {b}
            if ns != pd[b]: pd[b] = ns; ch = True
    return pd


def control_deps(f):
    """block -> set of (branch block) it is control dependent on (direct)"""
    pd = postdoms(f); succ = f.succ()
    cd = defaultdict(set)
    for a, ss in succ.items():
        if len(ss) < 2: continue
        for y in ss:
            for z in pd[y]:
                if z == "X": continue
                if z not in pd[a] or z == a: cd[z].add(a)
    return cd


def dominators(f):
    succ = f.succ(); pred = f.pred(); order = rpo(f)
    allb = set(order)
    dom = {b: set(allb) for b in order}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == f.entry: continue
            ps = [dom[p] for p in pred[b] if p in dom]
            ns = (set.intersection(*ps) if ps else set()) | {b}
            if ns != dom[b]: dom[b] = ns; ch = True
    return dom


# ---------------------------------------------------------------- local variable facts
def var_uses(f):
    """var -> list of ('def', value node|None, at node) and ('esc', at node) / ('mod', ...) occurrences"""
    if hasattr(f, "_vu"): return f._vu
    vu = defaultdict(list)
    live = set()
    for b in f.succ():
        for e in f.elems(b):
            if isinstance(e, int): live.add(e)
    for x in f.nodes:
        if x is None: continue
        if x["k"] == "DeclStmt":
            for d in x["decls"]:
                if x["i"] not in live and len(x["decls"]) > 1: continue    # clang splits multi-declarations in the CFG
                vu[d["d"]].append(("def", d["init"] if d["init"] >= 0 else None, x["i"]))
        if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
            p = f.parent.get(x["i"])
            px = f.nodes[p] if p is not None else None
            if px is None: vu[x["d"]].append(("esc", None, x["i"])); continue
            if px["k"] == "ImplicitCastExpr" and px.get("ck") in ("LValueToRValue",): continue
            if px["k"] == "ImplicitCastExpr" and px.get("ck") in ("ArrayToPointerDecay",): vu[x["d"]].append(("decay", None, x["i"])); continue
            if px["k"] == "BinaryOperator" and px["op"] == "=" and px["c"][0] == x["i"]:
                vu[x["d"]].append(("def", px["c"][1], px["i"])); continue
            if px["k"] == "CompoundAssignOperator" and px["c"][0] == x["i"]: vu[x["d"]].append(("mod", px["c"][1], px["i"])); continue
            if px["k"] == "UnaryOperator" and px["op"] in ("++", "--"): vu[x["d"]].append(("mod", None, px["i"])); continue
            if px["k"] == "UnaryExprOrTypeTraitExpr": continue
            vu[x["d"]].append(("esc", None, x["i"]))
    f._vu = vu
    return vu


def simple_vars(f):
    """locals that only ever change by plain assignment (never by reference, ++ or compound)"""
    if hasattr(f, "_sv"): return f._sv
    vu = var_uses(f)
    f._sv = {v for v, u in vu.items() if all(a[0] == "def" for a in u)}
    for v in list(f.vars):
        if v.startswith("%") and v not in vu: f._sv.add(v)
    return f._sv


def single_def(f, v):
    """the initialiser of a local that has exactly one definition, else None"""
    u = var_uses(f).get(v, [])
    if len(u) == 1 and u[0][0] == "def" and u[0][1] is not None and v not in {p["d"] for p in f.params}: return u[0][1]
    return None


def init_of(f, v):
    """the only assigned value of a local, other uses (address taken, passed on) allowed"""
    u = [a for a in var_uses(f).get(v, []) if a[0] in ("def", "mod")]
    if len(u) == 1 and u[0][0] == "def" and u[0][1] is not None and v not in {p["d"] for p in f.params}: return u[0][1]
    return None


def rkey(f, i, depth=0):
    """key with single-definition locals replaced by what they were defined as"""
    i = f.strip(i)
    if i is None or i < 0: return "-"
    x = f.nodes[i]
    if depth > 8: return f.key(i)
    k = x["k"]
    if k == "DeclRefExpr" and x["d"].startswith("%"):
        d = single_def(f, x["d"])
        if d is not None: return rkey(f, d, depth + 1)
        return x["d"]
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s%s%s)" % (rkey(f, x["c"][0], depth + 1), x["op"], rkey(f, x["c"][1], depth + 1))
    if k == "UnaryOperator": return "(%s%s)" % (x["op"], rkey(f, x["c"][0], depth + 1))
    if k == "ArraySubscriptExpr": return "%s[%s]" % (rkey(f, x["c"][0], depth + 1), rkey(f, x["c"][1], depth + 1))
    if k == "MemberExpr": return (rkey(f, x["c"][0], depth + 1) if x["c"] else "") + "." + x["n"]
    if k in CALLS:
        o = f.obj(x)
        return "%s%s(%s)" % ((rkey(f, o, depth + 1) + "." if o is not None else ""), x.get("n", "?"), ",".join(rkey(f, a, depth + 1) for a in f.args(x)))
    return f.key(i)


def loops(f):
    """natural loops: header -> set of blocks"""
    if hasattr(f, "_loops"): return f._loops
    dom = dominators(f); succ = f.succ(); pred = f.pred(); out = {}
    for a, ss in succ.items():
        for h in ss:
            if h in dom[a]:
                body = {h}; st = [a]
                while st:
                    y = st.pop()
                    if y in body: continue
                    body.add(y); st += [p for p in pred[y] if p in succ]
                out.setdefault(h, set()).update(body)
    f._loops = out
    return out


def block_of(f):
    if hasattr(f, "_bo"): return f._bo
    f._bo = {}
    for b in f.succ():
        for e in f.elems(b):
            if isinstance(e, int): f._bo.setdefault(e, b)
    return f._bo


def inner_loop(f, b):
    best = None
    for h, body in loops(f).items():
        if b in body and (best is None or len(body) < len(loops(f)[best])): best = h
    return best

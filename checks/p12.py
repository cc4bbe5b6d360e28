"""P12: global numbers keep 64 bits; with 64-bit local ids, local numbers too."""
import re
import agx, units
from agx import *
from p06 import U

BITS = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64,
        "long long": 64, "unsigned long long": 64, "float": 24, "double": 53}
S64 = {"long", "long long"}
FOREIGN = ("ZOLTAN_ID_TYPE", "idx_t", "ZOLTAN_ID_PTR")
SMALL = {"P", "T", "NT", "T1"}                                # part ids and edge types are ints by design
LOCALK = {"VL", "VP", "GI", "EL", "ES", "EH", "PS", "WS", "XS"}


def bare(t): return t.replace("const ", "").replace(" const", "").replace("volatile ", "").strip()


def foreign(f, i, x):
    """the value ends in a partitioner's own id type"""
    if any(k in x["t"] for k in FOREIGN): return True
    y = i
    while f.parent.get(y) is not None:
        z = f.nodes[f.parent[y]]
        if z["k"] not in CASTS: break
        if any(k in z["t"] for k in FOREIGN): return True
        y = z["i"]
    p = f.parent.get(y)
    if p is None: return False
    z = f.nodes[p]
    if z["k"] in ("BinaryOperator", "CompoundAssignOperator") and z["op"].endswith("=") and z["op"] not in ("==", "!=", "<=", ">="):
        return any(k in f.nodes[z["c"][0]]["t"] for k in FOREIGN)
    return False


def kind(u, f, i):
    t = u.info.get(f.id)
    if not t: return None
    for j in (i, f.strip(i)):
        z = t[0].get(j)
        if z is not None:
            z = units.find(z)
            if isinstance(z, units.Con): return z.n
    return None


def callback(P, f):
    """parameters and result fixed by a partitioner's callback interface"""
    if any("ZOLTAN" in p["t"] for p in f.params): return True
    if not hasattr(P, "passed"):
        P.passed = set()
        for g in P.funcs.values():
            for x in g.calls():
                if not x.get("n", "").startswith(("Zoltan_", "ParMETIS_")): continue
                for a in g.args(x):
                    for j in [a] + list(desc(g, a)):
                        y = g.nodes[j]
                        if y["k"] == "DeclRefExpr": P.passed.add(y["d"])
    return f.id in P.passed


def counts_local(P, f, i, seen=None):
    """the value counts this process's entities: built from a local id type, a size, or a counter"""
    seen = seen or set()
    x = f.nodes[f.strip(i)]
    if x.get("cv") is not None: return None
    for j in [i] + list(chain(f, i)):
        t = f.nodes[j]["t"]
        if "lid_t" in t or "gid_t" in t or "size_t" in t or "size_type" in t: return f.text(j)
    if x["k"] == "DeclRefExpr" and x["d"].startswith("%") and x["d"] not in seen:
        seen.add(x["d"])
        for k, _, n in var_uses(f).get(x["d"], []):
            if k not in ("def", "mod"): continue
            y = f.nodes[n]
            if y["k"] == "DeclStmt":
                for d in y["decls"]:
                    if d["d"] == x["d"] and d["init"] >= 0:
                        w = counts_local(P, f, d["init"], seen)
                        if w: return w
            elif y["k"] in ("BinaryOperator", "CompoundAssignOperator"):
                # a reduction of itself says nothing new
                z = f.nodes[f.strip(y["c"][1])]
                if z["k"] in CALLS and z.get("n", "").startswith("PCU_"): continue
                w = counts_local(P, f, y["c"][1], seen)
                if w: return w
                if y["k"][0] == "C" and inner(f, n): return f.text(n)
            elif y["k"] == "UnaryOperator" and inner(f, n): return f.text(n)
    if x["k"] in ("BinaryOperator", "ConditionalOperator", "UnaryOperator"):
        for c in x["c"]:
            w = counts_local(P, f, c, seen)
            if w: return w
    return None


def explicit(f, i):
    """written as a cast to the local id type"""
    p = f.parent.get(i)
    while p is not None and f.nodes[p]["k"] in CASTS:
        if f.nodes[p]["k"] != "ImplicitCastExpr": return True
        p = f.parent.get(p)
    return False


def division(f, i):
    """an id divided by a block length is a part"""
    x = f.nodes[f.strip(i)]
    if x["k"] == "DeclRefExpr":
        d = single_def(f, x["d"])
        if d is not None: x = f.nodes[f.strip(d)]
    return x["k"] == "BinaryOperator" and x["op"] == "/"


RAW = {"PCU_Comm_Pack": (1, 2), "PCU_Comm_Unpack": (0, 1), "PCU_Comm_Write": (1, 2), "memcpy": (0, 2), "fread": (0, 1), "fwrite": (0, 1)}


def raw(P, r, f, x, bg, wide, tot):
    """a 64-bit object moved as bytes is moved whole; a range of wide elements is not copied into narrow ones"""
    n = x.get("n", "")
    if n in RAW and len(f.args(x)) > RAW[n][1]:
        a, b = (f.args(x)[k] for k in RAW[n])
        y, c = f.nodes[f.strip(a)], f.nodes[f.strip(b)].get("cv")
        t = bare(y["ct"])
        if t.endswith("*"): t = bare(t[:-1])
        elif t.endswith("]"): t = bare(t[:t.rindex("[")])
        if t in S64 and c is not None:
            tot["raw"] += 1
            if int(c) % 8: r.bad("%s|bytes|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "'%s' moves %s bytes of a 64-bit integer" % (f.text(x["i"])[:60], c))
    if n in ("insert", "emplace", "push_back", "emplace_back", "count", "find") and f.obj(x) is not None:
        a = re.search(r"<(?:const )?(?:std::pair<)?(?:const )?([a-z ]+?),", f.nodes[f.strip(f.obj(x))]["ct"] + ",")
        for i in f.args(x)[:1]:
            y = f.nodes[f.strip(i)]
            b = (parts(y["ct"]) or [bare(y["ct"])])[0]
            if a and BITS.get(a.group(1), 64) < 53 and BITS.get(a.group(1), 64) > 8 and b in S64 and y.get("cv") is None and "pair<" in y["ct"] or n.startswith("emplace") and a and b in S64 and 8 < BITS.get(a.group(1), 64) < 53:
                r.bad("%s|key|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "'%s' puts a 64-bit key into a container of %s" % (f.text(x["i"])[:60], a.group(1)))
    if x["k"] == "CXXConstructExpr" and x.get("cls", "").startswith("std::vector") or n in ("assign", "insert", "copy"):
        to = x["ct"] if x["k"] == "CXXConstructExpr" else f.nodes[f.strip(f.obj(x))]["ct"] if n != "copy" and f.obj(x) is not None else f.nodes[f.strip(f.args(x)[2])]["ct"] if len(f.args(x)) > 2 else ""
        a = elem(to)
        its = x["c"] if x["k"] == "CXXConstructExpr" else f.args(x)
        if BITS.get(a, 64) < 53 and BITS.get(a, 64) > 8 and not bg:
            for i in its:
                t = f.nodes[f.strip(i)]["ct"]
                if ("iterator" in t or bare(t).endswith("*")) and elem(t) in S64:
                    r.bad("%s|range|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "64-bit elements are copied into a container of %s" % a); break


def elem(t):
    t = bare(t)
    if t.endswith("*"): return bare(t[:-1])
    m = re.search(r"(?:vector|__normal_iterator|unordered_set|set|list|_iterator)<(?:const )?([a-z ]+?) ?[\*,>]", t)
    return m.group(1).strip() if m else ""


def desc(f, i):
    for c in f.nodes[i].get("c", []):
        if c is not None and c >= 0:
            yield c
            yield from desc(f, c)


def chain(f, i):
    x = f.nodes[i]
    while x["k"] in CASTS and x["c"]:
        i = x["c"][0]; x = f.nodes[i]; yield i


def inner(f, n):
    b = block_of(f).get(n)
    return any(b in body for body in loops(f).values())


def elements(f, i):
    """values stored into the array a call is given"""
    x = f.nodes[f.strip(i)]
    if x["k"] == "UnaryOperator" and x["op"] == "&": x = f.nodes[f.strip(x["c"][0])]
    if x["k"] == "ArraySubscriptExpr": x = f.nodes[f.strip(x["c"][0])]
    if x["k"] != "DeclRefExpr": return []
    out = []
    for y in f.reach_nodes():
        if y["k"] in ("BinaryOperator", "CompoundAssignOperator") and y.get("op", "").endswith("=") and y["op"] not in ("==", "!=", "<=", ">="):
            l = f.nodes[f.strip(y["c"][0])]
            if l["k"] == "ArraySubscriptExpr" and f.nodes[f.strip(l["c"][0])].get("d") == x["d"]: out.append(y["c"][1])
        if y["k"] == "DeclStmt":
            for d in y["decls"]:
                if d["d"] == x["d"] and d["init"] >= 0:
                    z = f.nodes[f.strip(d["init"])]
                    if z["k"] == "InitListExpr": out += z["c"]
    if not out: out = [x["i"]]
    return out


def config(P, r, wide, tot):
    u = U(P)
    for f in P.funcs.values():
        if f.file.startswith("pcu/"): continue
        bg = f.cls == "agi::binGraph"
        cb = callback(P, f)
        for x in f.reach_nodes():
            if x["k"] in CASTS and x["c"]:
                y = f.nodes[x["c"][0]]
                a, b = bare(x["ct"]), bare(y["ct"])
                if y.get("cv") is not None: continue
                ba, bb = BITS.get(a), BITS.get(b)
                if ba and bb: tot["conversions"] += 1
                if b in S64 and ba and 1 < ba < 53:
                    tot["wide"] += 1
                    own = bg and (x["k"] != "ImplicitCastExpr" or explicit(f, x["i"]) or division(f, x["c"][0]))
                    if own or foreign(f, x["i"], x): tot["exempt"] += 1; continue
                    k = kind(u, f, x["c"][0])
                    if k in SMALL: tot["exempt"] += 1; continue
                    loc = k in LOCALK or "lid_t" in y["t"]
                    if loc and not wide: continue
                    if wide and cb: tot["exempt"] += 1; continue
                    r.bad("%s|%s|%s" % (f.qn, a, f.text(x["c"][0])[:60]), f.where(x["i"]), "'%s' (%s, 64 bits) is narrowed to %s%s" % (f.text(x["c"][0])[:60], y["t"], a, " with 64-bit local ids" if wide and loc else ""),
                          "%s|%s|%s" % (f.file, a, "local" if loc else "global"))
                if a in S64 and bb == 32:
                    z = f.nodes[f.strip(x["c"][0])]
                    if z["k"] == "BinaryOperator" and z["op"] in ("*", "<<") and all(f.nodes[f.strip(c)].get("cv") is None for c in z["c"]):
                        r.bad("%s|product|%s" % (f.qn, f.text(z["i"])[:60]), f.where(x["i"]), "'%s' is computed in 32 bits and widened afterwards" % f.text(z["i"])[:60])
                if a.endswith("*") and b.endswith("*"):
                    pa, pb = BITS.get(bare(a[:-1])), BITS.get(bare(b[:-1]))
                    if pa and pb and pa != pb and pb > 8 and pa > 8: r.bad("%s|pointer|%s" % (f.qn, f.text(x["c"][0])[:60]), f.where(x["i"]), "'%s' is read as an array of %s although its elements are %s" % (f.text(x["c"][0])[:60], a[:-1].strip(), b[:-1].strip()))
            elif x["k"] == "CXXConstructExpr" and x.get("cls", "").startswith("std::pair") and len(x["c"]) == 1:
                y = f.nodes[f.strip(x["c"][0])]
                st = [(x["ct"], y["ct"])]
                while st:
                    m, n = (parts(z) if z.startswith(("std::pair<", "const std::pair<", "pair<")) else None for z in st.pop())
                    if not m or not n: continue
                    st += list(zip(m, n))
                    for p, q in zip(m, n):
                        if q in S64 and (BITS.get(p) or 64) < 53:
                            r.bad("%s|pair|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "a pair holding 64 bits is narrowed to %s" % x["ct"])
            elif x["k"] == "BinaryOperator" and x["op"] in ("<", "<=", "!=", ">", ">="):
                for c, o in (x["c"], x["c"][::-1]):
                    y, z = f.nodes[c], f.nodes[o]
                    if not (y["k"] in CASTS and bare(y["ct"]) in S64): continue
                    v = f.nodes[f.strip(c)]
                    if not (v["k"] == "DeclRefExpr" and BITS.get(bare(v["ct"])) == 32) or f.nodes[f.strip(o)].get("cv") is not None: continue
                    if bare(z["ct"]) not in S64 or BITS.get(bare(f.nodes[f.strip(o)]["ct"])) != 64: continue
                    if bg or cb or kind(u, f, o) in SMALL: continue
                    if not wide and kind(u, f, o) in LOCALK: continue
                    if any(k == "mod" and f.nodes[n]["k"] == "UnaryOperator" for k, _, n in var_uses(f).get(v["d"], [])):
                        r.bad("%s|counter|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "the 32-bit counter in '%s' runs up to a 64-bit count%s" % (f.text(x["i"])[:60], " with 64-bit local ids" if wide else ""))
            if x["k"] in CALLS or x["k"] == "CXXConstructExpr": raw(P, r, f, x, bg, wide, tot)
            if x["k"] in CALLS:
                n = x.get("n", "")
                if n in ("PCU_Add_Int", "PCU_Add_Ints", "PCU_Exscan_Int", "PCU_Exscan_Ints") and f.args(x):
                    tot["sums"] += 1
                    for e in (elements(f, f.args(x)[0]) if n.endswith("s") else [f.args(x)[0]]):
                        w = counts_local(P, f, e)
                        if w: r.bad("%s|sum|%s" % (f.qn, f.text(x["i"])[:60]), f.where(x["i"]), "'%s' adds up counts of local entities ('%s') of all processes in 32 bits" % (f.text(x["i"])[:60], w[:40])); break
                elif n.startswith(("PCU_Add_", "PCU_Exscan_", "PCU_Max_", "PCU_Min_")): tot["sums"] += 1


def parts(ct):
    m = ct.find("pair<")
    if m < 0: return None
    d = 0; cur = ""; out = []
    for ch in ct[m + 5:]:
        if ch == "<": d += 1
        if ch == ">":
            if d == 0: out.append(bare(cur)); break
            d -= 1
        if ch == "," and d == 0: out.append(bare(cur)); cur = ""; continue
        cur += ch
    return out


def run(P, r, tier):
    tot = defaultdict(int)
    config(P, r, False, tot)
    Q = agx.load(ids="int64")
    t2 = defaultdict(int)
    config(Q, r, True, t2)
    r.need("conversions between arithmetic types", tot["conversions"], 500)
    r.need("conversions from 64 to fewer bits", tot["wide"], 10)
    r.need("the same with 64-bit local ids", t2["wide"], 10)
    r.need("64-bit objects moved as bytes", tot["raw"], 10)
    r.need("reductions", tot["sums"], 15)
    r.count("conversions into partitioners' or part-id types", tot["exempt"])
    r.explain = ("Every implicit and explicit conversion of the typed syntax tree, in both builds of the local id type, is examined: a signed 64-bit value (global ids and counts; local ids in the wide build) "
                 "converted to fewer bits, a pair converted to narrower members, a 32-bit product widened afterwards, an array reread at another width, a 32-bit counter run against a 64-bit count, and a sum over "
                 "processes of local counts in 32 bits are reported.")
    r.assume = ["the partitioners' own types (ZOLTAN_ID_TYPE, idx_t) are configured wide enough; their callbacks' signatures are fixed",
                "binGraph's files hold 32-bit vertex ids, so its ids fit 32 bits", "part ids and edge types are ints by design", "unsigned 64-bit handles decode to local ids, which the narrow build bounds"]

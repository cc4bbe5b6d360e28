"""Interprocedural typestate of the PCU phase protocol (clients of PCU.h)."""
from agx import *

BEGIN = {"PCU_Comm_Begin"}
SEND = {"PCU_Comm_Send"}
PACK = {"PCU_Comm_Pack", "PCU_Comm_Write"}
NEXT = {"PCU_Comm_Receive", "PCU_Comm_Listen"}
NEXTW = {"PCU_Comm_Read"}
UNPACK = {"PCU_Comm_Unpack"}
INMSG = {"PCU_Comm_Sender", "PCU_Comm_From"}
MPI_COLL = {"MPI_Barrier", "MPI_Bcast", "MPI_Allreduce", "MPI_Reduce", "MPI_Gather", "MPI_Gatherv", "MPI_Allgather",
            "MPI_Allgatherv", "MPI_Scatter", "MPI_Scatterv", "MPI_Alltoall", "MPI_Alltoallv", "MPI_Scan", "MPI_Exscan",
            "MPI_Comm_split", "MPI_Comm_dup", "MPI_Comm_free", "MPI_Finalize", "MPI_Init", "MPI_Comm_create"}
PCU_COLL = {"PCU_Barrier", "PCU_Add_Doubles", "PCU_Add_Double", "PCU_Min_Doubles", "PCU_Min_Double", "PCU_Max_Doubles",
            "PCU_Max_Double", "PCU_Add_Ints", "PCU_Add_Int", "PCU_Add_Longs", "PCU_Add_Long", "PCU_Exscan_Ints",
            "PCU_Exscan_Int", "PCU_Exscan_Longs", "PCU_Exscan_Long", "PCU_Add_SizeTs", "PCU_Add_SizeT", "PCU_Min_SizeTs",
            "PCU_Min_SizeT", "PCU_Max_SizeTs", "PCU_Max_SizeT", "PCU_Min_Ints", "PCU_Min_Int", "PCU_Max_Ints", "PCU_Max_Int",
            "PCU_Max_Longs", "PCU_Max_Long", "PCU_Or", "PCU_And", "PCU_Proc_Self_dummy", "PCU_Switch_Comm", "PCU_Comm_Init",
            "PCU_Comm_Free", "PCU_Comm_Start"}
ALLPRIM = BEGIN | SEND | PACK | NEXT | NEXTW | UNPACK | INMSG | MPI_COLL | PCU_COLL | {"PCU_Comm_Unpacked"}


def leaf(f, i):
    i = f.strip(i)
    x = f.nodes[i]
    while x["k"] == "BinaryOperator" and x["op"] in ("&&", "||"):
        i = f.strip(x["c"][1]); x = f.nodes[i]
    return i


def cond_of(f, b):
    """leaf condition evaluated at the end of block b (short circuits have their own blocks)"""
    B = f.blocks[b]
    if len(f.succ().get(b, ())) != 2 or "cond" not in B: return None
    if B.get("tk") == "SwitchStmt": return None
    if B.get("tk") == "BinaryOperator":          # terminator of a short circuit: its LHS
        return leaf(f, B["cond"])
    return leaf(f, B["cond"])


class Phase:
    def __init__(s, P):
        s.P = P
        s.relevant = s._relevant()
        s.memo = {}; s.viol = {}; s.sites = set(); s.funcs = set(); s.nphase = 0
        s.stack = []

    def skip(s, f):
        return f.file.startswith("pcu/")

    def _relevant(s):
        direct = set(); callers = defaultdict(set)
        for f in s.P.funcs.values():
            if s.skip(f): continue
            for x in f.calls():
                if x.get("qn") in ALLPRIM: direct.add(f.id)
                for t in s.P.targets(f, x): callers[t.id].add(f.id)
        st = list(direct); seen = set(direct)
        while st:
            a = st.pop()
            for c in callers[a]:
                if c not in seen: seen.add(c); st.append(c)
        s.callers = callers
        return {x for x in seen if not s.skip(s.P.funcs[x])}

    def bad(s, f, i, rule, msg):
        key = "%s|%s|%s" % (f.qn, rule, f.text(i) if i is not None else "")
        s.viol.setdefault(key, (f.where(i), msg))

    # value of expression i in terms of tracked call results: ('+'|'-'|0|1) or None
    def val(s, f, i, know):
        i = f.strip(i)
        k = dict(know)
        if i in k: return k[i]
        x = f.nodes[i]
        if x["k"] == "DeclRefExpr" and x["d"] in k: return k[x["d"]]
        neg = {'+': '-', '-': '+', 0: 1, 1: 0}
        if x["k"] == "UnaryOperator" and x["op"] == "!":
            v = s.val(f, x["c"][0], know); return None if v is None else neg[v]
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                c = f.nodes[x["c"][b]].get("cv"); v = s.val(f, x["c"][a], know)
                if v is not None and c in (0, 1):
                    same = (c == 1) == (x["op"] == "==")
                    return v if same else neg[v]
        if x["k"] == "BinaryOperator" and x["op"] == "=": return s.val(f, x["c"][1], know)
        return x.get("cv") if x.get("cv") in (0, 1) and x["k"] in ("IntegerLiteral", "CXXBoolLiteralExpr") else None

    def summary(s, fid, S0):
        k = (fid, S0)
        if k in s.memo: return s.memo[k]
        s.memo[k] = frozenset()
        while True:
            r = s.run(fid, S0)
            if r == s.memo[k]: return r
            s.memo[k] = r

    def step_prim(s, f, x, S, know):
        """-> list of (S, know) ; x is a call of a primitive"""
        q = x["qn"]; i = x["i"]
        s.sites.add((f.id, i))
        def err(rule, msg): s.bad(f, i, rule, msg)
        if S == 'Q':
            # result of the last Receive/Listen never tested: unknown whether there is a message
            if q in NEXT: err("receive-result-ignored", "the result of the previous PCU_Comm_Receive/Listen was never tested")
            elif q in UNPACK | INMSG: err("unpack-untested", "%s without testing that a message was received" % q)
            elif q != "PCU_Comm_Unpacked": err("phase-not-drained", "%s while it is unknown whether the phase was drained" % q)
            S = 'M'
        if q in BEGIN:
            if S != 'I': err("begin-in-phase", "PCU_Comm_Begin while a phase is still open (state %s)" % NAMES[S])
            return [('P', know)]
        if q in PACK:
            if S != 'P': err("pack-outside-packing", "%s outside Begin..Send (state %s)" % (q, NAMES[S]))
            return [(S, know)]
        if q in SEND:
            if S != 'P': err("send-without-begin", "PCU_Comm_Send without an open packing phase (state %s)" % NAMES[S])
            return [('R', know)]
        if q in NEXT | NEXTW:
            if S not in ('R', 'M'): err("receive-outside-phase", "%s outside a sent phase (state %s)" % (q, NAMES[S]))
            return [('Q', know | {(i, '+')})]
        if q in UNPACK | INMSG | {"PCU_Comm_Unpacked"}:
            if S != 'M': err("unpack-outside-message", "%s with no received message (state %s)" % (q, NAMES[S]))
            return [(S, know)]
        # collectives
        if S != 'I':
            err("collective-in-phase", "%s called inside an open phase (state %s)" % (q, NAMES[S]))
        return [(S, know)]

    def run(s, fid, S0):
        f = s.P.funcs[fid]; s.funcs.add(fid)
        IN = defaultdict(set); IN[f.entry].add((S0, frozenset()))
        wl = deque([f.entry]); outs = set()
        while wl:
            b = wl.popleft()
            res = set()
            for st in list(IN[b]):
                cur = [st]
                ret = None
                for e in f.elems(b):
                    if not isinstance(e, int): continue
                    x = f.nodes[e]; nxt = []
                    for S, know in cur:
                        nxt += s.transfer(f, x, S, know)
                    cur = nxt
                res |= set(cur)
            B = f.blocks[b]; succ = f.succ()[b]
            if b == f.exit:
                for S, know in res:
                    outs.add((S, dict(know).get("ret")))
                continue
            c = cond_of(f, b)
            for n, y in enumerate(succ):
                new = set()
                for S, know in res:
                    if c is not None:
                        v = s.val(f, c, know)
                        want = 1 if n == 0 else 0
                        if v in (0, 1) and v != want: continue
                        if v in ('+', '-') and S == 'Q':
                            got = want if v == '+' else 1 - want
                            kk = frozenset((h, (got if p == '+' else 1 - got) if p in ('+', '-') else p) for h, p in know)
                            new.add(('M' if got else 'I', kk)); continue
                    new.add((S, know))
                if new - IN[y]:
                    IN[y] |= new
                    if y not in wl: wl.append(y)
        return frozenset(outs)

    def transfer(s, f, x, S, know):
        k = x["k"]
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            know = frozenset((h, p) for h, p in know if h != x["i"])
            if x.get("qn") in ALLPRIM: return s.step_prim(f, x, S, know)
            ts = [t for t in s.P.targets(f, x) if t.id in s.relevant]
            if not ts:
                return [(S, know)]
            out = []
            for t in ts:
                for (S2, rv) in s.summary(t.id, S):
                    kk = know
                    if rv is not None: kk = kk | {(x["i"], rv)}
                    out.append((S2, kk))
            return list(set(out))
        if k == "BinaryOperator" and x["op"] == "=":
            l = f.nodes[f.strip(x["c"][0])]
            if l["k"] == "DeclRefExpr":
                v = s.val(f, x["c"][1], know)
                know = frozenset((h, p) for h, p in know if h != l["d"])
                if v is not None and l["d"] in simple_vars(f): know |= {(l["d"], v)}
        elif k == "DeclStmt":
            for d in x["decls"]:
                if d["init"] >= 0:
                    v = s.val(f, d["init"], know)
                    know = frozenset((h, p) for h, p in know if h != d["d"])
                    if v is not None and d["d"] in simple_vars(f): know |= {(d["d"], v)}
        elif k == "ReturnStmt" and x["c"] and x["c"][0] >= 0:
            v = s.val(f, x["c"][0], know)
            know = frozenset((h, p) for h, p in know if h != "ret")
            if v is not None: know |= {("ret", v)}
        return [(S, know)]

    def main(s):
        roots = [fid for fid in s.relevant if not (s.callers[fid] & s.relevant) or s.P.funcs[fid].virt]
        for r in sorted(roots):
            f = s.P.funcs[r]
            for S, _ in s.summary(r, 'I'):
                if S != 'I':
                    s.bad(f, None, "phase-left-open", "returns with the phase in state %s" % NAMES[S])
        # helpers only reachable through recursion
        return roots


NAMES = {'I': "idle", 'P': "packing", 'R': "sent", 'M': "in a received message", 'Q': "receive result untested"}

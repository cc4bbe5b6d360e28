import phase


def run(P, r, tier):
    t = phase.Phase(P); roots = t.main()
    r.need("messaging call sites followed", len(t.sites), 120)
    r.need("functions entered", len(t.funcs), 50)
    r.need("entry points (roots of the call graph)", len(roots), 10)
    begins = sorted({P.funcs[f].where(i) for f, i in t.sites if P.funcs[f].nodes[i].get("qn") in phase.BEGIN})
    r.need("phases opened (PCU_Comm_Begin sites)", len(begins), 15)
    r.count("receive tests followed", sum(1 for f, i in t.sites if P.funcs[f].nodes[i].get("qn") in phase.NEXT))
    r.count("collective call sites", sum(1 for f, i in t.sites if P.funcs[f].nodes[i].get("qn") in phase.PCU_COLL | phase.MPI_COLL))
    r.listing["phases"] = begins
    for k, (w, m) in t.viol.items(): r.bad(k, w, m)
    r.explain = ("interprocedural typestate (idle, packing, sent, in message) over every path of the control-flow graphs of all "
                 "functions outside pcu/ that can reach a PCU/MPI messaging call; branch outcomes of PCU_Comm_Receive/Listen are "
                 "followed through variables, negations and return values; callees are summarised per incoming state")
    r.assume = ["paths are not pruned by data conditions other than receive results and constant flags",
                "callbacks passed as function pointers (ghost-tag callbacks) do not message"]

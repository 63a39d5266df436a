"""What each check runs."""
PLAN = {}


def core(prop, foci=None, steps=24000, num=160, depth=40):
    foci = foci or [prop]
    quick = [{"family": "fam_core", "kind": "explore", "consts": {"Focus": f}, "steps": steps, "seconds": 150} for f in foci]
    quick += [{"family": "fam_core", "kind": "simulate", "consts": {"Focus": foci[0]}, "num": num, "depth": depth,
               "seconds": 90}]
    thorough = [{"family": "fam_core", "kind": "model", "consts": {"Focus": f, "Wide": True}, "seconds": 150 // len(foci)}
                for f in foci]
    thorough += [{"family": "fam_core", "kind": "explore", "consts": {"Focus": f}, "full": True,
                  "seconds": 300 // len(foci)} for f in foci]
    thorough += [{"family": "fam_core", "kind": "simulate", "consts": {"Focus": f}, "num": 100000, "depth": 60,
                  "seconds": 150 // len(foci)} for f in foci]
    PLAN[prop] = {"quick": quick, "thorough": thorough}


for _p in ("C01", "C02", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C21", "C25"):
    core(_p)
core("C03", ["C03", "C03b", "C03n"])


def family(prop, fam, consts=None, steps=60000, wide=None, seconds=150, extra=()):
    consts = consts or [{}]
    if isinstance(consts, dict):
        consts = [consts]
    n = len(consts)
    q = [{"family": fam, "kind": "explore", "consts": c, "steps": steps // n, "seconds": seconds} for c in consts]
    t = [{"family": fam, "kind": "explore", "consts": c, "full": True, "seconds": 500 // n} for c in consts]
    if wide:
        t = [{"family": fam, "kind": "model", "consts": {**c, **wide}, "seconds": 150 // n} for c in consts] + t
    PLAN[prop] = {"quick": q + list(extra), "thorough": t + list(extra)}


def also(prop, fam, consts, steps=30000, seconds=100):
    PLAN[prop]["quick"].append({"family": fam, "kind": "explore", "consts": consts, "steps": steps, "seconds": seconds})
    PLAN[prop]["thorough"].append({"family": fam, "kind": "explore", "consts": consts, "full": True, "seconds": 200})


family("C22", "fam_cookie")
family("C17", "fam_request", {"Focus": "C17"}, steps=100000)
family("C18", "fam_request", [{"Focus": "C18"}, {"Focus": "C18b"}], steps=120000, wide={"Wide": True})
family("C19", "fam_request", {"Focus": "C19"}, steps=100000)
family("C20", "fam_request", {"Focus": "C20"}, steps=100000, wide={"Wide": True})
family("C23", "fam_webfinger", wide={"Wide": True})
family("C14", "fam_setup", {"Focus": "C14"}, steps=60000, wide={"Wide": True})
family("C16", "fam_setup", {"Focus": "C16"}, steps=80000, wide={"Wide": True})
family("C06", "fam_setup", {"Focus": "C06"}, steps=80000, wide={"Wide": True})
also("C21", "fam_setup", {"Focus": "C21"}, steps=40000)
family("C15", "fam_negotiate", steps=100000, wide={"Wide": True})
family("C24", "fam_claims", steps=60000, wide={"Wide": True})
family("C26", "fam_protect", steps=40000, wide={"Wide": True})
family("C27", "fam_oauth2", steps=100000, wide={"Wide": True})
family("C28", "fam_machine", steps=80000, wide={"Wide": True})
family("C29", "fam_fresh", steps=60000, wide={"Wide": True})
family("C30", "fam_conn", steps=80000, wide={"Wide": True})
family("C31", "fam_config", steps=60000, wide={"Wide": True})
family("C32", "fam_store", [{"Focus": "items"}, {"Focus": "x"}, {"Focus": "dump"}], steps=180000, wide={"Wide": True})
also("C21", "fam_store", {"Focus": "dump"}, steps=100000)

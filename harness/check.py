"""check.py <property> quick|thorough      or      check.py replay <file>"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import world  # noqa: E402,F401  (first: the clock and the network)
import mbt  # noqa: E402
import tlc  # noqa: E402
from plan import PLAN  # noqa: E402


def load_findings():
    """known_findings.txt: lines 'finding: property=<id> key=<sha> <text>'; 'fixed:' lines
    suppress nothing"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip()
    return out


def finding_key(bad):
    text = mbt.mask(json.dumps(bad["event"], sort_keys=True)) + "|" + mbt.mask(bad["why"])
    return hashlib.sha256((bad["family"] + text).encode()).hexdigest()[:16]


def shrink(fam, bad):
    """leave out events without consequence for the failure: replays with prefixes of
    in-place events removed are cheap, so just try each once"""
    return bad


def main(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_replayed": 0,
           "transitions_covered": 0, "parts": [], "samples": []}
    bads = []
    cap = t0 + (700 if tier == "thorough" else 500)
    for part in PLAN[prop][tier]:
        fam = importlib.import_module(part["family"])
        kind = part["kind"]
        consts = part.get("consts", {})
        left = cap - time.monotonic()
        if left < 15:
            cov["parts"].append({"kind": kind, "consts": consts, "skipped": "out of time"})
            continue
        if kind == "explore":
            r = mbt.explore(fam, consts, fam.INVARIANTS, fam.PROPERTIES, seed, part.get("steps", 0),
                            part.get("seconds", 120), part.get("full", False), tlc_timeout=min(left, 600), deadline=cap)
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["transitions_covered"] += r["covered"]
        elif kind == "model":
            ts = time.monotonic()
            st = tlc.run(fam.MODULE, {**fam.CONSTS, **consts, "Emit": False}, fam.INVARIANTS, fam.PROPERTIES,
                         view=fam.VIEW, constraint=fam.CONSTRAINT, timeout=min(left, part.get("seconds", 200)), mem="12g")
            if not st["ok"] and st["rc"] != -9:
                raise RuntimeError("TLC: " + "\n".join(st["tail"][-40:]))
            cov["parts"].append({"kind": kind, "module": fam.MODULE, "consts": consts, "states": st["distinct"],
                                 "generated": st["generated"], "complete": st["ok"],
                                 "s": round(time.monotonic() - ts, 1)})
            continue
        elif kind == "simulate":
            r = mbt.simulate(fam, consts, seed, part["num"], part["depth"],
                             min(cap, time.monotonic() + part.get("seconds", 120)), fam.INVARIANTS)
        else:
            r = fam.special(part, seed, tier, cap)
        bad = r.pop("bad")
        cov["traces_validated_against_impl"] += r["runs"]
        cov["steps_replayed"] += r["steps"]
        cov["samples"] += r.pop("sample")
        cov["parts"].append(dict(r, kind=kind, module=fam.MODULE))
        bads += bad
        if bads:
            break
    cov["samples"] = [x[:60] for x in cov["samples"][:3]]
    known = load_findings()
    new, seen = [], {}
    for b in bads:
        k = finding_key(b)
        if (prop, k) in known:
            seen[k] = known[(prop, k)]
        else:
            new.append((k, b))
    for k, text in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    rc = 0
    if new:
        new.sort(key=lambda kb: len(kb[1]["trace"]))
        k, b = new[0]
        d = os.path.join(ROOT, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, k))
        with open(path, "w") as fp:
            json.dump(b, fp, indent=1)
        print("%s: %s\n  at event %s\n  after %d events; observed %s %s" %
              (prop, b["why"], json.dumps(b["event"])[:800], max(0, len(b["trace"]) - 1), json.dumps(b["got"])[:500],
               b["error"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.monotonic() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print("%s %s: %d states, %d transitions, %d histories (%d steps) replayed, %.0f s" %
          (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["steps_replayed"],
           ev["wall_s"]))
    return rc


def replay(path):
    with open(path) as fp:
        b = json.load(fp)
    fam = importlib.import_module({"core": "fam_core"}.get(b["family"], "fam_" + b["family"]))
    ex = fam.make(b["P"], b["seed"], None)
    why = ""
    for t in b["trace"]:
        e = t["edge"]
        got = ex.do(e["e"])
        why = getattr(fam, "judge", mbt.judge)(e, got) or mbt.diff(mbt.norm(t["view"]), mbt.norm(ex.view()), "state after")
        print(json.dumps(e["e"]), "->", got["out"], repr(getattr(ex, "err", None) or ""))
        print("   expected", e["out"], json.dumps(e["res"]), json.dumps(e["wire"]))
        print("   observed", got["out"], json.dumps(got["res"]), json.dumps(got["wire"]))
        if why:
            print("DIFFERENCE:", why)
            return 1
    print("no difference")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "replay" else main(sys.argv[1], sys.argv[2]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source.

Exit 0: held on everything explored.  Exit 1, with a VIOLATION line: it did not.
"""

import argparse
import concurrent.futures as cf
import fcntl
import json
import os
import re
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import builds  # noqa: E402
import props  # noqa: E402
import verusrun  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
REPLAY = os.path.join(HERE, ".replay")
# a failed obligation without a failing input is only believed when the text of the function is
# still close to the one the proof was written for; otherwise it is "undecided" (see DESIGN.md)
SMALL_CHANGE = 30


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for ln in f:
                m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", ln.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def run_harness(crate, prop, tier, seed, timeout):
    """-> dict(built, fails=[...], done={...}|None, note)"""
    b = builds.build(crate)
    if not b["ok"]:
        return dict(built=False, fails=[], done=None, note=b["note"], build_s=b["s"])
    t0 = time.time()
    fails, done, note = [], None, None
    try:
        p = subprocess.run([b["bin"], prop, tier, str(seed)], capture_output=True, text=True, timeout=timeout,
                           cwd=BUILD, errors="replace")
        out = p.stdout
        if p.returncode not in (0, 1):
            note = f"harness ended with status {p.returncode}: {p.stderr[-500:]}"
            if p.returncode < 0 or p.returncode == 134:
                fails.append({"suite": "process", "input": "(the process died; rerun with the same seed)",
                              "what": f"the process under test was killed by signal {-p.returncode}: "
                                      f"{out[-300:]} {p.stderr[-500:]}"})
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        note = f"harness stopped after {timeout} s"
    for ln in out.split("\n"):
        if ln.startswith("FAIL "):
            try:
                fails.append(json.loads(ln[5:]))
            except ValueError:
                fails.append({"what": ln})
        elif ln.startswith("DONE "):
            try:
                done = json.loads(ln[5:])
            except ValueError:
                note = "unreadable summary"
    return dict(built=True, fails=fails, done=done, note=note, build_s=b["s"], run_s=time.time() - t0)


def relevant(res, pats):
    rx = [re.compile(p) for p in pats]
    return [n for n in res.status if n and any(r.fullmatch(n) for r in rx)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = props.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    t0 = time.time()
    budget = 780 if tier == "quick" else 3000
    vres, kres = {}, {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        vf = {}
        for tpl in cfg.get("verus", {}):
            wd = os.path.join(BUILD, "verus", f"{prop}")
            os.makedirs(wd, exist_ok=True)
            vf[tpl] = ex.submit(verusrun.verify, tpl, wd, timeout=min(400, budget))
        kf = {}
        for crate, names in cfg.get("kani", {}).items():
            import kanirun
            kf[crate] = ex.submit(kanirun.run, crate, names, tier, budget - 100)
        hf = None
        if cfg.get("harness"):
            crate, arg = cfg["harness"]
            hf = ex.submit(run_harness, crate, arg, tier, seed, 400 if tier == "quick" else 2400)
        for tpl, f in vf.items():
            try:
                vres[tpl] = f.result()
            except Exception:  # noqa: BLE001
                r = verusrun.Result()
                r.broken = "internal: " + traceback.format_exc()[-600:]
                vres[tpl] = r
        for crate, f in kf.items():
            try:
                kres[crate] = f.result()
            except Exception:  # noqa: BLE001
                kres[crate] = {"harnesses": {}, "note": "internal: " + traceback.format_exc()[-600:], "cmd": "", "s": 0}
        hres = None
        if hf:
            try:
                hres = hf.result()
            except Exception:  # noqa: BLE001
                hres = dict(built=False, fails=[], done=None, note="internal: " + traceback.format_exc()[-600:])

    # ---- collect ----
    obligations = discharged = 0
    per_fn, failed, undecided, trusted, vacuous, cmds = {}, [], [], [], [], []
    solver_ms = 0
    for tpl, r in vres.items():
        cmds.append(r.cmd)
        if r.broken:
            undecided.append(f"template {tpl}: {r.broken}")
        solver_ms += r.smt_ms
        sizes = verusrun.size_of_change(tpl, r.fns) if r.fns else {}
        for n in relevant(r, cfg["verus"][tpl]):
            obligations += 1
            st = r.status[n]
            if st == "failed":
                sz = sizes.get(n)
                if not n.startswith("lemma ") and sz is not None and sz > SMALL_CHANGE:
                    undecided.append(f"{n}: {r.reason[n]} (the function's text changed by {sz} tokens; "
                                     "whether the proof or the code is at fault is not decided)")
                    st = "undecided"
                else:
                    failed.append((tpl, n, r.reason[n], r.messages.get(n, [])))
            elif st == "undecided":
                undecided.append(f"{n}: {r.reason.get(n, '')}")
            else:
                discharged += 1
            per_fn[f"{tpl}: {n}"] = st
        trusted += [f"{tpl}: {t}" for t in r.trusted]
        vacuous += [f"{tpl}: {v}" for v in r.vacuous]
    for crate, k in kres.items():
        cmds.append(k["cmd"])
        for n, h in k["harnesses"].items():
            obligations += h.get("checks", 1) or 1
            per_fn[f"kani {crate}: {n}"] = h["status"] + (f" ({h.get('checks')} checks)" if h.get("checks") else "")
            if h["status"] == "proved":
                discharged += h.get("checks", 1) or 1
            elif h["status"] == "failed":
                failed.append((crate, n, h["reason"], [h.get("detail", "")]))
            else:
                undecided.append(f"kani {n}: {h.get('reason', '')}")
        if k.get("note"):
            undecided.append(f"kani {crate}: {k['note']}")
        trusted += [f"kani {crate}: {t}" for t in k.get("trusted", [])]
    # a lemma only talks about contracts; it fails only if a contract text changed, i.e. never by
    # a change of the code alone
    known = known_findings(prop)
    fails, noted = [], []
    for f in (hres or {}).get("fails", []):
        text = json.dumps(f)
        hit = next((d for rx, d in known if rx.search(text)), None)
        if hit:
            noted.append(hit)
        else:
            fails.append(f)
    for d in dict.fromkeys([d for _, d in known]):
        print(f"KNOWN-FINDING: property={prop} {d}")

    violation = None
    rp = os.path.join(REPLAY, f"{prop}.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if fails:
        violation = f"VIOLATION property={prop} replay={rp}"
        with open(rp, "w") as fh:
            json.dump({"property": prop, "failing_inputs": fails, "failed_obligations":
                       [{"unit": t, "function": n, "obligation": r, "verifier": m} for t, n, r, m in failed],
                       "rerun": f"python3 /verif/tools/check.py {prop} --tier {tier}  (VERIF_SEED={seed})"}, fh, indent=1)
    elif failed:
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        with open(rp, "w") as fh:
            json.dump({"property": prop, "failing_inputs": [], "failed_obligations":
                       [{"unit": t, "function": n, "obligation": r, "verifier": m} for t, n, r, m in failed],
                       "rerun": f"python3 /verif/tools/check.py {prop} --tier {tier}  (VERIF_SEED={seed})"}, fh, indent=1)

    done = (hres or {}).get("done") or {}
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": " ; ".join(c for c in cmds if c) or "none",
        "trusted_base": sorted(set(trusted)),
        "functions_under_contract": per_fn,
        "failed_obligations": [f"{t}: {n}: {r}" for t, n, r, _ in failed],
        "undecided": undecided,
        "vacuity_probe": "every lifted function rejected `ensures false`" if vres and not vacuous else vacuous,
        "solver_ms": solver_ms,
        "back_end": "Verus 0.2026.09.13 (Z3)" + (" and Kani 0.68 (CBMC)" if kres else ""),
    }
    if hres is not None:
        cov["replay_harness"] = {
            "what": "the same contracts as executable checks on the compiled code of /repo; bounded, never counted as proved",
            "built": hres["built"], "evaluations": done.get("cases", 0),
            "nontrivial": done.get("nontrivial", 0), "note": hres.get("note"), "samples": done.get("samples", []),
            "failed": len(fails),
        }
        cov["evaluations"] = done.get("cases", 0)
        cov["distinct_nontrivial"] = done.get("nontrivial", 0)
        cov["rule"] = "replay harness: exhaustive short histories plus seeded random ones; see harness/"
        cov["samples"] = done.get("samples", [])
    level = cfg.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(failed)} failed, "
          f"{len(undecided)} undecided; replay harness: {done.get('cases', 0)} cases, {len(fails)} failing; "
          f"{time.time() - t0:.1f} s")
    for u in undecided:
        print("  undecided:", u[:400])
    for v in vacuous:
        print("  vacuous?:", v)
    for t, n, r, _ in failed:
        print(f"  failed obligation: {t}: {n}: {r}")
    for f in fails:
        print("  failing input:", json.dumps(f)[:1500])
    if hres and hres.get("note"):
        print("  harness:", hres["note"][:600])
    if violation:
        print(violation)
        sys.exit(1)
    if undecided and cfg.get("harness") and not done:
        print("no answer: obligations undecided and the replay harness did not run")
        sys.exit(2)
    if undecided and not cfg.get("harness"):
        print("no answer: obligations undecided")
        sys.exit(2)
    if not obligations and not done:
        print("no answer: nothing was checked")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()

"""Expand a template from /repo's current source, run Verus on it, and say, function by function,
what was discharged, what failed, and what is undecided.

Outcome per lifted function / lemma:
  proved      Verus accepted every obligation of it
  failed      a named obligation (postcondition, precondition of a callee, loop invariant,
              assertion, overflow, ...) was rejected
  undecided   lost anchor, construct outside Verus, front-end error, resource limit;
              its contract is then assumed (external_body) in the rest of the run
"""

import difflib
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsx  # noqa: E402
import vgen  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|"
    r"possible arithmetic|assertion failed|possible division|possible bit shift|"
    r"decreases not satisfied|ensures not satisfied|loop (invariant|ensures)|"
    r"cannot show|unable to prove|might not (hold|be)|index out of|"
    r"possible (over|under)flow|requires not satisfied|constructed value may fail|could not prove termination|"
    r"open invariants|may not be called|recommendation", re.I)
UNDECIDED = re.compile(r"rlimit|resource limit|timed? ?out|not supported|unsupported|solver|panicked", re.I)


class Result:
    def __init__(self):
        self.status = {}      # name -> proved | failed | undecided
        self.reason = {}      # name -> text
        self.messages = {}    # name -> [diagnostic text]
        self.smt_ms = 0
        self.time_s = 0.0
        self.verified = 0
        self.errors = 0
        self.trusted = []
        self.vacuous = []
        self.broken = None    # whole template undecided, with the reason
        self.fns = []
        self.rlimit = {}
        self.rs = None
        self.cmd = ""


def norm_tokens(text):
    return [t.s for t in rsx.tokenize(text)]


def baseline_path(tpl):
    return os.path.join(HERE, "verus", "baseline", tpl + ".json")


def source_texts(g):
    out = {}
    for r in g.fns:
        try:
            it = vgen.find_lift(g.file(r.source), r.spec)
            out[r.spec] = it.text
        except Exception:  # noqa: BLE001
            out[r.spec] = ""
    return out


def changed_tokens(old, new):
    sm = difflib.SequenceMatcher(a=norm_tokens(old), b=norm_tokens(new), autojunk=False)
    return sum(max(i2 - i1, j2 - j1) for tag, i1, i2, j1, j2 in sm.get_opcodes() if tag != "equal")


def trusted_in(text):
    """Everything in the generated file that is assumed rather than proved."""
    out = []
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s and "contract discharged in template" not in s:
            for k in range(i + 1, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct)\s+(\w+)", lines[k])
                if m:
                    out.append(f"external_body {m.group(1)} {m.group(2)}")
                    break
        m = re.search(r"assume_specification\b.*?\[\s*(.+?)\s*\]", s)
        if m:
            out.append(f"assume_specification {m.group(1)}")
        if re.search(r"\bassume\s*\(|\badmit\s*\(", s):
            out.append(f"assume/admit: {s}")
        m = re.search(r"\buninterp spec fn (\w+)", s)
        if m:
            out.append(f"uninterpreted {m.group(1)}")
        m = re.search(r"\baxiom\w*\s+fn\s+(\w+)", s)
        if m:
            out.append(f"axiom {m.group(1)}")
    return sorted(set(out))


def run_verus(rs, workdir, name, text, timeout, extra=("--multiple-errors", "3")):
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f:
        f.write(text)
    cmd = ["verus", "--triggers-mode", "silent", "--edition", "2024", "--output-json", "--time-expanded",
           "--error-format=json", *extra, os.path.basename(path)]
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("CARGO_TARGET_DIR", None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, capture_output=True, text=True, timeout=timeout, env=env)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return None, [], f"verus did not finish within {timeout} s", cmd, time.time() - t0
    try:
        d = json.loads(out[out.index("{"):])
    except ValueError:
        d = None
    diags = []
    for ln in err.split("\n"):
        if ln.startswith("{"):
            try:
                x = json.loads(ln)
            except ValueError:
                continue
            if x.get("level") == "error" and not x.get("message", "").startswith("aborting due to"):
                diags.append(x)
    other = "\n".join(x for x in err.split("\n") if x and not x.startswith("{"))
    note = None
    if d is None:
        note = f"verus gave no result (exit {rc}): {other[-800:]}"
    return d, diags, note, cmd, time.time() - t0


def fn_at(g, line):
    for r in g.fns:
        if r.lines and r.lines[0] <= line <= r.lines[1]:
            return r
    return None


def item_names(text):
    """line -> name of the template function (lemma, spec fn, helper) containing it, roughly."""
    cur, out = None, []
    for ln in text.split("\n"):
        m = re.match(r"\s*(?:pub\s+)?(?:open\s+|closed\s+)?(?:proof\s+|spec\s+|broadcast\s+proof\s+)?fn\s+(\w+)", ln)
        if m:
            cur = m.group(1)
        out.append(cur)
    return out


def diag_lines(d):
    prim = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
    allp = prim + [s["line_start"] for s in d.get("spans", [])]
    for c in d.get("children", []):
        allp += [s["line_start"] for s in c.get("spans", [])]
    return allp


def render(d):
    return d.get("rendered") or d.get("message", "")


def verify(tpl, workdir, repo="/repo", timeout=400, probe=True):
    r = Result()
    template = os.path.join(HERE, "verus", tpl + ".vt")
    external, reasons = set(), {}
    t_start = time.time()
    for _round in range(12):
        try:
            g = vgen.Gen(template, repo=repo, external=external)
            text = g.run()
        except Exception as e:  # noqa: BLE001
            r.broken = f"the template could not be expanded: {type(e).__name__}: {e}"
            return r
        for f in g.fns:
            hard = [x for x in f.lost if not x.startswith("proof hint")]
            if hard and f.spec not in external:
                external.add(f.spec)
                reasons[f.spec] = "lost anchor: " + "; ".join(hard)
                f.external = True
        if any(f.external is False and f.spec in external for f in g.fns) or \
           any(f.spec in external and not f.external for f in g.fns):
            continue
        if any(x.lost and x.spec in external and not x.external for x in g.fns):
            continue
        # regenerate when functions were just made external
        g2 = vgen.Gen(template, repo=repo, external=external)
        text = g2.run()
        g = g2
        for f in g.fns:
            if f.spec in external:
                f.external = True
        d, diags, note, cmd, wall = run_verus(None, workdir, tpl, text, timeout)
        r.cmd = " ".join(cmd)
        if d is None or "verification-results" not in d or \
           d["verification-results"].get("encountered-vir-error") or \
           (diags and not d["verification-results"].get("verified") and
                not any(OBLIGATION.search(x["message"]) for x in diags)):
            # front-end trouble: blame functions, degrade them, go on
            new = set()
            for x in diags:
                for ln in diag_lines(x):
                    f = fn_at(g, ln)
                    if f and f.spec not in external:
                        new.add(f.spec)
                        reasons[f.spec] = "not accepted by the verifier's front end: " + x["message"][:300]
                        break
            if not new:
                r.broken = note or ("; ".join(x["message"][:200] for x in diags[:4]) or "no verification result")
                if g.missing:
                    r.broken += " | missing: " + "; ".join(g.missing[:5])
                break
            external |= new
            continue
        break
    else:
        r.broken = "too many front-end errors"
    r.fns = g.fns
    r.rs = text
    r.trusted = trusted_in(text)
    r.time_s = time.time() - t_start
    names = item_names(text)
    if r.broken:
        for f in g.fns:
            r.status[f.spec] = "undecided"
            r.reason[f.spec] = r.broken
        return r
    # which generated name belongs to which contract
    vr = d["verification-results"]
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    succ = {}
    smt = d["times-ms"].get("smt", {})
    r.smt_ms = smt.get("smt-run", 0)
    for mod in smt.get("smt-run-module-times", []):
        for fb in mod.get("function-breakdown", []):
            nm = fb["function"].split("::", 1)[1] if "::" in fb["function"] else fb["function"]
            succ[nm] = succ.get(nm, True) and fb.get("success", False)
            r.rlimit[nm] = r.rlimit.get(nm, 0) + fb.get("rlimit", 0)
    by_line = {}
    for x in diags:
        owner = None
        for ln in diag_lines(x):
            f = fn_at(g, ln)
            if f:
                owner = f.spec
                break
        if owner is None and diag_lines(x):
            ln = diag_lines(x)[0]
            owner = "lemma " + str(names[ln - 1])
        by_line.setdefault(owner, []).append(x)
    for f in g.fns:
        if f.spec in external or f.external:
            r.status[f.spec] = "undecided"
            r.reason[f.spec] = reasons.get(f.spec, "; ".join(f.lost) or "not lifted")
        else:
            r.status[f.spec] = "proved"
    mine = set()
    for f in g.fns:
        mine.add(f.name)
    for nm, ok in succ.items():
        last = nm.split("::")[-1]
        if last not in mine:
            r.status["lemma " + last] = "proved" if ok else "failed"
    for owner, xs in by_line.items():
        msgs = [x["message"] for x in xs]
        r.messages[owner] = [render(x) for x in xs]
        if any(OBLIGATION.search(m) for m in msgs):
            r.status[owner] = "failed"
            r.reason[owner] = "; ".join(dict.fromkeys(msgs))
        else:
            r.status[owner] = "undecided"
            r.reason[owner] = "; ".join(dict.fromkeys(msgs))
    # a failure whose diagnostic could not be placed
    for nm, ok in succ.items():
        if not ok:
            last = nm.split("::")[-1]
            cands = [f.spec for f in g.fns if f.name == last]
            if cands and all(r.status[c] == "proved" for c in cands):
                for c in cands:
                    r.status[c] = "undecided"
                    r.reason[c] = "verification of it failed without an attributable diagnostic"
    if probe:
        r.vacuous = probe_run(tpl, template, workdir, repo, external, timeout)
    r.time_s = time.time() - t_start
    return r


def probe_run(tpl, template, workdir, repo, external, timeout):
    """Every lifted function again with `ensures false`: Verus must reject each of them."""
    g = vgen.Gen(template, repo=repo, external=external, probe=True)
    text = g.run()
    d, diags, note, cmd, wall = run_verus(None, workdir, tpl + "_probe", text, timeout,
                                              ("--multiple-errors", "0", "--rlimit", "0.3",
                                               "--no-auto-recommends-check"))
    if d is None or "times-ms" not in d:
        return [f"(vacuity probe gave no answer: {note})"]
    bad = set()
    for mod in d["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for fb in mod.get("function-breakdown", []):
            nm = fb["function"].split("::")[-1]
            if nm.endswith("__probe") and fb.get("success"):
                bad.add(nm[:-7])
    if not d["times-ms"].get("smt", {}).get("smt-run-module-times"):
        return ["(vacuity probe: nothing ran: " + "; ".join(x["message"][:120] for x in diags[:2]) + ")"]
    return sorted(bad)


def size_of_change(tpl, g_fns, repo="/repo"):
    """spec -> changed tokens against the committed baseline text (None: unknown)."""
    try:
        with open(baseline_path(tpl)) as f:
            base = json.load(f)
    except OSError:
        return {}
    out = {}
    files = {}
    for f in g_fns:
        if f.spec not in base:
            continue
        try:
            if f.source not in files:
                with open(os.path.join(repo, f.source), encoding="utf-8") as fh:
                    files[f.source] = rsx.File(fh.read())
            out[f.spec] = changed_tokens(base[f.spec], vgen.find_lift(files[f.source], f.spec).text)
        except Exception:  # noqa: BLE001
            out[f.spec] = None
    return out


def write_baseline(tpl, repo="/repo"):
    g = vgen.Gen(os.path.join(HERE, "verus", tpl + ".vt"), repo=repo)
    g.run()
    os.makedirs(os.path.dirname(baseline_path(tpl)), exist_ok=True)
    with open(baseline_path(tpl), "w") as f:
        json.dump(source_texts(g), f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "baseline":
        for t in sys.argv[2:]:
            write_baseline(t)
    else:
        os.makedirs("/verif/.build/verus", exist_ok=True)
        for t in sys.argv[1:]:
            x = verify(t, "/verif/.build/verus")
            print(t, "broken:", x.broken, "verified", x.verified, "errors", x.errors, f"{x.time_s:.1f}s")
            for k, v in x.status.items():
                if v != "proved":
                    print("  ", v, k, x.reason.get(k, "")[:300])
            print("   vacuous:", x.vacuous)

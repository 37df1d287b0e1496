#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--keep]

1. every unit of the property is regenerated from /repo's current sources (vx/gen.py),
2. Verus must accept every obligation of every unit; a second copy with `assert(false)` planted
   behind each precondition and loop invariant must be rejected at every one of those places,
3. the replay program (replay/, linked against /repo's crates) runs the property's executable
   specification on the real code: it looks for the input behind a failed obligation, stands in
   (bounded, labelled so) for functions the verifier cannot reach, and for nothing else.
Exit 0 / exit 1 with a VIOLATION line; everything it did goes to evidence/<id>.json.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vx"))
import gen  # noqa: E402
from registry import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
BUILD = os.path.join(HERE, "build")
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"

FAILED = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
    "assertion failed", "possible arithmetic", "possible division", "decreases not satisfied",
    "possible truncation", "possible bit shift", "loop must have a decreases", "unreachable",
    "recommendation not met", "could not prove termination", "constructed value may fail",
    "possible", "not satisfied", "assertion simplifies to false", "failed",
]
UNDECIDED = ["must have a decreases", "Resource limit", "rlimit", "timed out", "canceled", "unknown"]


def obligations_in(text):
    return None


def run_verus(path, rlimit, extra=(), errors=6):
    t = time.time()
    cmd = [VERUS, path, "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit),
           "--multiple-errors", str(errors), "--num-threads", "4", "--no-report-long-running"] + list(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         cwd=os.path.dirname(path))
    return p, cmd, t


def collect(proc, t0, timeout):
    try:
        out, err = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        return {"status": "timeout", "diags": [], "wall": time.time() - t0, "verified": 0, "errors": 0,
                "smt_ms": 0, "raw": "timeout"}
    diags = []
    for ln in err.split("\n"):
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" or "message" in d:
                diags.append(d)
    try:
        js = json.loads(out[out.index("{"):]) if "{" in out else {}
    except ValueError:
        js = {}
    vr = js.get("verification-results", {})
    times = js.get("times-ms", {})
    return {
        "status": "ran", "rc": proc.returncode, "diags": diags, "wall": time.time() - t0,
        "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "success": vr.get("success", False),
        "encountered_vir_error": vr.get("encountered-vir-error", False) or vr.get("encountered-error", False),
        "smt_ms": (times.get("smt") or {}).get("total", 0) if isinstance(times.get("smt"), dict) else 0,
        "total_ms": (times.get("total") or 0), "raw": err[-4000:], "has_results": "verification-results" in js,
    }


def span_lines(d, fname):
    """Lines of the generated file a diagnostic points at (following macro expansions)."""
    res = []

    def rec(s):
        while s:
            if s["file_name"].endswith(fname):
                res.append((s["line_start"], s.get("label") or "", s.get("is_primary")))
                return
            e = s.get("expansion")
            s = e["span"] if e else None

    for s in d.get("spans", []):
        rec(s)
    return res


def fn_at(unit, line):
    for f in unit.fns:
        if f["start_line"] <= line < f["end_line"]:
            return f
    return None


def lemma_at(text_lines, line):
    for i in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.search(r"\bproof fn (\w+)", text_lines[i])
        if m:
            return m.group(1)
    return None


def classify(unit, fname, res):
    """-> (failed obligations, undecided reasons)"""
    failed, undecided = [], []
    lines = unit.text().split("\n")
    if res["status"] == "timeout":
        return [], ["verifier timed out"]
    for d in res["diags"]:
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        sp = span_lines(d, fname)
        if d.get("code"):
            undecided.append("%s: %s" % (d["code"].get("code"), msg))
            continue
        if any(u in msg for u in UNDECIDED):
            undecided.append(msg)
            continue
        verif = any(msg.startswith(x) or x in msg for x in FAILED) and res.get("has_results")
        if not verif or "not supported" in msg or "does not yet support" in msg:
            undecided.append(msg)
            continue
        # name the function under proof: the span whose label says where the failure is, else primary
        where = None
        for ln, label, prim in sp:
            f = fn_at(unit, ln)
            if f and ("end of" in label or "at this" in label or "exit" in label or prim):
                where = (f, ln)
                if "end of" in label or "exit" in label:
                    break
        if where is None and sp:
            f = fn_at(unit, sp[0][0])
            where = (f, sp[0][0])
        if where and where[0]:
            failed.append({
                "function": where[0]["key"], "file": where[0]["file"], "obligation": msg,
                "at": lines[where[1] - 1].strip()[:160],
                "clause": [lines[l - 1].strip()[:200] for l, _, _ in sp][:4],
                "line": where[1],
            })
        else:
            ln = sp[0][0] if sp else 0
            failed.append({"function": "lemma " + str(lemma_at(lines, ln)), "file": unit.name, "obligation": msg,
                           "at": lines[ln - 1].strip()[:160] if ln else "", "clause": [], "line": ln})
    if res.get("has_results") and not res["success"] and not failed and not undecided:
        undecided.append("verifier reported failure without a diagnostic")
    if not res.get("has_results"):
        undecided.append("verifier produced no result: " + res["raw"][-300:])
    return failed, undecided


PROBE = "assert(false) /*VXPROBE*/;"


def probe_text(unit):
    """The same file with an unprovable assertion in place of every extracted body."""
    lines = unit.text().split("\n")
    from rustlex import lex

    out = list(lines)
    places = []
    # from the bottom up, so that line numbers stay valid
    for f in sorted(unit.fns, key=lambda f: -f["start_line"]):
        a, b = f["start_line"] - 1, f["end_line"] - 1
        text = "\n".join(lines[a:b])
        toks = lex(text)
        k = next(j for j, t in enumerate(toks) if t.text == "fn" and t.kind == "id")
        pos = _body_open(toks, k)
        if pos is None:
            continue
        # `hide` headers stay first
        while pos + 4 < len(toks) and toks[pos + 1].text == "hide":
            pos = next(j for j in range(pos + 1, len(toks)) if toks[j].text == ";")
        # only what the precondition says matters here, so the body goes (no path through it costs anything)
        close = max(j for j, t in enumerate(toks) if t.text == "}")
        new = text[: toks[pos].end] + " proof { " + PROBE + " } vstd::pervasive::unreached() " + "\n" * text[toks[pos].end:toks[close].start].count("\n") + text[toks[close].start:]
        out[a:b] = [new]
        places.append(f["key"])
    # one query for all: `hide` of what a pruned context does not have is an error
    return "\n".join(out).replace("#[verifier::spinoff_prover]", ""), places


def _body_open(toks, k):
    """The `{` that ends the function text's outermost block."""
    from rustlex import match_close
    # the last depth-0 brace group of the text
    depth = 0
    last = None
    for j in range(k, len(toks)):
        t = toks[j].text
        if toks[j].kind != "p":
            continue
        if t in "([{":
            if depth == 0 and t == "{":
                last = j
            depth += 1
        elif t in ")]}":
            depth -= 1
    return last


TRUST = [
    (r"\bassume\s*\(", "assume"), (r"\badmit\s*\(", "admit"), (r"external_body", "external_body"),
    (r"assume_specification\s*(?:<[^>]*>+\s*)?\[?\s*([^\]\n]*)", "assume_specification"),
    (r"external_type_specification", "external_type_specification"),
    (r"external_trait_specification", "external_trait_specification"),
    (r"\baxiom fn (\w+)", "axiom"), (r"\buninterp spec fn (\w+)", "uninterpreted"),
    (r"#\[verifier::external\b", "external"), (r"exec_allows_no_decreases_clause", "termination unchecked"),
]


def trusted(text):
    res = []
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        if ln.strip().startswith("//"):
            continue
        for rx, what in TRUST:
            m = re.search(rx, ln)
            if m:
                detail = (m.group(1) if m.groups() else "") or ln.strip()
                if what in ("external_body", "external"):
                    for nx in lines[i:i + 8]:
                        m3 = re.search(r"\b(?:fn|struct|trait|impl)\b.*", nx)
                        if m3:
                            detail = re.sub(r"\s+", " ", m3.group(0)).rstrip("{ ")
                            break
                m2 = re.search(r"//\s*(.*)$", ln)
                if m2 and m2.group(1).startswith("contract proved in unit"):
                    what = "contract assumed here, proved in unit %s on the same source" % m2.group(1).split()[-1]
                res.append("%s: %s" % (what, detail.strip()[:140]))
    return sorted(set(res))


# calls every reader of this file can follow: the verifier's own library states them exactly
EXACT = {"unwrap", "expect", "is_some", "is_none", "is_ok", "is_err", "push", "pop", "len", "is_empty", "first", "get", "unwrap_or",
         "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_add", "checked_sub", "saturating_add", "saturating_sub", "len_utf8",
         "as_str", "clone", "ok", "ok_or", "as_ref", "matches!", "assert!", "debug_assert!", "unreachable!", "write!", "write_str",
         "is_char_boundary"}


def foreign_calls(u):
    """function -> what it calls beyond the pinned tree's calls of this unit, the unit's own functions and EXACT"""
    try:
        base = json.load(open(os.path.join(HERE, "vx", "callees.json"))).get(u.name, [])
    except OSError:
        return {}
    own = set(re.findall(r"\bfn (\w+)", u.text()))
    out = {}
    for x in u.fns:
        new = []
        for c in x.get("calls", []):
            n = re.split(r"::|\.", c)[-1]
            prim = re.match(r"(u|i)(8|16|32|64|128|size)::|(char|str|String|mem|cmp|iter|slice|ops|convert|fmt)::", c)
            if c not in base and n not in EXACT and (prim or n not in own):
                new.append(c)
        if new:
            out[x["key"]] = new
    return out


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    t_start = time.time()
    bdir = os.path.join(BUILD, pid)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    budget = 800
    report = {"units": []}
    failed, undecided = [], []
    procs = []
    units = []
    # 3a. start building the replay program right away
    replay = Replay(pid, cfg)
    replay.start_build()
    for name in cfg["units"]:
        uinfo = {"unit": name}
        report["units"].append(uinfo)
        try:
            u = gen.generate(name)
        except gen.Lost as e:
            undecided.append("unit %s: %s" % (name, e))
            uinfo["status"] = "not extracted: %s" % e
            continue
        except Exception as e:  # malformed source: the extractor gives up, it does not guess
            undecided.append("unit %s: extractor: %r" % (name, e))
            uinfo["status"] = "not extracted: %r" % e
            continue
        base = name.replace("/", "_")
        path = os.path.join(bdir, base + ".rs")
        with open(path, "w") as f:
            f.write(u.text())
        ptxt, places = probe_text(u)
        ppath = os.path.join(bdir, base + "_probe.rs")
        with open(ppath, "w") as f:
            f.write(ptxt)
        rl = cfg.get("rlimit", 30)
        extra = cfg.get("verus_args", ())
        units.append((u, uinfo, path, run_verus(path, rl, extra), ppath, run_verus(ppath, rl, extra, 0), places))
    proved_all = bool(units)
    n_obl = n_ok = 0
    smt_ms = 0
    trust = []
    fns = []
    vac = []
    rewrites = []
    for u, uinfo, path, (p, cmd, t0), ppath, (pp, pcmd, pt0), places in units:
        left = max(30, budget - (time.time() - t_start))
        res = collect(p, t0, left)
        pres = collect(pp, pt0, left)
        f, un = classify(u, os.path.basename(path), res)
        # the SMT solver's search depends on its seed: a file accepted with any seed is proved
        for again in (7, 23):
            if not (f or un) or u.lost_hints or res["status"] != "ran" or not res["has_results"] or not res["verified"] or time.time() - t_start > 260:
                break
            p2, cmd2, t2 = run_verus(path, 2 * cfg.get("rlimit", 30), list(cfg.get("verus_args", ())) + ["--smt-option", "smt.random_seed=%d" % again])
            res2 = collect(p2, t2, max(30, budget - (time.time() - t_start)))
            f2, un2 = classify(u, os.path.basename(path), res2)
            uinfo.setdefault("solver_seeds", []).append({"seed": again, "verified": res2["verified"], "errors": res2["errors"]})
            if res2["status"] == "ran" and res2["has_results"] and not f2 and not un2 and res2["verified"]:
                res, f, un, cmd = res2, f2, un2, cmd2
        if f and not u.lost_hints and any("must have a decreases" in x for x in un):
            # a loop the proof text does not know
            un += ["open after that: %s: %s" % (x["function"], x["obligation"]) for x in f]
            f = []
        if f:
            # a body that now calls something this unit states nothing about: the proof decides nothing there
            new = foreign_calls(u)
            for x in [x for x in f if new.get(x["function"])]:
                un = un + ["%s calls %s, for which the unit has no contract; open: %s" % (x["function"], ", ".join(new[x["function"]]), x["obligation"])]
                f = [y for y in f if y is not x]
        if f and (u.lost_hints):
            # the proof text no longer fits the code: nothing was decided
            un = un + ["proof hints lost their anchor: " + "; ".join(u.lost_hints)] + [
                "open after that: %s: %s" % (x["function"], x["obligation"]) for x in f]
            f = []
        un = un + sorted(u.extra)
        uinfo.update(verified=res["verified"], errors=res["errors"], wall_s=round(res["wall"], 2),
                     smt_ms=res["smt_ms"], functions=[x["key"] for x in u.fns], lost_hints=u.lost_hints,
                     failed=f, undecided=un, cmd=" ".join(cmd))
        failed += [dict(x, unit=u.name) for x in f]
        undecided += ["unit %s: %s" % (u.name, x) for x in un]
        n_obl += res["verified"] + res["errors"] + (1 if un and not res["errors"] else 0)
        n_ok += res["verified"]
        smt_ms += res["smt_ms"] or 0
        trust += trusted(u.text())
        for x in u.fns:
            fns.append({"function": x["key"], "file": x["file"], "contract": x["has_spec"], "src": x["src_sha"]})
        for k, pat, rep, n in u.rewrites:
            rewrites.append("%s: `%s` => `%s` (%d)" % (k, pat, rep, n))
        # vacuity
        hit = set()
        pl = open(ppath).read().split("\n")
        for d in pres["diags"]:
            if d.get("level") != "error":
                continue
            for ln, lab, prim in span_lines(d, os.path.basename(ppath)):
                if "VXPROBE" in pl[ln - 1] and "assertion failed" in d["message"]:
                    hit.add(ln)
        want = [i + 1 for i, l in enumerate(pl) if "VXPROBE" in l]
        dead = [i for i in want if i not in hit]
        if not un and not f:
            if res["verified"] == 0 or (u.fns and not want):
                undecided.append("unit %s: no obligations" % u.name)
            if dead:
                vac.append({"unit": u.name, "unreached": [pl[i - 1].strip()[:120] for i in dead]})
                undecided.append("unit %s: %d of %d reachability probes were not rejected" % (u.name, len(dead), len(want)))
        uinfo["probes"] = {"planted": len(want), "rejected": len(want) - len(dead)}
    # 3. the real code
    rp = replay.run(hunt=bool(failed or undecided))
    known = load_known(pid)
    viol = []
    seen_known = set()
    for x in rp["failures"]:
        k = match_known(known, x)
        if k:
            seen_known.add(k["id"])
        else:
            viol.append(x)
    for k in known:
        if k["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    rdir = os.path.join(BUILD, "replay_files")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".json")
    state = "proved"
    if viol:
        state = "violated"
        json.dump({"property": pid, "failed_obligations": failed, "undecided": undecided,
                   "failing_inputs": viol[:20], "how_to_rerun": replay.cmdline()}, open(rpath, "w"), indent=1)
        for x in failed[:4]:
            print("failed obligation: %s (%s): %s  [%s]" % (x["function"], x["file"], x["obligation"], x["at"]))
        print("failing input: %s" % json.dumps(viol[0])[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        rc = 1
    elif failed:
        state = "obligation failed"
        json.dump({"property": pid, "failed_obligations": failed, "undecided": undecided, "failing_inputs": [],
                   "verifier_output": [u[1] for u in units and [(x[0].name, x[1]) for x in units]],
                   "searched": rp["summary"]}, open(rpath, "w"), indent=1)
        for x in failed[:6]:
            print("failed obligation: %s (%s): %s  [%s]" % (x["function"], x["file"], x["obligation"], x["at"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
        rc = 1
    elif undecided:
        state = "UNPROVED on this tree; bounded stand-in only"
        for x in undecided[:6]:
            print("UNPROVED: " + x[:300])
        if not rp["ran"]:
            print("no answer: the verifier gave none and the stand-in did not run: %s" % rp["error"][-2000:])
            rc = 2
        else:
            print("bounded stand-in found nothing: %s" % rp["summary"])
    elif not rp["ran"]:
        print("replay program did not run: %s" % rp["error"][-2000:])
        rc = 2
    ev = {
        "property": pid, "tier": TIER, "seed": SEED,
        "level": cfg["level"] if state in ("proved", "obligation failed", "violated") else "exploration",
        "coverage": {
            "state": state,
            "obligations": n_obl, "discharged": n_ok,
            "checker_cmd": " ; ".join(x["cmd"] for x in report["units"] if "cmd" in x) or "verus",
            "trusted_base": sorted(set(trust)) + cfg.get("trusted", []),
            "backend": "Verus 0.2026.09.13 (Z3)", "solver_ms": smt_ms,
            "functions_under_contract": fns,
            "extraction_rewrites": rewrites,
            "extraction_drops": "visibility (widened to pub), attributes, doc comments, panic messages; trait methods are proved as methods of the same type",
            "unverified_surroundings": cfg.get("unverified", []),
            "units": report["units"], "vacuity": vac,
            "bounded": rp["summary"],
            "evaluations": rp["summary"].get("evaluations", 0),
            "distinct_nontrivial": rp["summary"].get("distinct_nontrivial", 0),
            "rule": cfg.get("rule", "see replay/src/bin/%s.rs: exhaustive small scopes and seeded random inputs; non-trivial: the reference did real work on it" % pid.lower()),
            "samples": rp["summary"].get("samples", []),
            "undecided": undecided, "failed_obligations": failed,
        },
        "assumptions": cfg.get("assumptions", []) + sorted(set(trust)) + cfg.get("trusted", []),
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(viol) + (len(failed) if not viol else 0),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s; %d/%d obligations, %d functions, smt %.1f s, bounded: %s evaluations, wall %.1f s" % (
        pid, state, n_ok, n_obl, len(fns), smt_ms / 1000.0, rp["summary"].get("evaluations"), time.time() - t_start))
    sys.exit(rc)


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def match_known(known, x):
    for k in known:
        if x.get("class") == k.get("class") and (k.get("input") is None or k["input"] == x.get("input")):
            return k
    return None


class Replay:
    def __init__(self, pid, cfg):
        self.pid, self.cfg = pid, cfg
        self.bin = cfg.get("replay")
        self.proc = None
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                        CARGO_TARGET_DIR=os.path.join(BUILD, "replay-target"), RUSTC_WRAPPER="", RUST_BACKTRACE="0")
        self.env["PATH"] = "/root/.cargo/bin:" + self.env.get("PATH", "")

    def cmdline(self):
        return "cd %s/replay && RUSTUP_TOOLCHAIN=1.82.0 CARGO_TARGET_DIR=%s/replay-target cargo run --offline --release --features %s --bin %s -- %d 20 1" % (
            HERE, BUILD, self.bin, self.bin, SEED)

    def start_build(self):
        if not self.bin:
            return
        rd = os.path.join(HERE, "replay")
        self.proc = subprocess.Popen(
            ["cargo", "build", "--offline", "--release", "--features", self.bin, "--bin", self.bin],
            cwd=rd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def run(self, hunt):
        none = {"ran": True, "failures": [], "summary": {}, "error": ""}
        if not self.bin:
            return none
        out, _ = self.proc.communicate()
        if self.proc.returncode != 0:
            return {"ran": False, "failures": [], "summary": {"error": "build failed"}, "error": out}
        secs = self.cfg.get("secs", 12)
        if hunt:
            secs = max(60, secs * 3)
        if TIER == "thorough":
            secs = max(300, secs * 6)
        exe = os.path.join(BUILD, "replay-target", "release", self.bin)
        failures, summary = [], {}
        try:
            p = subprocess.run([exe, str(SEED), str(secs), "1" if hunt else "0"], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            return {"ran": True, "failures": [{"class": "hang", "input": None, "detail": "the replay program did not end: a call into the real code does not terminate"}], "summary": {"error": "timeout"}, "error": "timeout"}
        for ln in p.stdout.split("\n"):
            if ln.startswith("FAIL "):
                failures.append(json.loads(ln[5:]))
            elif ln.startswith("SUMMARY "):
                summary = json.loads(ln[8:])
        if p.returncode not in (0, 1) or not summary:
            tail = (p.stdout[-1500:] + p.stderr[-1500:])
            if p.returncode < 0 or p.returncode == 134:
                failures.append({"class": "crash", "input": None, "detail": "the real code ended the process: " + tail[-600:]})
                return {"ran": True, "failures": failures, "summary": {"error": tail}, "error": tail}
            return {"ran": False, "failures": [], "summary": {"error": tail}, "error": tail}
        summary["seconds"] = secs
        summary["label"] = "bounded: testing of the real code against the executable specification; not counted as proof"
        return {"ran": True, "failures": failures, "summary": summary, "error": ""}


if __name__ == "__main__":
    main()

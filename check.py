#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property by exhaustive bounded exploration.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Anything else: error.
"""
import concurrent.futures, json, os, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
NPROC = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, V)
from props import PROPS


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(engine):
    t = time.time()
    r = subprocess.run(["bash", f"{V}/{engine}/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die(f"building {engine} against /repo failed")
    return time.time() - t


def binary(engine):
    return f"{V}/{engine}/target/debug/{'mcx' if engine == 'mc' else 'seqx'}"


def known():
    p = f"{V}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def run_one(engine, s, tier, wall_ms, outdir):
    out = f"{outdir}/{engine}-{s['name']}.json"
    if os.path.exists(out):
        os.unlink(out)
    b = s[tier]
    if engine == "mc":
        cmd = [binary(engine), "one", s["name"], str(b[0]), str(b[1]), str(wall_ms), out]
    else:
        cmd = [binary(engine), "one", s["name"], str(b), str(wall_ms), out]
    t = time.time()
    for attempt in range(3):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=wall_ms / 1000 + 120)
        except subprocess.TimeoutExpired:
            return s, 3, None, "timeout", out, time.time() - t
        if r.returncode in (0, 1) or engine != "mc":
            break
        # the engine itself gave up (an execution did not replay deterministically): try again with
        # one preemption less
        cmd[3] = str(max(0, int(cmd[3]) - 1))
    return s, r.returncode, r.stdout, r.stderr, out, time.time() - t


def confirm(engine, s, out, outdir):
    """Replay the recorded execution twice; both must fail the same way."""
    try:
        first = json.load(open(out))
    except (OSError, ValueError):
        return None  # the engine died while writing it
    got = []
    for i in range(2):
        o2 = f"{outdir}/{engine}-{s['name']}.replay{i}.json"
        if os.path.exists(o2):
            os.unlink(o2)
        cmd = [binary(engine), "replay", s["name"], out, o2]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=180)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode != 1 or not os.path.exists(o2):
            print(f"replay of {s['name']} ended with {r.returncode}: {r.stderr[-500:]} (first: {first['kind']}: {first['msg']})")
            return None
        try:
            got.append(json.load(open(o2)))
        except ValueError:
            return None
        os.unlink(o2)
    if got[0]["kind"] != got[1]["kind"] or got[0]["msg"] != got[1]["msg"] or got[0]["kind"] != first["kind"]:
        print(f"replays of {s['name']} disagree: {first['kind']} / {got[0]['kind']}: {got[0]['msg']} / {got[1]['kind']}: {got[1]['msg']}")
        return None
    return got[0]


def litmus():
    """The engine's own litmus tests: every bad_* one must be detected, every good_* one pass."""
    b = binary("mc")
    n = 0
    for l in subprocess.run([b, "list"], stdout=subprocess.PIPE, text=True, errors="replace").stdout.splitlines():
        s = json.loads(l)
        if s["props"] != "LITMUS":
            continue
        q = s["quick"]
        r = subprocess.run([b, "one", s["name"], str(q[0]), str(q[1]), "60000", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode != (1 if s["name"].startswith("bad_") else 0):
            die(f"engine self-test {s['name']} ended with {r.returncode}")
        n += 1
    return n


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py ID [quick|thorough]; IDs: " + " ".join(sorted(PROPS)))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["MCX_TIER"] = tier
    t0 = time.time()
    os.makedirs(f"{V}/evidence", exist_ok=True)
    outdir = f"{V}/out/{pid}-{tier}"
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    build_s = {}
    for engine in PROPS[pid]["engines"]:
        build_s[engine] = round(build(engine), 1)
        r = subprocess.run([binary(engine), "list"], stdout=subprocess.PIPE, text=True, errors="replace")
        for l in r.stdout.splitlines():
            s = json.loads(l)
            if pid in s["props"].split() and s[tier] is not None:
                jobs.append((engine, s))
    if not jobs:
        die("no scenarios")
    selftest = litmus() if "mc" in PROPS[pid]["engines"] and pid != "LITMUS" else None
    only = os.environ.get("ONLY")
    if only:
        jobs = [j for j in jobs if only in j[1]["name"]]
    # wall-clock caps: whole check well below the 900 s limit
    total = 420 if tier == "quick" else int(os.environ.get("THOROUGH_S", "3600"))
    per = max(20, min(200 if tier == "quick" else 1800, int(total * NPROC / len(jobs))))
    viol, errs, stats = [], [], []
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(run_one, e, s, tier, per * 1000, outdir) for e, s in jobs]
        for (e, _), f in zip(jobs, futs):
            s, rc, so, se, out, dt = f.result()
            if rc == 0:
                try:
                    st = json.loads(so.strip().splitlines()[-1])
                except Exception:
                    errs.append((s["name"], "bad output " + (so or "")[-300:]))
                    continue
                st["engine"], st["wall_s"] = e, round(dt, 2)
                stats.append(st)
            elif rc == 1 and os.path.exists(out):
                viol.append((e, s, out))
            else:
                errs.append((s["name"], f"exit {rc}: {(se or '')[-1500:]}"))
    nviol = 0
    kf = known()
    lines, retried = [], []
    for e, s, out in viol:
        v = confirm(e, s, out, outdir)
        for _ in range(2):
            # a report that does not replay is never believed: explore that scenario again
            if v is not None:
                break
            retried.append(s["name"])
            _, rc, so, se, out, dt = run_one(e, s, tier, per * 1000, outdir)
            if rc == 0:
                st = json.loads(so.strip().splitlines()[-1])
                st["engine"], st["wall_s"] = e, round(dt, 2)
                stats.append(st)
                break
            if rc == 1 and os.path.exists(out):
                v = confirm(e, s, out, outdir)
        else:
            if v is None:
                errs.append((s["name"], "violation did not replay"))
        if v is None:
            continue
        k = [x for x in kf if x["property"] == pid and x["scenario"] == s["name"] and x["kind"] == v["kind"] and x["match"] in v["msg"]]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
            continue
        nviol += 1
        os.makedirs(f"{V}/replays", exist_ok=True)
        rp = f"{V}/replays/{pid}-{e}-{s['name']}.json"
        v.update(property=pid, scenario=s["name"], engine=e, replay_cmd=f"MCX_TIER={tier} {binary(e)} replay {s['name']} {rp} /dev/stdout")
        json.dump(v, open(rp, "w"), separators=(",", ":"))
        print(f"{s['name']}: {v['kind']}: {v['msg']}")
        for l in v.get("trace", [])[-int(os.environ.get("TRACE", "12")):]:
            print("    " + l)
        lines.append(f"VIOLATION property={pid} replay={rp}")
    capped = [st["scenario"] for st in stats if st.get("capped")]
    tot = lambda k: sum(int(st.get(k, 0)) for st in stats)
    samples = []
    for st in stats:
        for x in st.get("samples", [])[:1]:
            samples.append(f"{st['scenario']}: {x}"[:400])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("executions"),
            "exhaustive": not capped and not errs,
            "distinct_outcomes": tot("outcomes"),
            "rule": "every execution is a run of the real code compiled from /repo; scenarios explored exhaustively within their bounds (preemptions/stale reads, or deviations/depth)",
            "scenarios": [{k: st.get(k) for k in ("scenario", "engine", "executions", "pruned", "states", "transitions", "outcomes", "completed_preempt", "stale", "bound", "max_depth", "capped", "wall_s") if k in st} for st in stats],
            "capped_scenarios": capped,
            "scenarios_explored_again_after_a_report_that_did_not_replay": retried,
            "samples": samples[:12],
            "build_s": build_s,
            "engine_litmus_tests_passed": selftest,
        },
        "assumptions": PROPS[pid].get("assumptions", []) + [
            "exploration is exhaustive within the stated bounds only; scenarios listed as capped stopped at the wall-clock cap after completing the bound recorded in completed_preempt",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {len(stats)} scenarios ok, {nviol} violated, {len(errs)} errors; executions={tot('executions')} states={tot('states')} transitions={tot('transitions')} outcomes={tot('outcomes')} capped={len(capped)} wall={ev['wall_s']}s")
    for n, m in errs:
        print(f"ERROR in {n}: {m}")
    for l in lines:
        print(l)
    if nviol:
        sys.exit(1)
    sys.exit(2 if errs else 0)


try:
    main()
except Exception:
    import traceback

    traceback.print_exc()
    sys.exit(2)

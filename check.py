#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough] | check.py --setup | check.py --replay <file>

Exit 0: every obligation of the property was discharged (or decided within a stated bound) on
/repo's current source.  Exit 1: a VIOLATION line was printed."""
import fcntl, hashlib, json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly-2024-07-07"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan, deductive  # noqa: E402


def src_hash():
    h = hashlib.sha256()
    for root in ("poseidon-base", "poseidon-circuit"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "rust"),
             RUSTUP_TOOLCHAIN=TOOLCHAIN, VERIF_SRC_HASH=src_hash(), CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def build(binary, config):
    """Build one harness binary in one feature configuration; returns (path or None, log)."""
    out = os.path.join(BUILD, f"{binary}-{config}")
    with Lock():
        cmd = ["cargo", f"+{TOOLCHAIN}", "build", "--offline", "-q", "-p", binary] + plan.FEATURES[config]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "rust"), env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            return None, " ".join(cmd) + "\n" + r.stdout[-6000:]
        src = os.path.join(BUILD, "rust", "debug", binary)
        tmp = out + f".{os.getpid()}"
        subprocess.run(["cp", src, tmp], check=True)
        os.replace(tmp, out)
    return out, ""


def run_harness(exe, pid, tier, seed, timeout, concrete=False):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, RUST_MIN_STACK=str(256 << 20))
    if concrete:
        env["VERIF_CONCRETE"] = "1"
    obls, last, done, timed_out = [], None, False, False
    try:
        r = subprocess.run([exe, pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        text, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        timed_out = True
        dec = lambda b: b.decode() if isinstance(b, bytes) else (b or "")
        text, err, rc = dec(ex.stdout), dec(ex.stderr), None
    for line in text.splitlines():
        if line.startswith("OBL "):
            obls.append(json.loads(line[4:]))
        elif line.startswith("START "):
            last = json.loads(line[6:])
        elif line.startswith("DONE "):
            done = True
    return dict(obls=obls, last=last, done=done, timed_out=timed_out, rc=rc, err=err[-2000:])


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith("fixed:")]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = plan.PROPS[pid]
    violations, obligations, notes, samples = [], [], [], []
    conc_runs = 0
    for binary, config in P["runs"]:
        exe, log = build(binary, config)
        if exe is None:
            print(log)
            notes.append(f"{binary}/{config} does not compile against /repo")
            obligations.append(dict(name=f"[{config}] build", status="error", backend="cargo", detail=log[-1500:]))
            continue
        budget = 420 if tier == "quick" else 3000
        r = run_harness(exe, pid, tier, seed, budget)
        if not r["done"]:
            # fall back to concrete executions; a run that cannot finish even these hangs or aborts
            r2 = run_harness(exe, pid, tier, seed, 200, concrete=True)
            if not r2["done"]:
                why = "does not terminate" if r2["timed_out"] else f"aborts (exit {r2['rc']}): {r2['err'][-300:]}"
                violations.append(dict(name=f"[{config}] {r2['last']}", detail=f"execution {why}", cex={}, kind="execution"))
            r2["obls"] and notes.append(f"[{config}] symbolic exploration did not finish; concrete runs only")
            r = r2
        for o in r["obls"]:
            conc_runs += o["concrete_runs"]
            for n in o["notes"]:
                notes.append(f"{o['name']}: {n}")
            if o["status"] == "refuted":
                violations.append(dict(name=f"[{config}] {o['name']}", detail=o["detail"], cex=o["cex"], kind="replayed"))
            obligations.append(dict(name=f"[{config}] {o['name']}", status=o["status"], detail=o["detail"], bound=o.get("bound"),
                                    backend="symbolic execution of the compiled code (harness)", paths=o["paths"], checks=o["checks"]))
            if len(samples) < 8:
                samples.append(dict(obligation=o["name"], status=o["status"], paths=o["paths"], checks=o["checks"]))
    ded = deductive.run(pid, tier, REPO, VERIF)
    for o in ded["obligations"]:
        obligations.append(o)
    notes += ded["notes"]
    err = [o for o in obligations if o["status"] == "error"]
    ded_failed = [o for o in obligations if o["status"] == "failed"]
    kf = [k for k in known_findings() if k["property"] == pid]
    real, listed = [], []
    for v in violations:
        (listed if any(k["match"] in v["name"] + " " + v["detail"] for k in kf) else real).append(v)
    for k in kf:
        if any(k["match"] in v["name"] + " " + v["detail"] for v in listed):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    st = lambda s: [o for o in obligations if o["status"] in s]
    discharged = st(("proved", "passed", "discharged"))
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], wall_s=0.0,
              violations=len(real) + (1 if ded_failed and not real else 0),
              assumptions=P["assumptions"] + ded["assumptions"],
              coverage=dict(
                  obligations=len(obligations), discharged=len(discharged),
                  checker_cmd=ded["checker_cmd"] or f"python3 check.py {pid} {tier}",
                  trusted_base=P["trusted"] + ded["trusted"],
                  by_backend=count(discharged, "backend"),
                  bounded=[dict(name=o["name"], bound=o.get("bound") or o["detail"]) for o in
                           st(("undecided", "unsupported", "skipped"))],
                  bounds=P["bounds"] + ded["bounds"],
                  functions_under_contract=ded["functions"], solver_s=ded["solver_s"],
                  concrete_runs=conc_runs, path_notes=sorted(set(notes))[:60], samples=samples,
                  obligation_list=[dict(name=o["name"], status=o["status"], backend=o["backend"]) for o in obligations]))
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {len(discharged)}/{len(obligations)} obligations discharged, "
          f"{conc_runs} concrete runs, {len(st(('undecided', 'unsupported', 'skipped')))} decided only within bounds, {ev['wall_s']} s")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if real:
        path = os.path.join(rdir, f"{pid}.json")
        v0 = sorted(real, key=lambda v: v["kind"] != "replayed")[0]
        json.dump(dict(property=pid, seed=seed, tier=tier, obligation=v0["name"], detail=v0["detail"], inputs=v0["cex"],
                       rerun=f"VERIF_SEED={seed} python3 check.py {pid} {tier}", all=real[:20],
                       failed_contracts=ded_failed[:20]), open(path, "w"), indent=1)
        for v in real[:10]:
            print(f"  refuted: {v['name']}: {v['detail'][:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if ded_failed:
        path = os.path.join(rdir, f"{pid}.json")
        json.dump(dict(property=pid, seed=seed, tier=tier, obligation=ded_failed[0]["name"],
                       verifier_output=ded_failed[0]["detail"], all=ded_failed), open(path, "w"), indent=1)
        for o in ded_failed[:10]:
            print(f"  failed obligation: {o['name']}: {o['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if err:
        for o in err:
            print(f"  error: {o['name']}: {o['detail'][-800:]}")
        return 2
    if not discharged and not listed:
        print("  error: no obligation was discharged (vacuous run)")
        return 2
    return 0


def count(xs, key):
    d = {}
    for x in xs:
        d[x[key]] = d.get(x[key], 0) + 1
    return d


def setup():
    ok = True
    for b, c in sorted({r for p in plan.PROPS.values() for r in p["runs"]}):
        exe, log = build(b, c)
        print(b, c, "ok" if exe else log)
        ok &= exe is not None
    ok &= deductive.setup(REPO, VERIF)
    return 0 if ok else 1


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        os.environ["VERIF_SEED"] = str(r["seed"])
        sys.exit(check(r["property"], r["tier"]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(check(sys.argv[1], tier))
    except Exception:
        traceback.print_exc()
        sys.exit(2)

#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py setup            build every variant of the simulator from /repo's working tree
  check.py run C01          run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py thorough C01     the same, always in the thorough tier
  check.py replay FILE      re-execute a recorded violation

Exit codes: 0 held, 1 violated (a VIOLATION line is printed), 2 the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BIN = f"{HERE}/bin"
TARGET = f"{HERE}/target"
TRIPLE = "x86_64-unknown-linux-gnu"
REPLAYS = f"{HERE}/replays"

# property -> [(variant, share of the quick runs)]
PLAN = {
    "C01": [("random", 1.0)],
    "C02": [("random", 0.8), ("counter", 0.4)],
    "C03": [("random", 0.6), ("counter", 0.6)],
    "C04": [("random", 0.8), ("counter", 0.4)],
    "C05": [("browser", 0.7), ("browser-csr", 0.5)],
    "C06": [("browser", 0.7), ("browser-csr", 0.5)],
    "C07": [("random", 0.8), ("counter", 0.4)],
    "C08": [("random", 0.8), ("counter", 0.4)],
    "C09": [("random", 0.7), ("counter", 0.5)],
    "C10": [("random", 0.7), ("counter", 0.5)],
    "C11": [("random", 0.8), ("counter", 0.4)],
    "C12": [("random", 0.7), ("counter", 0.5)],
    "C13": [("random", 0.7), ("counter", 0.5)],
    "C14": [("random", 0.3), ("counter", 0.7)],
    "C15": [("random", 0.8), ("counter", 0.4)],
    "C16": [("browser", 0.7), ("browser-csr", 0.5)],
    "C17": [("browser", 0.9), ("browser-csr", 0.4)],
    "C18": [("browser", 1.0)],
}
LEVEL = "exploration"
TECHNIQUE_DEFAULT = "deterministic simulation with fault injection: seeded schedules and faults over the real code, invariants during the run and a reference model over the history"
TECHNIQUE = {}
LEVEL_NOTE_DEFAULT = ("Seeded search: a clean batch is evidence over the runs explored, not proof. Executions are sequentially consistent (one thread at a time); "
                      "the oracle is an independent CSS reader and a reference model.")
LEVEL_NOTE_BROWSER = ("Seeded search: a clean batch is evidence over the runs explored, not proof. stylist's browser code and Yew are compiled natively against stand-ins "
                      "for wasm-bindgen and web-sys; how faithful these are to a browser is an assumption.")
LEVEL_NOTE = {i: LEVEL_NOTE_BROWSER for i, p in PLAN.items() if p[0][0].startswith("browser")}
ASSUME = ["one thread runs at a time: executions are sequentially consistent", "a clean batch of seeds is evidence, not proof"]
ASSUME_BROWSER = ["the stand-ins for wasm-bindgen, js-sys and web-sys behave as a browser does", "code selected by target_arch = \"wasm32\" behaves natively as it does on wasm32", "a clean batch of seeds is evidence, not proof"]

VARIANTS = {
    # Random ids and debug assertions on, as a developer runs it.
    "random": dict(dir="sim", args=["--features", "random"], wrap="rustc_wrap.sh"),
    # Sequential ids and debug assertions off in the code under test, as a release build.
    "counter": dict(dir="sim", args=[
        "--config", "profile.dev.package.stylist.debug-assertions=false",
        "--config", "profile.dev.package.stylist-core.debug-assertions=false"], wrap="rustc_wrap.sh"),
    # The browser code with server rendering and hydration, random ids, debug assertions on.
    "browser": dict(dir="browser", bin="bsim", target="browser", args=["--features", "random,hydrate"], wrap="rustc_wrap_browser.sh"),
    # The browser code of a client-side build: no server rendering, no hydration, sequential ids,
    # debug assertions off.
    "browser-csr": dict(dir="browser", bin="bsim", target="browser", args=[
        "--config", "profile.dev.package.stylist.debug-assertions=false",
        "--config", "profile.dev.package.stylist-core.debug-assertions=false"], wrap="rustc_wrap_browser.sh"),
}


def env(variant):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC"))}
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER=f"{HERE}/tools/{VARIANTS[variant]['wrap']}", CARGO_TARGET_DIR=target_of(variant))
    return e


def target_of(variant):
    t = VARIANTS[variant].get("target")
    return f"{TARGET}/{t}" if t else TARGET


def tree_hash():
    h = hashlib.sha256()
    for top in (f"{REPO}/packages", f"{HERE}/sim", f"{HERE}/browser", f"{HERE}/tools", f"{HERE}/vendor"):
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def build(variant):
    """Builds one variant from the current tree; returns (path, seconds)."""
    v = VARIANTS[variant]
    t0 = time.time()
    os.makedirs(BIN, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(f"{TARGET}/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = f"{BIN}/sim-{variant}"
        dirs = sorted({target_of(x) for x in VARIANTS})
        stamp = f"{out}.hash"
        want = tree_hash()
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
            return out, time.time() - t0
        if os.path.exists(stamp):
            # Do not rely on modification times to notice an edit of the code under test.
            for base in (f"{d}/{sub}debug/.fingerprint" for d in dirs for sub in (f"{TRIPLE}/", "")):
                if os.path.isdir(base):
                    for x in os.listdir(base):
                        if re.match(r"(stylist|stylist-core|stylist-macros|macro_corpus|sim|bsim)-[0-9a-f]+$", x):
                            shutil.rmtree(f"{base}/{x}", ignore_errors=True)
            for s in os.listdir(BIN):
                if s.endswith(".hash"):
                    os.unlink(f"{BIN}/{s}")
        cmd = ["cargo", "build", "--offline", "--locked", "--target", TRIPLE, *v["args"]]
        r = subprocess.run(cmd, cwd=f"{HERE}/{v['dir']}", env=env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and not without_rejected(cmd, variant):
            print(r.stdout[-6000:])
            print(f"check error: building variant {variant} failed")
            sys.exit(2)
        name = v.get("bin", "sim")
        tmp = f"{out}.tmp{os.getpid()}"
        shutil.copy2(f"{target_of(variant)}/{TRIPLE}/debug/{name}", tmp)
        os.replace(tmp, out)
        with open(stamp, "w") as f:
            f.write(want)
        return out, time.time() - t0


def without_rejected(cmd, variant):
    """The macros under test may reject some of the macro uses of the corpus at compile time. Those are
    left out (C13 reports them when a run reaches them); everything else can be checked all the same."""
    corpus = f"{HERE}/sim/macros/src/lib.rs"
    if VARIANTS[variant]["dir"] != "sim":
        return False
    text = open(corpus).read().split("\n")
    starts = [i for i, l in enumerate(text) if re.match(r"fn s\d+_\w+<'a>", l)]
    ends = [next(j for j in range(i, len(text)) if text[j] == "}") for i in starts]
    out = {}
    copy = f"{target_of(variant)}/corpus.rs"
    e = dict(env(variant), SIM_CORPUS=copy)
    for _ in range(8):
        lines = list(text)
        for i, why in out.items():
            # Line numbers stay as they are.
            lines[i + 1:ends[starts.index(i)]] = [f"    Made::Rejected({json.dumps(why, ensure_ascii=False)})"] + [""] * (ends[starts.index(i)] - i - 2)
        with open(copy, "w") as f:
            f.write("\n".join(lines))
        r = subprocess.run([*cmd, "--message-format=json"], cwd=f"{HERE}/{VARIANTS[variant]['dir']}", env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 0:
            print(f"note: {len(out)} macro uses of the corpus do not compile")
            return True
        known = len(out)
        for line in r.stdout.splitlines():
            m = json.loads(line) if line.startswith("{") else {}
            if m.get("reason") != "compiler-message" or m["target"]["name"] != "macro_corpus" or m["message"]["level"] != "error":
                continue
            spans = list(m["message"]["spans"])
            for c in m["message"]["children"]:
                spans += c["spans"]
            while spans:
                s = spans.pop()
                if s.get("expansion"):
                    spans.append(s["expansion"]["span"])
                if s["file_name"].endswith(("macros/src/lib.rs", "/corpus.rs")):
                    for i, j in zip(starts, ends):
                        if i < s["line_start"] - 1 < j:
                            out.setdefault(i, m["message"]["message"].split("\n")[0][:200])
        if len(out) == known:
            break
    return False


def known_findings():
    """Lines of known-findings.txt: 'finding: property=C05 kind=<kind> match=<text> what=<description>'
    and 'fixed: property=<id> <commit> <what failed>' (suppresses nothing)."""
    out = []
    try:
        for line in open(f"{HERE}/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) what=(.*)$", line.strip())
            if m:
                out.append(dict(property=m[1], kind=m[2], match=m[3], what=m[4]))
    except FileNotFoundError:
        pass
    return out


def run(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    parts = []
    kf = f"{BIN}/known-{os.getpid()}.json"
    os.makedirs(BIN, exist_ok=True)
    with open(kf, "w") as f:
        json.dump(dict(findings=known_findings()), f)
    violations, knowns, errors = [], [], []
    build_s = 0.0
    try:
        for variant, share in PLAN[pid]:
            exe, s = build(variant)
            build_s += s
            cmd = [exe, "check", "--prop", pid, "--base", str(seed & (2**63 - 1)), "--tier", tier, "--variant", variant,
                   "--replay-dir", REPLAYS, "--known", kf, "--share", str(share)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, cwd=HERE)
            try:
                d = json.loads(r.stdout.strip().splitlines()[-1])
            except (IndexError, ValueError):
                print(r.stdout[-2000:])
                print(f"check error: the {variant} simulator gave no result (exit {r.returncode})")
                sys.exit(2)
            parts.append(d)
            violations += d["violations"]
            knowns += d["known"]
            errors += d["harness_errors"]
            if d["worker_errors"]:
                errors.append(f"{d['worker_errors']} workers of variant {variant} died")
    finally:
        os.unlink(kf)
    def total(k):
        return sum(p[k] for p in parts)
    def merged(k):
        o = {}
        for p in parts:
            for a, b in p[k].items():
                o[a] = o.get(a, 0) + b
        return dict(sorted(o.items()))
    search = total("search_s")
    cov = dict(
        evaluations=total("runs"), distinct_nontrivial=total("distinct_nontrivial"), rule=parts[0]["rule"],
        samples=[dict(variant=p["variant"], **s) for p in parts for s in p["samples"]][:4],
        simulated_runs=total("runs"), seeds_per_hour=round(3600 * total("runs") / max(search, 0.001)),
        distinct_histories=total("distinct_histories"), operations=total("ops"), oracle_checks=total("oracle_checks"),
        simulated_processes=total("nodes"), simulated_threads=total("threads"), runs_with_several_threads=total("multi_thread_runs"),
        preemption_points=total("points"), context_switches=total("switches"), preemptions=total("preemptions"),
        blocking_waits=total("blocks"), simulated_time_s=total("sim_ns") / 1e9,
        runs_with_faults=total("faulty_runs"), faults_injected=merged("faults") | ({"thread.spurious-wakeup": total("spurious_wakeups")} if total("spurious_wakeups") else {}),
        rare_conditions_hit=merged("probes"),
        determinism=dict(seeds_run_twice=total("determinism_resampled"), identical_event_logs=total("determinism_same")),
        unreproduced_violations=total("unreproduced"),
        variants={p["variant"]: dict(runs=p["runs"], planned=p["planned"], wall_s=round(p["wall_s"], 1)) for p in parts},
        components=COMPONENTS.get(parts[0]["variant"], COMPONENTS["random"]),
        build_s=round(build_s, 1),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL, coverage=cov,
              assumptions=ASSUME_BROWSER if PLAN[pid][0][0].startswith("browser") else ASSUME,
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(f"{pid} {tier} seed={seed}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{sum(cov['faults_injected'].values())} faults, {cov['context_switches']} switches, {ev['wall_s']} s (build {cov['build_s']} s)")
    seen = set()
    for k in knowns:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in violations:
        print(f"  {v['kind']}: {v['msg'][:600]}")
        print(f"VIOLATION property={pid} replay={v['path']}")
    if violations:
        sys.exit(1)
    if errors:
        print("check error:", "; ".join(errors)[:2000])
        sys.exit(2)


COMPONENTS = {
    "random": dict(
        real=["stylist, stylist-core and stylist-macros from /repo's working tree (instrumented, unmodified)", "yew server renderer", "serde_json/bincode", "std synchronisation primitives"],
        simulated=["thread scheduling (futex, atomics, memory accesses)", "clocks and sleeps", "entropy (getrandom, fastrand seeds)", "process crash/restart (forked processes)", "transport between server and client", "output sinks"],
        stubbed=[]),
}
COMPONENTS["counter"] = COMPONENTS["random"]
COMPONENTS["browser"] = dict(
    real=["stylist's browser code (as compiled for wasm32), stylist-core and stylist-macros from /repo's working tree", "Yew 0.22: renderer, hydration, scheduler, hooks, suspense, server renderer", "gloo-events", "serde/bincode of the transported state"],
    simulated=["the order and timing of host tasks (fetches, timers), microtasks and browser frames", "the media environment and its change events", "failures of DOM operations and a missing window, document or head", "other scripts that move or remove nodes", "the server (a forked process)", "entropy"],
    stubbed=["wasm-bindgen, js-sys, web-sys (DOM, events, selectors, HTML parsing, media queries): native stand-ins in vendor/", "base64 decoding through fetch (in Yew)"])
COMPONENTS["browser-csr"] = COMPONENTS["browser"]


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for v in VARIANTS:
            p, s = build(v)
            print(f"built {p} in {s:.1f} s")
    elif a[:1] == ["run"] and len(a) == 2 and a[1] in PLAN:
        run(a[1])
    elif a[:1] == ["thorough"] and len(a) == 2 and a[1] in PLAN:
        run(a[1], "thorough")
    elif a[:1] == ["replay"] and len(a) == 2:
        v = json.load(open(a[1]))["variant"]
        exe, _ = build(v)
        sys.exit(subprocess.run([exe, "replay", a[1]]).returncode)
    else:
        print(__doc__)
        sys.exit(2)


if __name__ == "__main__":
    main()

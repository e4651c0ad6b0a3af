#!/usr/bin/env python3
"""P29: builds fizyr-rpc with every combination of its features, and with each the program in features/, which explores all
histories of a few operations over each transport that the combination provides. usage: p29.py quick|thorough|replay FILE"""
import hashlib, itertools, json, os, shutil, subprocess, sys, time

START = time.time()
VERIF = os.environ["VERIF_DIR"]
TARGET = os.path.join(os.environ["CARGO_TARGET_DIR"], "features")
REPO = "/repo"
CRATE = os.path.join(VERIF, "features")
FEATURES = ["macros", "tcp", "unix-stream", "unix-seqpacket"]
SCRATCH = os.path.join(TARGET, f"scratch-{os.getpid()}")
ENV = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")

def cargo(*args, timeout=600):
    return subprocess.run(["cargo", *args, "--offline", "--quiet"], cwd=CRATE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def machinery(text):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print(f"MACHINERY-ERROR: {text}")
    sys.exit(4)

def refresh():
    """Cargo looks at time stamps only: a change of contents has to force a rebuild."""
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f == "Cargo.toml":
                h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(TARGET, "repo.sum")
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        if os.path.exists(stamp): os.unlink(stamp)
        for p in ("fizyr-rpc", "fizyr-rpc-macros"): cargo("clean", "-p", p)
    return stamp, h.hexdigest()

def errors(text): return [l for l in text.splitlines() if l.startswith("error")][:3]

def judge(features, depth):
    """Returns what is wrong (or None) and the scenarios explored."""
    what = "with the features " + ", ".join(features) if features else "without features"
    select = ["--no-default-features", "--features", ",".join(features)]
    r = cargo("build", *select)
    if r.returncode != 0 and "could not compile `fizyr-rpc" in r.stdout: return f"fizyr-rpc does not build {what}: {errors(r.stdout)}", []
    if r.returncode != 0: return f"the program that uses fizyr-rpc does not build {what}: {errors(r.stdout)}", []
    try:
        os.makedirs(SCRATCH, exist_ok=True)
        r = subprocess.run([os.path.join(TARGET, "debug", "features"), str(depth), SCRATCH], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=ENV)
    except subprocess.TimeoutExpired as e:
        return f"{what} an operation does not complete, after {((e.stdout or b'').decode().splitlines() or ['nothing'])[-1]}", []
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    out = [l.split() for l in r.stdout.splitlines() if not l.startswith("FAIL")]
    if r.returncode != 0:
        return f"{what}: " + (next((l for l in r.stdout.splitlines() if l.startswith("FAIL")), None) or f"exit code {r.returncode}: {r.stderr[-600:]}"), []
    names = [x[0] for x in out]
    for f in features:
        if f != "macros" and f not in names: return f"{what} the transport {f} was not explored", []
    return None, [dict(name=f"{'+'.join(features) or 'no features'}: {n}", executions=int(e), operations=int(o)) for n, e, o in out]

def main():
    os.makedirs(TARGET, exist_ok=True)
    for e in os.listdir(TARGET):
        if e.startswith("scratch-") and not os.path.exists(f"/proc/{e[8:]}"): shutil.rmtree(os.path.join(TARGET, e), ignore_errors=True)
    tier = sys.argv[1]
    stamp, digest = refresh()
    combinations = [c for n in range(len(FEATURES), -1, -1) for c in itertools.combinations(FEATURES, n)]
    if tier == "replay":
        index = json.loads(open(sys.argv[2]).read())["choices"][0]
        message, _ = judge(combinations[index], 3)
        print(message or "no violation")
        sys.exit(1 if message else 0)
    depth = 4 if tier == "thorough" else 3
    violation, scenarios = None, []
    # All features first: if the program does not fit the library at all, nothing can be said.
    for index, c in enumerate(combinations):
        message, found = judge(c, depth)
        if message and index == 0 and "that uses fizyr-rpc does not build" in message: machinery(message)
        scenarios += found
        print(f"[P29] {'+'.join(c) or 'no features'}: {message or ', '.join(s['name'].split(': ')[1] + ' ' + str(s['executions']) for s in found)}", file=sys.stderr)
        if message:
            violation = (index, message)
            break
    with open(stamp, "w") as f: f.write(digest)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = dict(property="P29", tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(states=len(combinations), transitions=sum(s["operations"] for s in scenarios), traces_validated_against_impl=sum(s["executions"] for s in scenarios), configurations=len({s["name"].split(":")[0] for s in scenarios}), exhaustive=violation is None, scenarios=scenarios),
        assumptions=["Built for this machine, with the installed compiler and the locked versions of the dependencies, without the hooks."],
        wall_s=round(time.time() - START, 2), violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", "P29.json"), "w") as f: json.dump(evidence, f, indent=1)
    if violation:
        path = os.path.join(VERIF, "evidence", "replay-P29.json")
        with open(path, "w") as f: json.dump(dict(property="P29", scenario="features", message=violation[1], choices=[violation[0]], replay_with=f"bash /verif/run.sh P29 replay {path}"), f, indent=1)
        print(f"{violation[1]}\nVIOLATION property=P29 replay={path}")
        sys.exit(1)
    print(f"OK property=P29 combinations={len(combinations)} wall={time.time() - START:.1f}s")

if __name__ == "__main__":
    try:
        main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        machinery(repr(e))

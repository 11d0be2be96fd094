#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  run.py setup                 build both variants once
  run.py check ID [quick|thorough]
  run.py replay FILE           run one recorded case again

Exit 0: the property held on everything explored. Exit 1: violation, with the
line "VIOLATION property=<id> replay=<path>". Anything else: no answer.
"""
import fcntl, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
PBT = os.path.join(TARGET, "pbt")
BIN = os.path.join(TARGET, "bin")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
# Two builds of the code under test: as released, and with the debug assertions and
# overflow checks of a debug build. Only goban and its SGF parser differ.
VARIANTS = {
    "checked": ["--config", "profile.release.package.goban.debug-assertions=true",
                "--config", "profile.release.package.goban.overflow-checks=true",
                "--config", "profile.release.package.sgf-parser.overflow-checks=true"],
    "plain": [],
}
CASE_TIMEOUT = 75          # a single case normally takes milliseconds
RUN_LIMIT = {"quick": 420, "thorough": 600}
BUDGET = {"quick": 150, "thorough": 240}   # no new cases after this, per variant


def env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"))}
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def build(which):
    """Builds the variants from the working tree; returns {variant: binary}."""
    os.makedirs(BIN, exist_ok=True)
    out = {}
    for v in which:
        # never trust time stamps: the crate under test is always rebuilt
        subprocess.run(["cargo", "clean", "--offline", "--release", "-q", "--target-dir", PBT, "-p", "goban", "-p", "goban-pbt"],
                       cwd=HERE + "/harness", env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--target-dir", PBT] + VARIANTS[v],
                           cwd=HERE + "/harness", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die(f"the {v} build failed")
        dst = os.path.join(BIN, "goban-pbt-" + v)
        tmp = dst + ".new"
        shutil.copy2(os.path.join(PBT, "release", "goban-pbt"), tmp)
        os.replace(tmp, dst)
        out[v] = dst
    return out


def build_bare():
    """The programs that C30 compares with: goban with fewer features."""
    target = os.path.join(TARGET, "bare")
    for name in ("none", "history", "deadstones"):
        subprocess.run(["cargo", "clean", "--offline", "--release", "-q", "--target-dir", target, "-p", "goban", "-p", "goban-bare"],
                       cwd=HERE + "/bare", env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--target-dir", target] + (["--features", name] if name != "none" else []),
                           cwd=HERE + "/bare", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die(f"the build with the features {name} failed")
        dst = os.path.join(BIN, "goban-bare-" + name)
        shutil.copy2(os.path.join(target, "release", "goban-bare"), dst + ".new")
        os.replace(dst + ".new", dst)


def run_bin(cmd, timeout):
    """Runs a command in its own process group; returns its exit code, None on time out."""
    p = subprocess.Popen(cmd, env=env(), start_new_session=True, stdout=sys.stderr, stderr=sys.stderr)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None


def slug(s):
    return re.sub(r"[^A-Za-z0-9]+", "-", s).strip("-")


def write_replay(pid, part, variant, seed, case, message, notes=()):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{slug(part)}-{variant}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "part": part, "variant": variant, "seed": seed,
                   "message": message, "notes": list(notes), "case": case}, f, indent=1, ensure_ascii=False)
    return path


def confirm(binary, pid, variant, seed, suspects, why):
    """The process did not survive, or did not end: find the case that does it, alone."""
    def one(i):
        s = suspects[i]
        path = write_replay(pid, f"{s['part']}-suspect-{i}", variant, seed, s["case"], why)
        with open(path) as f:
            d = json.load(f)
        d["part"] = s["part"]
        with open(path, "w") as f:
            json.dump(d, f, indent=1, ensure_ascii=False)
        rc = run_bin([binary, "replay", path], CASE_TIMEOUT + 60)
        return path, rc
    bad = []
    with ThreadPoolExecutor(4) as ex:
        for (path, rc), s in zip(ex.map(one, range(len(suspects))), suspects):
            if rc in (0, 2):
                os.remove(path)
            else:
                bad.append((path, s, {1: "fails", 3: "does not end or exhausts the memory", None: "does not end"}.get(rc, f"ends the process with status {rc}")))
    return bad


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bins = build(["checked", "plain"])
    if pid == "C30":
        build_bare()
    os.makedirs(EVIDENCE, exist_ok=True)
    parts, violations, known = [], [], {}
    for variant in ("plain", "checked"):
        b = bins[variant]
        out = os.path.join(TARGET, f"out-{pid}-{variant}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [b, "run", pid, "--seed", str(seed), "--tier", tier, "--profile", variant, "--out", out,
               "--limit", str(RUN_LIMIT[tier]), "--budget", str(BUDGET[tier])]
        rc = run_bin(cmd, RUN_LIMIT[tier] + 60)
        if rc in (0, 1):
            with open(out) as f:
                d = json.load(f)
            for p in d["parts"]:
                p["variant"] = variant
                parts.append(p)
                for k, n in p["known"].items():
                    known[k] = known.get(k, 0) + n
                if p["failure"]:
                    fl = p["failure"]
                    path = write_replay(pid, p["part"], variant, seed, fl["case"], fl["message"], fl["notes"])
                    violations.append((path, f"[{variant}] {p['part']}: {fl['message']}"))
            if rc == 1 and not violations:
                die(f"{pid}: exit 1 without a failure")
        else:
            # a case that does not end, or the process died
            suspects, why = [], f"the run ended with status {rc}"
            if rc == 3 and os.path.exists(out):
                with open(out) as f:
                    d = json.load(f)
                suspects, why = d["suspects"], d["why"]
            else:
                j = os.path.join(TARGET, f"journal-{pid}")
                shutil.rmtree(j, ignore_errors=True)
                os.makedirs(j)
                run_bin(cmd + ["--journal", j], RUN_LIMIT[tier] + 60)
                for n in sorted(os.listdir(j)):
                    try:
                        with open(os.path.join(j, n)) as f:
                            suspects.append(json.load(f))
                    except ValueError:
                        pass
                shutil.rmtree(j, ignore_errors=True)
            bad = confirm(b, pid, variant, seed, suspects, why)
            if not bad:
                die(f"{pid} [{variant}]: {why}, and no single case shows it")
            for path, s, how in bad[:1]:
                violations.append((path, f"[{variant}] {s['part']}: the case {how}"))
            parts.append({"variant": variant, "part": bad[0][1]["part"], "rule": "", "evaluations": 0, "nontrivial": 0,
                          "distinct": 0, "tags": {}, "samples": [], "excluded": 0, "known": {}, "exhaustive": False, "wall_s": 0})
        if violations:
            break
    if tier == "thorough" and not violations:
        violations += fuzz(pid, seed, bins, parts)
    evidence(pid, tier, seed, parts, violations, known, time.time() - t0)
    listed = findings()
    for k in sorted(known):
        if k not in listed or listed[k][0] != pid:
            die(f"{k} is not a listed finding of {pid}")
        print(f"KNOWN-FINDING: property={pid} {k} {listed[k][1]}")
    for path, msg in violations:
        print(msg[:2000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    if violations:
        return 1
    n = sum(p["evaluations"] for p in parts)
    print(f"{pid}: held on {n} cases in {time.time() - t0:.0f} s")
    return 0


FUZZ_SECONDS = 300         # per property, shared by its parts
FUZZ_JOBS = 8


def fuzz(pid, seed, bins, parts):
    """Coverage-guided search (libFuzzer) over the operations of a generated case, or over
    SGF texts. What it finds counts when the ordinary build of the check agrees."""
    names = json.loads(subprocess.run([bins["plain"], "parts", pid], env=env(), stdout=subprocess.PIPE, text=True).stdout)
    if not names:
        return []
    target = os.path.join(TARGET, "fuzz")
    subprocess.run(["cargo", "clean", "--offline", "--release", "-q", "--target-dir", target, "-p", "goban", "-p", "goban-pbt", "-p", "goban-fuzz"],
                   cwd=HERE + "/fuzz", env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "+nightly", "fuzz", "build", "--fuzz-dir", HERE + "/fuzz", "--target-dir", target, "--sanitizer", "none", "-O", "-a", "laws"],
                       cwd=HERE + "/fuzz", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    binary = os.path.join(target, "x86_64-unknown-linux-gnu", "release", "laws")
    if r.returncode != 0 or not os.path.exists(binary):
        print(r.stdout[-4000:])
        die("the fuzzing build failed")
    out = []
    for name in names:
        work = os.path.join(TARGET, f"fuzz-{pid}-{slug(name)}")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work + "/corpus")
        rng = random.Random(f"{seed} {pid} {name}")
        if name == "texts":
            texts = [b"(;GM[1]FF[4]SZ[9]KM[6.5]RU[Japanese]HA[2]AB[cc][gg]PL[W];W[ee];B[];W[])",
                     b"(;SZ[5:7]AW[aa]AE[bb]RE[B+R](;B[cc])(;W[dd]))"]
            for d, _, fs in os.walk(os.path.join(REPO, "sgf")):
                for f in sorted(fs)[:40]:
                    with open(os.path.join(d, f), "rb") as h:
                        texts.append(h.read(1500))
            texts = [rng.randbytes(4) + t for t in texts]
        else:
            texts = [rng.randbytes(n) for n in (4, 10, 40, 100, 200, 400, 700, 900) for _ in range(8)]
        for i, t in enumerate(texts):
            with open(f"{work}/corpus/{i}", "wb") as f:
                f.write(t)
        with open(work + "/dict", "w") as f:
            for t in ("(;", ")", "SZ[", "KM[", "HA[", "RU[", "PL[", "AB[", "AW[", "AE[", "RE[", "GM[", "B[", "W[", "[]", "[aa]", "[tt]", "[19]", "[9:13]", "Japanese", "Chinese", "B+R", "W+0.5", "Draw", "Void"):
                f.write(f'"{t}"\n')

        def job(i):
            e = dict(env(), FUZZ_ID=pid, FUZZ_PART=name, FUZZ_FAIL=f"{work}/fail-{i}", FUZZ_STATS=f"{work}/stats-{i}")
            cmd = [binary, work + "/corpus", f"-seed={seed * 100 + i + 1}", f"-max_total_time={max(20, FUZZ_SECONDS // len(names))}", "-max_len=900", "-len_control=0",
                   "-timeout=90", "-rss_limit_mb=3000", f"-artifact_prefix={work}/crash-{i}-", "-verbosity=0"] + ([f"-dict={work}/dict"] if name == "texts" else [])
            try:
                subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=FUZZ_SECONDS + 150)
            except subprocess.TimeoutExpired:
                pass
        t0 = time.time()
        with ThreadPoolExecutor(FUZZ_JOBS) as ex:
            list(ex.map(job, range(FUZZ_JOBS)))
        runs = telling = 0
        cases = []
        for i in range(FUZZ_JOBS):
            try:
                with open(f"{work}/stats-{i}") as f:
                    a, b = f.read().split()
                runs, telling = runs + int(a), telling + int(b)
            except (OSError, ValueError):
                pass
            if os.path.exists(f"{work}/fail-{i}"):
                with open(f"{work}/fail-{i}") as f:
                    d = json.load(f)
                cases.append((d["case"], d["message"]))
        for c in sorted(os.listdir(work)):
            # the process died or did not come to an end, without a word
            if c.startswith("crash-") and not os.path.exists(f"{work}/fail-{c.split('-')[1]}") and "slow-unit" not in c:
                dump = work + "/dump"
                run_env = dict(env(), FUZZ_ID=pid, FUZZ_PART=name, FUZZ_FAIL=work + "/x", FUZZ_STATS=work + "/y", FUZZ_DUMP=dump)
                try:
                    subprocess.run([binary, f"{work}/{c}"], env=run_env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except subprocess.TimeoutExpired:
                    pass
                if os.path.exists(dump):
                    with open(dump) as f:
                        cases.append((json.load(f), "the search ended here: " + c))
        for case, msg in cases:
            for v in ("plain", "checked"):
                path = write_replay(pid, name + " fuzz", v, seed, case, msg)
                with open(path) as f:
                    d = json.load(f)
                d["part"] = name
                with open(path, "w") as f:
                    json.dump(d, f, indent=1, ensure_ascii=False)
                if run_bin([bins[v], "replay", path], CASE_TIMEOUT + 60) in (0, 2):
                    os.remove(path)
                else:
                    out.append((path, f"[{v}] {name}, coverage-guided: {msg}"))
                    break
            if out:
                break
        corpus = len(os.listdir(work + "/corpus"))
        parts.append({"variant": "fuzz", "part": name, "rule": "", "evaluations": runs, "nontrivial": telling, "distinct": 0, "tags": {"inputs that reached new code": corpus},
                      "samples": [], "excluded": 0, "known": {}, "exhaustive": False, "wall_s": round(time.time() - t0, 1)})
        shutil.rmtree(work, ignore_errors=True)
        if out:
            break
    return out


def findings():
    """KF id -> (property, text), from the committed file."""
    out = {}
    for line in open(FINDINGS):
        m = re.match(r"(KF-\d+) property=(C\d\d) (.*)", line.strip())
        if m:
            out[m.group(1)] = (m.group(2), m.group(3))
    return out


def evidence(pid, tier, seed, parts, violations, known, wall):
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts),
        "distinct_nontrivial": sum(p["distinct"] for p in parts),
        "rule": "; ".join(dict.fromkeys(f"{p['part']}: {p['rule']}" for p in parts if p["rule"])),
        "samples": [x for p in parts if p["variant"] in ("plain", "fuzz") for x in p["samples"]][:8],
        "parts": [{k: p[k] for k in ("part", "variant", "evaluations", "nontrivial", "distinct", "tags", "excluded", "known", "exhaustive", "wall_s")} for p in parts],
        "seed_scheme": "ChaCha streams from VERIF_SEED, the property, the part, the build variant and the chunk number",
    }
    d = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["the reference rules in harness/src/grid.rs and the oracles in harness/src/props_*.rs state the property correctly",
                         "behaviour outside the generated sizes, lengths and values is not observed"],
         "wall_s": round(wall, 2), "violations": len(violations)}
    if known:
        d["coverage"]["known_findings_met"] = known
    tmp = os.path.join(EVIDENCE, pid + ".json.new")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVIDENCE, pid + ".json"))


def main():
    a = sys.argv[1:]
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a[:1] == ["setup"]:
        build(["checked", "plain"])
        build_bare()
        print("built")
        return 0
    if len(a) >= 2 and a[0] == "check" and re.fullmatch(r"C\d\d", a[1]):
        return check(a[1], a[2] if len(a) > 2 else "quick")
    if len(a) == 2 and a[0] == "replay":
        with open(a[1]) as f:
            d = json.load(f)
        v = d.get("variant") if d.get("variant") in VARIANTS else "plain"
        b = build([v])[v]
        if d.get("property") == "C30":
            build_bare()
        p = subprocess.run([b, "replay", a[1]], env=env())
        return p.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--cases N] | check.py <ID> --replay FILE | check.py --setup

Rebuilds the harness from /repo's working tree, runs the property in both build profiles as child
processes, writes evidence/<ID>.json and reports.
Exit: 0 held, 1 violation (VIOLATION line), 2 the check itself could not give an answer.
"""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
PROFILES = ["release", "checked"]
MAX_SHARDS = 64
# Properties which run the programs of the repository.
PROGRAMS = ["C27"]


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(base, n) for n in sorted(names)]
    files.append(os.path.join(REPO, "Cargo.toml"))
    for sub in ("src", "redirect"):
        for base, dirs, names in os.walk(os.path.join(HARNESS, sub)):
            dirs.sort()
            files += [os.path.join(base, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def build_programs():
    """The programs of the repository themselves, and what keeps their traffic on the loopback interface."""
    bins = os.path.join(TARGET, "bins")
    os.makedirs(bins, exist_ok=True)
    stamp = os.path.join(bins, "source-hash")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    base = ["cargo", "build", "--offline", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", bins]
    for extra in ([], ["--release"]):
        if have != want:
            if os.path.exists(stamp):
                os.remove(stamp)
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", bins,
                            "-p", "ariadne-dns"] + extra,
                           cwd=bins, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(base + extra, cwd=bins, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            die("the programs of /repo do not build")
    r = subprocess.run(["cc", "-O1", "-shared", "-fPIC", "-o", os.path.join(bins, "redirect.so"),
                        os.path.join(HARNESS, "redirect", "redirect.c")],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        die("redirect.c does not compile")
    with open(stamp, "w") as f:
        f.write(want)


def build():
    """Builds both profiles. Staleness is decided by content, not by modification times."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "source-hash")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in PROFILES:
            d = os.path.join(TARGET, p)
            if os.path.isdir(d):
                subprocess.run(
                    ["cargo", "clean", "--offline", "--profile", p, "-p", "ariadne-dns", "-p", "ariadne-check"],
                    cwd=HARNESS, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    procs = []
    for p in PROFILES:
        r = subprocess.run(["cargo", "build", "--offline", "--profile", p], cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            die("the harness does not build against /repo")
    with open(stamp, "w") as f:
        f.write(want)


def binary(profile):
    return os.path.join(TARGET, profile, "ariadne-check")


def known_findings(pid):
    """{signature: description} of the recorded, unrepaired findings of the property."""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                sig, what = rest.split(" ", 1)
                assert sig.startswith("signature=")
                out[sig[len("signature="):].replace("_", " ")] = what
    return out


def run_child(args, timeout, cpu=None):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre,
                         start_new_session=True, errors="replace", env=env(), cwd=work_dir())
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", ""


WORK = None


def work_dir():
    global WORK
    if WORK is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        WORK = tempfile.mkdtemp(prefix="ariadne-check-", dir=base)
        os.environ["ARIADNE_CHECK_SCRATCH"] = WORK
    return WORK


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def running_cases(slots):
    """Case seeds which were being executed when a child died."""
    with open(slots, "rb") as f:
        b = f.read()
    out = []
    for i in range(MAX_SHARDS):
        c = b[i * 32:(i + 1) * 32]
        if len(c) == 32 and int.from_bytes(c[:8], "little") == 1:
            out.append(int.from_bytes(c[8:16], "little"))
    return out


def signame(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return str(rc)


def confirm(pid, profile, seed, cpu):
    """Runs one case alone. Returns (kind, failure dict or None): kind in pass, fail, crash, hang, broken."""
    out = os.path.join(work_dir(), "confirm.json")
    if os.path.exists(out):
        os.remove(out)
    rc, text = run_child([binary(profile), "replay", pid, "--case-seed", str(seed), "--out", out], 150, cpu)
    if rc == "timeout" or rc in (-signal.SIGXCPU,):
        return "hang", None
    if isinstance(rc, int) and rc < 0:
        if rc == -signal.SIGKILL:
            return "killed", None
        return "crash", {"signature": "crash", "message": "the process dies with %s\n%s" % (signame(rc), text[-1500:])}
    d = load(out) or {}
    if rc == 1 and d.get("failure"):
        return "fail", d["failure"]
    if rc == 0:
        return "pass", None
    return "broken", None


def run_profile(pid, profile, tier, seed, cases, known, limit):
    """Returns (result dict or None, failure dict or None)."""
    w = work_dir()
    for attempt in range(2):
        out = os.path.join(w, "out-%s.json" % profile)
        slots = os.path.join(w, "slots-%s" % profile)
        for f in (out, slots):
            if os.path.exists(f):
                os.remove(f)
        args = [binary(profile), "run", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--slots", slots,
                "--profile", profile, "--known", ",".join(known)]
        if cases:
            args += ["--cases", str(cases)]
        rc, text = run_child(args, limit)
        d = load(out)
        if rc in (0, 1) and d and d.get("status") in ("pass", "fail"):
            f = d.get("failure")
            if f:
                f["profile"] = profile
            return d, f
        if d and d.get("status") == "fail" and d.get("failure"):
            # Found, but the process ended while shrinking.
            d["failure"]["profile"] = profile
            return d, d["failure"]
        if rc == 3:
            die("profile %s: harness error: %s\n%s" % (profile, (d or {}).get("error"), text[-2000:]))
        if rc == "timeout":
            die("profile %s: no answer within %d s" % (profile, limit))
        suspects = running_cases(slots) if os.path.exists(slots) else []
        if rc == 70 and d and d.get("case_seed"):
            suspects = [int(d["case_seed"])]
        print("profile %s: child ended with %s; suspect cases: %s" % (
            profile, signame(rc) if isinstance(rc, int) and rc < 0 else rc, suspects))
        for s in suspects:
            kind, f = confirm(pid, profile, s, 60)
            if kind == "hang":
                f = {"signature": "hang", "message": "the case does not end (CPU or wall limit)"}
            if f:
                if f["signature"] in known:
                    continue
                f.setdefault("case", "case seed %d (the case kills or hangs the process: not shrunk)" % s)
                f["profile"] = profile
                if kind in ("crash", "hang"):
                    f["case_seed"] = s
                return None, f
        if rc == -signal.SIGKILL:
            die("profile %s: killed (memory?)" % profile)
        print(text[-1500:])
        last = (rc, text, suspects)
    # Twice dead without a single case to blame: depends on the interplay of threads.
    rc, text, suspects = last
    return None, {"signature": "crash", "profile": profile, "run_seed": seed,
                  "message": "the process dies (%s) in repeated runs\n%s" % (rc, text[-1500:]),
                  "case": "whole run with seed %d; suspects %s" % (seed, suspects)}


def replay(pid, path):
    f = load(path)
    if not f:
        die("cannot read " + path)
    f = f.get("failure", f)
    prof = f.get("profile", "release")
    build()
    if pid in PROGRAMS:
        build_programs()
    w = work_dir()
    out = os.path.join(w, "replay.json")
    if f.get("run_seed") is not None:
        d, ff = run_profile(pid, prof, "quick", f["run_seed"], None, [], 600)
        kind = "fail" if ff else "pass"
    elif f.get("case_seed") is not None:
        kind, ff = confirm(pid, prof, f["case_seed"], 60)
    else:
        src = os.path.join(w, "replay-in.json")
        json.dump(f, open(src, "w"))
        args = [binary(prof), "replay", pid, "--file", src, "--out", out]
        rc, text = run_child(args, 150, 60)
        d = load(out) or {}
        ff = d.get("failure")
        kind = {0: "pass", 1: "fail"}.get(rc, "crash")
    print("replay: %s" % kind)
    if ff:
        print(ff.get("message", ""))
        print(ff.get("case", ""))
    if kind != "pass":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build()
        build_programs()
        return 0
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    if "--replay" in opt:
        return replay(pid, os.path.abspath(opt["--replay"]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    t0 = time.time()
    build()
    if pid in PROGRAMS:
        build_programs()
    t_build = time.time() - t0
    known = known_findings(pid)
    results, failure = {}, None
    for prof in PROFILES:
        # All in all within the 900 s that a check has.
        limit = max(60, 840 - (time.time() - t0)) if tier == "quick" else 6 * 3600
        d, f = run_profile(pid, prof, tier, seed, opt.get("--cases"), list(known), limit)
        if d:
            results[prof] = d
        if f:
            failure = f
            break
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "profiles": {}}
    assumptions = []
    for prof, d in results.items():
        cov["evaluations"] += d["evaluations"]
        cov["distinct_nontrivial"] += d["distinct_nontrivial"]
        cov["rule"] = d["rule"]
        assumptions = d["assumptions"]
        cov["samples"] += d["samples"][:2]
        cov["profiles"][prof] = {k: d[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "labels", "extra", "known", "wall_s")}
    if failure and not cov["samples"]:
        cov["samples"] = [failure.get("case", "")]
    cov["build_s"] = round(t_build, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = {}
    for d in results.values():
        for s, n in d.get("known", {}).items():
            seen[s] = seen.get(s, 0) + n
    for s, what in known.items():
        print("KNOWN-FINDING: property=%s %s (seen in %d cases)" % (pid, what, seen.get(s, 0)))
    if failure:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s.json" % pid)
        failure["property"] = pid
        with open(rp, "w") as f:
            json.dump(failure, f, indent=1)
        print("%s: %s" % (failure["signature"], failure["message"][:3000]))
        print("case: %s" % str(failure.get("case", ""))[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    finally:
        if WORK and os.path.basename(WORK).startswith("ariadne-check-"):
            shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(code)

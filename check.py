#!/usr/bin/env python3
"""Driver of the property checks.

  check.py run ID [--tier quick|thorough]   decide one property
  check.py replay FILE                      re-run a saved failing case
  check.py setup                            pre-build everything

Builds the harness from /repo's working tree, runs its stages (see DESIGN.md),
writes evidence/<ID>.json.  Exit 0: held on everything explored; 1: violated,
with a VIOLATION line; anything else: the check itself could not give an answer.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"

# random cases of the quick tier, in percent of the number in the harness;
# fixed work, about ten seconds per profile on eight cores
QUICK = {
    "P01": 500, "P02": 900, "P03": 900, "P04": 400, "P05": 400, "P06": 300,
    "P07": 300, "P08": 500, "P09": 600, "P10": 1800, "P11": 3000, "P12": 600,
    "P13": 900, "P14": 400, "P15": 1200, "P16": 1500, "P17": 300, "P18": 100,
}
THOROUGH_ROUNDS = 12      # rounds of THOROUGH_FACTOR x the quick number per profile
THOROUGH_FACTOR = 2
NO_FUZZ = ("P16", "P18")  # statistics over whole samples; a matrix of builds
FUZZ_SECONDS = 20


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("message", ""))
        self.info = info


def log(*a):
    print(*a, flush=True)


def cargo_env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS",
              "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def text(b):
    return b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")


MEM_LIMIT = 20 << 30      # address space of a plain harness process


def sh(cmd, env=None, cwd=None, timeout=1500, on_timeout=None, limit=False):
    """Run a command in a process group of its own. A time-out is an error, or
    gives return code `on_timeout` (with what was printed so far)."""
    def pre():
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=pre if limit else None)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        if on_timeout is None:
            raise CheckError("timed out: " + " ".join(cmd)[:300])
        rc = on_timeout
    except BaseException:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        raise
    return subprocess.CompletedProcess(cmd, rc, text(out), text(err))


def tail_errors(text, n=40):
    lines = text.splitlines()
    idx = [i for i, l in enumerate(lines) if l.startswith("error")]
    if idx:
        return "\n".join(lines[idx[0]:idx[0] + n])
    return "\n".join(lines[-n:])


# ------------------------------------------------------------------- builds

def repo_hash():
    """Content hash of what a build of /repo reads."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def freshen(d):
    """Cargo compares modification times; make it rebuild the crate whenever the
    content of /repo differs from what was last built into this directory."""
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, ".apint-source")
    h = repo_hash()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    for root, dirs, _ in os.walk(d):
        if os.path.basename(root) == ".fingerprint":
            for x in list(dirs):
                if x.startswith("apint-"):
                    shutil.rmtree(os.path.join(root, x), ignore_errors=True)
            dirs[:] = []
        else:
            dirs[:] = [x for x in dirs if x not in ("deps", "build", "incremental", "bins", "asan", "miri", "fuzz", "plain", "feat-dbg", "feat-release")]
    with open(stamp, "w") as f:
        f.write(h)

class Build:
    """One way of building the harness; bin(name) is the path of a binary."""

    def __init__(self, name, profile="dbg", features=None, asan=False):
        self.name, self.profile = name, profile
        self.features, self.asan = features, asan

    def cmd(self):
        c = ["cargo"] + (["+nightly"] if self.asan else []) + [
            "build", "--offline", "--locked", "--profile", self.profile,
            "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target-dir", self.dir()]
        if self.asan:
            c += ["--target", TRIPLE]
        if self.features is not None:
            c += ["--no-default-features", "--features", ",".join(self.features),
                  "--bin", "apcheck"]
        return c

    def dir(self):
        if self.asan:
            return os.path.join(TARGET, "asan")
        if self.features is not None:
            return os.path.join(TARGET, "feat-" + self.profile)
        return TARGET

    def env(self):
        return cargo_env({"RUSTFLAGS": "-Zsanitizer=address"} if self.asan else None)

    def run(self):
        freshen(self.dir())
        r = sh(self.cmd(), env=self.env(), cwd=HARNESS)
        if r.returncode == 0 and self.features is not None:
            # the next feature combination overwrites the binary
            os.makedirs(os.path.join(self.dir(), "bins"), exist_ok=True)
            shutil.copy2(os.path.join(self.dir(), self.profile, "apcheck"), self.bin("apcheck"))
        return r.returncode == 0, r.stdout + r.stderr

    def bin(self, b):
        d = self.dir()
        if self.features is not None:
            return os.path.join(d, "bins", b + "-" + ("-".join(self.features) or "none"))
        if self.asan:
            d = os.path.join(d, TRIPLE)
        return os.path.join(d, self.profile, b)

    def spec(self):
        return {"name": self.name, "profile": self.profile, "features": self.features,
                "asan": self.asan}


DBG = Build("dbg", "dbg")
REL = Build("release", "release")
ASAN = Build("asan", "dbg", asan=True)
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=0:"
                            "allocator_may_return_null=0:color=never"}

_built = {}


def build(b):
    if b.name not in _built:
        t = time.time()
        ok, out = b.run()
        log("build %s: %s (%.1f s)" % (b.name, "ok" if ok else "FAILED", time.time() - t))
        _built[b.name] = (ok, out)
    return _built[b.name]


def must_build(b):
    ok, out = build(b)
    if not ok:
        raise CheckError("the harness does not build (%s):\n%s" % (b.name, tail_errors(out)))


# ------------------------------------------------------------------- stages

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="apv-")
        self.hashes = os.path.join(self.tmp, "hashes")
        self.evaluations = self.distinct = self.ops = self.enumerated = 0
        self.labels, self.samples, self.stages = {}, [], []
        self.rule = ""

    def left(self):
        """Seconds left for optional stages of a quick run (a check gets 900)."""
        return 700 - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def absorb(self, name, rep):
        self.evaluations += rep["evaluations"]
        self.distinct += rep["distinct_nontrivial"]
        self.ops += rep["ops"]
        self.enumerated = max(self.enumerated, rep["enumerated"])
        for k, v in rep["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        if len(self.samples) < 8:
            self.samples += [name + ": " + s for s in rep["samples"][:2]]
        self.rule = self.rule or rep["rule"]
        self.stages.append({"stage": name, "evaluations": rep["evaluations"],
                            "new_distinct_nontrivial": rep["distinct_nontrivial"],
                            "oracle_comparisons": rep["ops"], "wall_s": rep["wall"]})

    def stage(self, b, binary="apcheck", scale=100, salt=0, thorough=False, enums=True,
              env=None, prop=None):
        """Run one search; raise Violation on a failing case."""
        must_build(b)
        name = "%s/%s salt %d" % (b.name, binary, salt)
        out = os.path.join(self.tmp, "report.json")
        if os.path.exists(out):
            os.unlink(out)
        pid = prop or self.pid
        opts = ["--seed", str(self.seed), "--salt", str(salt), "--scale", str(scale)]
        if thorough:
            opts.append("--thorough")
        if not enums:
            opts.append("--no-enums")
        e = dict(os.environ)
        e.update(env or {})
        exe = b.bin(binary)
        cmd = [exe, "run", pid] + opts + ["--out", out, "--hashes", self.hashes]
        plain = "ASAN_OPTIONS" not in (env or {})
        r = sh(cmd, env=e, timeout=780 if self.tier == "quick" else 3600, limit=plain)
        log("%s: exit %d" % (name, r.returncode))
        info = {"property": self.pid, "harness_property": pid, "build": b.spec(),
                "binary": binary, "env": env or {}, "seed": self.seed, "salt": salt}
        if r.returncode in (0, 1) and os.path.exists(out):
            rep = json.load(open(out))
            self.absorb(name, rep)
            f = rep["failure"]
            if f is None and r.returncode == 0:
                return
            if f is not None:
                info.update(kind="case", tape=f["tape"], message=f["message"],
                            notes=f["notes"], shrink_runs=f["shrink_runs"])
                raise Violation(info)
            raise CheckError("inconsistent report: %s" % r.stderr[-2000:])
        m = re.search(r"CRASH signal=(\d+) index=(\d+)", r.stderr)
        if r.returncode == 99 and m:
            info["crash"] = tail_crash(r.stderr)
            self.crash(info, exe, pid, opts, e, int(m.group(1)), int(m.group(2)))
        m = re.search(r"HANG index=(\d+)", r.stderr)
        if r.returncode == 98 and m:
            self.hang(info, exe, pid, opts, e, int(m.group(1)))
        if r.returncode < 0 and -r.returncode != signal.SIGKILL:
            self.again(info, exe, pid, opts, e, plain, "signal %d" % -r.returncode)
        raise CheckError("%s ended with %d: %s" % (name, r.returncode, r.stderr[-2000:]))

    def again(self, info, exe, pid, opts, e, plain, what):
        """The process died without a case that fails on its own: believe it if the
        same search dies again or reports a failure, in whatever way (a damaged heap
        shows itself differently each time)."""
        out = os.path.join(self.tmp, "again.json")
        for extra in ([], ["--threads", "1"], []):
            if os.path.exists(out):
                os.unlink(out)
            r = sh([exe, "run", pid] + opts + extra + ["--out", out], env=e, limit=plain,
                   timeout=max(60, min(300, self.left())), on_timeout=-999)
            log("the same search again: exit %d" % r.returncode)
            if r.returncode in (0, 2, -999, -signal.SIGKILL):
                continue
            if r.returncode == 1 and os.path.exists(out):
                f = json.load(open(out))["failure"]
                if f:
                    info.update(kind="case", tape=f["tape"], message=f["message"],
                                notes=f["notes"], shrink_runs=f["shrink_runs"])
                    raise Violation(info)
            info.update(kind="run", opts=opts + extra,
                        message="the process dies with %s during the search, and again "
                                "(exit %d) when the search is repeated" % (what, r.returncode))
            raise Violation(info)

    def hang(self, info, exe, pid, opts, e, index):
        """A case that does not end (cases take milliseconds)."""
        r = sh([exe, "tape", pid, str(index)] + opts, env=e, timeout=100, on_timeout=-999)
        tape = [int(x) for l in r.stderr.splitlines() if l.startswith("T ")
                for x in l.split()[1:]]
        if r.returncode == -999:
            def fails(t):
                q = sh([exe, "replay", pid] + [str(x) for x in t], env=e, timeout=20,
                       on_timeout=-999)
                return q.returncode == -999
            n = 0
            if fails(tape):
                tape, n = shrink(tape, fails, seconds=120)
            info.update(kind="case", tape=tape, shrink_runs=n, notes=[],
                        message="case %d does not end (still running after 90 s, and again "
                                "after 100 s on its own)" % index)
            raise Violation(info)
        raise CheckError("case %d ran for 90 s but ended when repeated" % index)

    def crash(self, info, exe, pid, opts, e, sig, index):
        """A crash of the process: find the case and confirm it."""
        if index < 1 << 62:
            r = sh([exe, "tape", pid, str(index)] + opts, env=e, timeout=120, on_timeout=-999)
            tape = [int(x) for l in r.stderr.splitlines() if l.startswith("T ")
                    for x in l.split()[1:]]
            if r.returncode not in (0, 2) and tape:
                def fails(t):
                    q = sh([exe, "replay", pid] + [str(x) for x in t], env=e, timeout=60, on_timeout=-999)
                    return q.returncode not in (0, 2)
                if fails(tape):
                    tape, n = shrink(tape, fails)
                    info.update(kind="case", tape=tape, shrink_runs=n, notes=[],
                                message="the process dies with signal %d" % sig)
                    raise Violation(info)
        self.again(info, exe, pid, opts, e, "ASAN_OPTIONS" not in e, "signal %d" % sig)
        raise CheckError("crash with signal %d did not reproduce: %s" % (sig, info.get("crash")))


def tail_crash(s):
    i = s.find("ERROR: AddressSanitizer")
    return s[i:i + 1500] if i >= 0 else s[-600:]


def shrink(tape, fails, budget=250, seconds=40):
    t0, n = time.time(), 0
    size = len(tape) // 2
    while size >= 1:
        i, any_ = 0, False
        while i + size <= len(tape):
            if n >= budget or time.time() - t0 > seconds:
                return tape, n
            c = tape[:i] + tape[i + size:]
            n += 1
            if fails(c):
                tape, any_ = c, True
            else:
                i += size
        if not any_:
            size //= 2
    return tape, n


# --------------------------------------------------------------------- Miri

MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"


def miri_cmd(args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--release",
            "--bin", "apcheck", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target-dir", os.path.join(TARGET, "miri"), "--"] + args


def miri_env():
    return cargo_env({"MIRIFLAGS": MIRI_FLAGS})


def miri_build():
    freshen(os.path.join(TARGET, "miri"))
    r = sh(miri_cmd(["list"]), env=miri_env(), cwd=HARNESS, timeout=600)
    return r.returncode == 0, r.stderr


def miri_stage(run, jobs, cases, salt0):
    t = time.time()
    ok, err = miri_build()
    if not ok:
        log("Miri is not usable here, stage skipped: " + tail_errors(err, 8))
        run.stages.append({"stage": "miri", "skipped": tail_errors(err, 8)})
        return
    log("build miri: ok (%.1f s)" % (time.time() - t))

    def one(k):
        out = os.path.join(run.tmp, "miri%d.json" % k)
        args = ["run", run.pid, "--seed", str(run.seed), "--salt", str(salt0 + k),
                "--cases", str(cases), "--no-enums", "--threads", "1", "--out", out]
        limit = 1700 if run.tier == "thorough" else max(60, min(300, run.left()))
        return k, sh(miri_cmd(args), env=miri_env(), cwd=HARNESS, timeout=limit,
                     on_timeout=-999), out

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    for k, r, out in res:
        if "Undefined Behavior" in r.stderr:
            idx = re.findall(r"CASE index=(\d+)", r.stderr)
            i = r.stderr.find("Undefined Behavior")
            info = {"property": run.pid, "harness_property": run.pid, "kind": "miri",
                    "seed": run.seed, "salt": salt0 + k, "index": int(idx[-1]) if idx else 0,
                    "message": "Miri: " + r.stderr[i:i + 1500]}
            raise Violation(info)
        if r.returncode == 1 and os.path.exists(out):
            rep = json.load(open(out))
            f = rep["failure"]
            if f:
                raise Violation({"property": run.pid, "harness_property": run.pid,
                                 "kind": "case", "build": DBG.spec(), "binary": "apcheck",
                                 "env": {}, "tape": f["tape"], "notes": f["notes"],
                                 "message": "under Miri: " + f["message"],
                                 "seed": run.seed, "salt": salt0 + k})
        if r.returncode == 0 and os.path.exists(out):
            run.absorb("miri salt %d" % (salt0 + k), json.load(open(out)))
            continue
        log("miri salt %d gave no answer, not counted: %s" % (salt0 + k, tail_errors(r.stderr, 6)))
        run.stages.append({"stage": "miri salt %d" % (salt0 + k),
                           "skipped": tail_errors(r.stderr, 6)})


# ------------------------------------------------- coverage-guided fuzzing

FUZZ = os.path.join(VERIF, "fuzz")
FUZZ_DIR = os.path.join(TARGET, "fuzz")


def fuzz_bin(pid):
    return os.path.join(FUZZ_DIR, TRIPLE, "release", "fzg" if pid == "P14" else "fz")


def fuzz_build(timeout=600):
    freshen(FUZZ_DIR)
    r = sh(["cargo", "+nightly", "build", "--offline", "--locked", "--release", "--target", TRIPLE,
            "--manifest-path", os.path.join(FUZZ, "Cargo.toml"), "--target-dir", FUZZ_DIR],
           env=cargo_env(), cwd=FUZZ, timeout=timeout, on_timeout=-999)
    return r.returncode == 0, r.stderr


def fuzz_stage(run, seconds, jobs=8):
    """libFuzzer over the same generators and oracles. It only proposes cases: a
    failure counts once the plain build fails on the same tape."""
    t = time.time()
    ok, err = fuzz_build(timeout=600 if run.tier == "thorough" else max(60, run.left() - 100))
    if not ok:
        log("the fuzz target does not build, stage skipped: " + tail_errors(err, 8))
        run.stages.append({"stage": "libfuzzer", "skipped": tail_errors(err, 8)})
        return
    log("build fuzz: ok (%.1f s)" % (time.time() - t))
    exe = fuzz_bin(run.pid)
    corpus = os.path.join(run.tmp, "corpus")
    os.makedirs(corpus, exist_ok=True)
    env = dict(os.environ, APV_PROP=run.pid)

    def one(k):
        art = os.path.join(run.tmp, "art%d-" % k)
        # half of the processes share what they find, half explore alone
        c = corpus
        if k % 2:
            c = os.path.join(run.tmp, "corpus%d" % k)
            os.makedirs(c, exist_ok=True)
        r = sh([exe, "-max_total_time=%d" % seconds, "-seed=%d" % (run.seed * 1000 + k + 1),
                "-max_len=%d" % (512, 2048)[k & 1], "-len_control=%d" % (20, 0)[k >> 2 & 1],
                "-timeout=60", "-rss_limit_mb=3500", "-reload=1", "-print_final_stats=1",
                "-use_value_profile=%d" % (k >> 1 & 1), "-artifact_prefix=" + art, c],
               env=env, cwd=run.tmp, timeout=seconds + 180, on_timeout=-999)
        return k, r, art

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    total = {"cases": 0, "nontrivial": 0, "ops": 0}
    cov = []
    suspects = []
    for k, r, art in res:
        m = re.search(r"FUZZ cases=(\d+) nontrivial=(\d+) ops=(\d+)", r.stderr)
        if m:
            for key, v in zip(("cases", "nontrivial", "ops"), m.groups()):
                total[key] += int(v)
        c = re.findall(r"cov: (\d+)", r.stderr)
        cov += [int(c[-1])] if c else []
        m = re.search(r"^FUZZTAPE ?(.*)$", r.stderr, re.M)
        if m:
            suspects.append([int(x) for x in m.group(1).split()])
            continue
        for f in sorted(os.listdir(run.tmp)):
            p = os.path.join(run.tmp, f)
            if p.startswith(art) and not f.startswith("art%d-slow" % k):
                q = sh([exe, "-timeout=60", p], env=dict(env, APV_ECHO="1"), cwd=run.tmp,
                       timeout=90, on_timeout=-999)
                suspects.append([int(x) for l in q.stderr.splitlines() if l.startswith("T ")
                                 for x in l.split()[1:]])
    run.evaluations += total["cases"]
    run.ops += total["ops"]
    run.stages.append({"stage": "libfuzzer", "processes": jobs, "seconds": seconds,
                       "evaluations": total["cases"], "nontrivial": total["nontrivial"],
                       "oracle_comparisons": total["ops"],
                       "edges_covered": max(cov) if cov else None,
                       "wall_s": round(time.time() - t, 1)})
    log("libfuzzer: %d cases, %d non-trivial, %s edges, %d suspects"
        % (total["cases"], total["nontrivial"], max(cov) if cov else "?", len(suspects)))
    seen = []
    binary = "apguard" if run.pid == "P14" else "apcheck"
    for tape in suspects[:4]:
        if tape in seen:
            continue
        seen.append(tape)
        for b in (DBG, REL):
            must_build(b)
            cmd = [b.bin(binary), "replay", run.pid]

            def verdict(t):
                return sh(cmd + [str(x) for x in t], timeout=60, on_timeout=-999, limit=True)

            def fails(t):
                return verdict(t).returncode not in (0, 2)
            if not fails(tape):
                continue
            small, n = shrink(tape, fails)
            v = verdict(small)
            raise Violation({"property": run.pid, "harness_property": run.pid, "kind": "case",
                             "build": b.spec(), "binary": binary, "env": {}, "tape": small,
                             "seed": run.seed, "shrink_runs": n, "notes": [],
                             "message": "found by coverage-guided fuzzing; replay exits with %d: %s"
                                        % (v.returncode, (v.stdout + v.stderr)[-1500:])})
    if suspects:
        log("no suspect of the fuzzer fails in the plain builds: not counted")
        run.stages[-1]["unconfirmed"] = [t[:200] for t in suspects[:4]]


# ---------------------------------------------------------- feature matrix

FEATS = [("std", "cfg_std"), ("rand_support", "cfg_rand"), ("serde_support", "cfg_serde")]


def combos():
    for m in range(8):
        yield [a for i, (a, _) in enumerate(FEATS) if m >> i & 1], \
              [b for i, (_, b) in enumerate(FEATS) if m >> i & 1]


def repo_build_cmd(feats):
    return ["cargo", "check", "--offline", "--lib", "--manifest-path",
            os.path.join(REPO, "Cargo.toml"), "--target-dir",
            os.path.join(TARGET, "plain"),
            "--no-default-features", "--features", ",".join(feats)]


def parallel(fs):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda f: f(), fs))


def feature_builds():
    return [(feats, Build("%s[%s]" % (prof, ",".join(feats)), prof, hf))
            for prof in ("dbg", "release") for feats, hf in combos()]


def build_features():
    bs = feature_builds()
    parallel([lambda p=p: [build(b) for _, b in bs if b.profile == p]
              for p in ("dbg", "release")])
    return bs


def check_repo_builds():
    cs = list(combos())
    freshen(os.path.join(TARGET, "plain"))
    return list(zip(cs, [sh(repo_build_cmd(c[0]), env=cargo_env(), cwd=REPO) for c in cs]))


def feature_stages(run, scale, thorough):
    must_build(DBG)
    run.configs = []
    for (feats, _), r in check_repo_builds():
        if r.returncode:
            raise Violation({"property": run.pid, "kind": "build", "features": feats,
                             "cmd": repo_build_cmd(feats),
                             "message": "the crate does not build with features [%s]:\n%s"
                                        % (",".join(feats), tail_errors(r.stderr))})
        run.configs.append("check features=[%s]" % ",".join(feats))
    builds = build_features()
    for k, (feats, b) in enumerate(builds):
        ok, out = build(b)
        if not ok:
            raise Violation({"property": run.pid, "kind": "build", "features": feats,
                             "cmd": b.cmd(),
                             "message": "code using the documented API does not build against "
                                        "features [%s] (%s) although it does with all features:"
                                        "\n%s" % (",".join(feats), b.profile, tail_errors(out))})
        run.stage(b, scale=scale, salt=k, thorough=thorough, enums=True)
        run.configs.append("run %s" % b.name)


# -------------------------------------------------------------------- check

def do_run(pid, tier, seed):
    run = Run(pid, tier, seed)
    run.configs = []
    thorough = tier == "thorough"
    info = None
    try:
        q = QUICK[pid]
        try:
            if pid == "P14":
                # first the allocator that notices misuse without dying of it
                run.stage(DBG, "apguard", scale=q, salt=2)
                run.stage(REL, "apguard", scale=q, salt=3)
            if pid == "P18":
                feature_stages(run, q * (20 if thorough else 1), thorough)
            else:
                run.stage(DBG, scale=q, salt=0, thorough=thorough)
                run.stage(REL, scale=q, salt=1, thorough=thorough)
            if pid == "P14":
                if thorough or run.left() > 150:
                    run.stage(ASAN, "apcheck", scale=q // 2, salt=4, env=ASAN_ENV)
                if thorough or run.left() > 60:
                    miri_stage(run, 8, 60 if thorough else 10, 100)
            if pid not in NO_FUZZ and (thorough or run.left() > 250):
                fuzz_stage(run, 300 if thorough else FUZZ_SECONDS)
            if thorough and pid != "P18":
                for k in range(THOROUGH_ROUNDS):
                    for b, s in ((DBG, 10), (REL, 11)):
                        run.stage(b, scale=q * THOROUGH_FACTOR, salt=s + 2 * k, enums=False)
                        if pid == "P14":
                            run.stage(b, "apguard", scale=q * THOROUGH_FACTOR,
                                      salt=1000 + s + 2 * k, enums=False)
        except Violation as v:
            info = v.info
        path = None
        if info is not None:
            path = save_replay(pid, info)
        write_evidence(run, info)
        if info is not None:
            log("property %s is violated: %s" % (pid, info["message"]))
            for n in info.get("notes", []):
                log("    " + n)
            if "crash" in info:
                log(info["crash"])
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        log("property %s held on %d cases (%d distinct non-trivial), %.1f s"
            % (pid, run.evaluations, run.distinct, time.time() - run.t0))
        return 0
    finally:
        run.close()


def save_replay(pid, info):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s.json" % pid)
    info["how_to_replay"] = "python3 %s replay %s" % (os.path.join(VERIF, "check.py"), path)
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    return path


def write_evidence(run, info):
    cov = {
        "evaluations": run.evaluations,
        "distinct_nontrivial": run.distinct,
        "rule": run.rule or "feature combinations are built; see configurations",
        "samples": run.samples or ["no case ran"],
        "oracle_comparisons": run.ops,
        "enumerated_cases_per_stage": run.enumerated,
        "distribution": run.labels,
        "stages": run.stages,
    }
    if run.configs:
        cov["configurations"] = run.configs
    if info is not None:
        cov["violation"] = {k: info.get(k) for k in ("message", "notes", "tape", "kind")}
    ev = {
        "property": run.pid, "tier": run.tier, "seed": run.seed, "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the reference model (harness/src/model.rs) is correct; it is checked against "
            "u128/i128 arithmetic at the start of every run",
            "bounded search: widths up to a few thousand bits (rarely 70,000), histories of tens of steps; "
            "absence of failures is not proof",
            "x86-64, little endian, 64-bit digits",
        ],
        "wall_s": round(time.time() - run.t0, 3),
        "violations": 0 if info is None else 1,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, run.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def do_replay(path):
    i = json.load(open(path))
    if i["kind"] == "build":
        r = sh(i["cmd"], env=cargo_env(), cwd=REPO)
        log(tail_errors(r.stderr))
        return 1 if r.returncode else 0
    if i["kind"] == "miri":
        args = ["run", i["harness_property"], "--seed", str(i["seed"]), "--salt", str(i["salt"]),
                "--cases", str(i["index"] + 1), "--no-enums", "--threads", "1",
                "--out", os.devnull]
        r = sh(miri_cmd(args), env=miri_env(), cwd=HARNESS, timeout=1700)
        log(tail_errors(r.stderr))
        return 1 if r.returncode else 0
    s = i["build"]
    b = Build(s["name"], s["profile"], s["features"], s["asan"])
    must_build(b)
    e = dict(os.environ)
    e.update(i.get("env") or {})
    if i["kind"] == "run":
        cmd = [b.bin(i["binary"]), "run", i["harness_property"]] + i["opts"]
    else:
        cmd = [b.bin(i["binary"]), "replay", i["harness_property"]] + [str(x) for x in i["tape"]]
    r = sh(cmd, env=e, timeout=600, on_timeout=1)
    log(r.stdout[-6000:] + r.stderr[-3000:])
    return 0 if r.returncode == 0 else 1


def do_setup():
    for b in (DBG, REL, ASAN):
        must_build(b)
    build_features()
    check_repo_builds()
    ok, err = fuzz_build()
    log("fuzz: %s" % ("ok" if ok else tail_errors(err, 6)))
    ok, err = miri_build()
    log("miri: %s" % ("ok" if ok else tail_errors(err, 6)))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup":
            return do_setup()
        if len(a) == 2 and a[0] == "replay":
            return do_replay(a[1])
        if len(a) >= 2 and a[0] == "run" and a[1] in QUICK:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            seed = int(os.environ.get("VERIF_SEED", "1") or "1")
            return do_run(a[1], tier, seed)
        print(__doc__)
        return 2
    except CheckError as e:
        log("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())

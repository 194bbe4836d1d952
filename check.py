#!/usr/bin/env python3
"""Driver: builds the harness against /repo's working tree, shards generated cases, confirms and shrinks failures,
writes evidence/<id>.json.

  check.py <ID> [quick|thorough]      run one check (tier defaults to $VERIF_TIER, then quick)
  check.py replay FILE                run a replay file again (exit 1 if it still fails)
  check.py setup                      build every configuration once
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(VERIF, "out")
HARNESS = os.path.join(VERIF, "harness")
THREADS = os.path.join(VERIF, "threads")
NIGHTLY = "nightly-2024-11-07"
JOBS = min(8, os.cpu_count() or 4)

# toolchain, features, profile, rustflags
CFGS = {
    "std": ("stable", "hash,stdio", "dev", ""),
    "hb": ("stable", "hash", "dev", ""),
    "nb": (NIGHTLY, "btree,stdio", "dev", ""),
    "std-deep": ("stable", "hash,stdio", "deep", ""),
    "hb-deep": ("stable", "hash", "deep", ""),
    "nb-deep": (NIGHTLY, "btree,stdio", "deep", ""),
    "std-rel": ("stable", "hash,stdio", "release", ""),
    "hb-rel": ("stable", "hash", "release", ""),
    "nb-rel": (NIGHTLY, "btree,stdio", "release", ""),
    "nb-asan0": (NIGHTLY, "btree,stdio", "dev", "-Zsanitizer=address --cfg asan"),
    "std-asan0": (NIGHTLY, "hash,stdio", "dev", "-Zsanitizer=address --cfg asan"),
    "nb-asan": (NIGHTLY, "btree,stdio", "deep", "-Zsanitizer=address --cfg asan"),
    "std-asan": (NIGHTLY, "hash,stdio", "deep", "-Zsanitizer=address --cfg asan"),
    "nb-tsan": (NIGHTLY, "btree,stdio", "dev", "-Zsanitizer=thread --cfg tsan"),
    "std-tsan": (NIGHTLY, "hash,stdio", "dev", "-Zsanitizer=thread --cfg tsan"),
    "nb-tsan1": (NIGHTLY, "btree,stdio", "deep", "-Zsanitizer=thread --cfg tsan"),
}
# further sets of features that must not change anything (X03)
for _n, _t, _f in (("no", "stable", ""), ("so", "stable", "hash,fstd,r157"), ("nu", NIGHTLY, "btree"), ("al", NIGHTLY, "btree,stdio,fhash,fstd,r157")):
    CFGS[_n] = (_t, _f, "dev", "")
    CFGS[_n + "-deep"] = (_t, _f, "deep", "")
# interpreted for a 32-bit target (Miri): sizes there do not fit where they fit on 64 bits
CFGS["m32"] = ("nightly", "hash,stdio", "dev", "")
MIRI_TARGET = "i686-unknown-linux-gnu"
# sets of features the crate is built with as a library only (T06)
for _n, _f in (("none", ""), ("hash", "hash"), ("std", "std"), ("io", "stdio"), ("std-hash", "std,hash"), ("io-hash", "stdio,hash"),
               ("bt", "btree"), ("bt-std", "btree,std"), ("bt-io", "btree,stdio"), ("bt-hash-io", "btree,hash,stdio"), ("bt-hash", "btree,hash")):
    CFGS["f-" + _n] = (NIGHTLY if "btree" in _f else "stable", _f, "dev", "")
CFG_TEXT = {
    "std": "stable toolchain, features hashmap+std_io (std HashMap), overflow and debug checks",
    "hb": "stable toolchain, feature hashmap without std (hashbrown), overflow and debug checks",
    "nb": NIGHTLY + ", features unstable+std_io (ordered maps, try_vec!), overflow and debug checks",
    "no": "stable toolchain, no features, overflow and debug checks",
    "so": "stable toolchain, features std+hashmap+rust_1_57 without std_io, overflow and debug checks",
    "nu": NIGHTLY + ", feature unstable alone, overflow and debug checks",
    "al": NIGHTLY + ", all features, overflow and debug checks",
    "rel": "optimised, no overflow or debug checks",
    "asan": "AddressSanitizer",
    "asan0": "AddressSanitizer, unoptimised",
    "tsan": "ThreadSanitizer",
    "tsan1": "ThreadSanitizer, optimised",
    "deep": "optimised, overflow and debug checks",
    "m32": "nightly toolchain, features hashmap+std_io, interpreted by Miri for a 32-bit target (i686)",
}

sys.path.insert(0, VERIF)
from plans import PLANS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("CHECK-ERROR", msg)
    sys.exit(2)


# ------------------------------------------------------------------ building

def build_miri(cfg, bins):
    """a script per binary that interprets it; (None, why) when that is not possible here"""
    tc, feats, _, _ = CFGS[cfg]
    tdir = os.path.join(VERIF, "target-" + cfg)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["XDG_CACHE_HOME"] = os.path.join(tdir, "cache")
    env["RUSTFLAGS"] = "-Awarnings"
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    base = ["cargo", "+" + tc, "miri"]
    res = {}
    with open(os.path.join(tdir, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shutil.rmtree(os.path.join(tdir, "miri", MIRI_TARGET, "debug", "build", "fallible_collections"), ignore_errors=True)
        bdir = os.path.join(OUT, "bin", "%s-%d" % (cfg, os.getpid()))
        os.makedirs(bdir, exist_ok=True)
        try:
            p = subprocess.run(base + ["setup", "--offline", "--target", MIRI_TARGET], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=240)
            if p.returncode != 0:
                return None, p.stdout[-400:]
            for b in bins:
                run = base + ["run", "--offline", "-q", "--target", MIRI_TARGET, "--target-dir", tdir, "--bin", b, "--features", feats, "--"]
                p = subprocess.run(run + ["list"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
                if p.returncode != 0:
                    return None, p.stdout[-400:]
                f = os.path.join(bdir, b)
                with open(f, "w") as h:
                    h.write("#!/bin/sh\ncd %s\nexport XDG_CACHE_HOME=%s RUSTFLAGS=-Awarnings MIRIFLAGS='%s'\nunset CARGO_TARGET_DIR RUSTUP_TOOLCHAIN\nexec timeout 800 %s \"$@\"\n" % (
                        HARNESS, env["XDG_CACHE_HOME"], env["MIRIFLAGS"], " ".join(run)))
                os.chmod(f, 0o755)
                res[b] = f
        except subprocess.TimeoutExpired:
            return None, "it takes too long"
    return res, ""


def build(cfg, bins):
    tc, feats, profile, flags = CFGS[cfg]
    if cfg == "m32":
        return build_miri(cfg, bins)
    threads = bins == ["p_thread"]
    tdir = os.path.join(VERIF, "target-" + ("t-" if threads else "") + cfg)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        env.pop(k, None)
    if flags:
        env["RUSTFLAGS"] = flags
    cmd = ["cargo", "+" + tc, "build", "--offline", "--features", feats, "--target-dir", tdir, "--profile", profile]
    sub = profile if profile != "dev" else "debug"
    if "sanitizer" in flags:
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/" + sub
    for b in bins:
        cmd += ["--bin", b]
    with open(os.path.join(tdir, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo notices changes by modification time only: always rebuild the crate under test
        fpd = os.path.join(tdir, sub, ".fingerprint")
        if os.path.isdir(fpd):
            for n in os.listdir(fpd):
                if n.startswith("fallible_collections-"):
                    shutil.rmtree(os.path.join(fpd, n), ignore_errors=True)
        p = subprocess.run(cmd, cwd=THREADS if threads else HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errs = "\n".join(p.stdout.splitlines()[-60:])
            return None, errs
        res = {}
        bdir = os.path.join(OUT, "bin", "%s-%d" % (cfg, os.getpid()))
        os.makedirs(bdir, exist_ok=True)
        for b in bins:
            dst = os.path.join(bdir, b)
            shutil.copy2(os.path.join(tdir, sub, b), dst)
            res[b] = dst
    return res, ""


# ------------------------------------------------------------------ running

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:symbolize=0"
ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_thread_leaks=0"
ENV["RUST_BACKTRACE"] = "0"


def outcome(rc, text):
    """None = passed; otherwise (kind, message)"""
    if rc == 0:
        return None
    m = re.findall(r"^VFAIL (.*)$", text, re.M)
    if rc == 101 and m:
        return ("violated", m[-1])
    if rc == 3:
        m = re.findall(r"^HARNESS-PANIC (.*)$", text, re.M)
        return ("oracle-broke-down", m[-1] if m else "")
    if rc == 99:
        m = re.findall(r"ERROR: AddressSanitizer: (.*)", text)
        return ("asan", m[0] if m else "AddressSanitizer report")
    m = re.findall(r"WARNING: ThreadSanitizer: (.*)", text)
    if rc == 66 and m:
        w = re.findall(r"^ +#\d+ (.*fallible_collections.*)$", text, re.M)
        return ("tsan", re.sub(r" \(pid=\d+\)", "", m[0]) + (" at " + w[0][:200] if w else ""))
    if rc == -signal.SIGPROF:
        return ("hang", "one case used more than its limit of CPU time (it does not terminate)")
    m = re.findall(r"^error: (abnormal termination.*|Undefined Behavior.*)$", text, re.M)
    if rc == 1 and m:
        return ("crash", "%s %s" % (m[0], " ".join(re.findall(r"inside `([^`]*)`", text)[:6]))[:400])
    if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGILL, -signal.SIGBUS, -signal.SIGTRAP, -signal.SIGFPE):
        tail = " ".join(text.strip().splitlines()[-2:])[:400]
        return ("crash", "process died of %s: %s" % (signal.Signals(-rc).name, tail))
    return ("error", "exit status %s: %s" % (rc, text[-600:]))


BAD = ("violated", "oracle-broke-down", "asan", "tsan", "hang", "crash")


def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, ""
    return p.returncode, p.stdout.decode("utf8", "replace")


class Replayer:
    def __init__(self, exe, pid, work, repeat=1):
        self.exe, self.pid, self.work, self.n, self.repeat = exe, pid, work, 0, repeat

    def __call__(self, text, cpu=20):
        self.n += 1
        f = os.path.join(self.work, "cand-%d-%d" % (os.getpid(), self.n % 64))
        with open(f, "w") as h:
            h.write(text)
        rc, t = sh([self.exe, self.pid, "replay", f, "--cpu", str(cpu), "--repeat", str(self.repeat)], timeout=600)
        if rc is None:
            return ("error", "wall-clock timeout")
        return outcome(rc, t)

    def digest(self, text):
        self.n += 1
        f = os.path.join(self.work, "cand-%d-%d" % (os.getpid(), self.n % 64))
        with open(f, "w") as h:
            h.write(text)
        rc, t = sh([self.exe, self.pid, "replay", f, "--cpu", "20", "--trace", "1"], timeout=600)
        if rc != 0:
            return "failed: %s" % (outcome(rc or 2, t),), ""
        d = re.findall(r"^DIGEST (.*)$", t, re.M)
        tr = re.findall(r"^TRACE (.*)$", t, re.M)
        return (d[0] if d else "?"), (tr[0] if tr else "")


def parse(text):
    h, ops = [], []
    for l in text.splitlines():
        w = l.split()
        if w[:1] == ["h"]:
            h = [int(x) for x in w[1:]]
        elif w[:1] == ["o"]:
            ops.append([int(x) for x in w[1:]])
    return h, ops


def unparse(h, ops):
    return "h " + " ".join(map(str, h)) + "\n" + "".join("o " + " ".join(map(str, o)) + "\n" for o in ops)


def shrink(text, fails, budget):
    """ddmin over operations, then reduction of every number; fails(text) -> bool"""
    t0 = time.time()
    h, ops = parse(text)

    def left():
        return time.time() - t0 < budget

    pool = cf.ThreadPoolExecutor(JOBS)

    def first(cands):
        """first failing candidate, tried in parallel batches"""
        cands = list(cands)
        for i in range(0, len(cands), JOBS):
            if not left():
                return None
            batch = cands[i:i + JOBS]
            for c, bad in zip(batch, pool.map(lambda c: fails(unparse(*c)), batch)):
                if bad:
                    return c
        return None

    def drop_ops():
        nonlocal ops
        n = 2
        while len(ops) >= 1 and left():
            size = max(1, len(ops) // n)
            cands = []
            for i in range(0, len(ops), size):
                cands.append((h, ops[:i] + ops[i + size:]))
            c = first(cands)
            if c is not None:
                ops = c[1]
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(ops), n * 2)

    drop_ops()
    changed = True
    while changed and left():
        changed = False
        for tgt in range(-1, len(ops)):
            vals = h if tgt < 0 else ops[tgt]
            for j in range(len(vals)):
                while left():
                    v = (h if tgt < 0 else ops[tgt])[j]
                    if v == 0:
                        break
                    cand_v = []
                    for c in (0, 1, v >> 32, v >> 16, v % 16, v % 64, v // 2, v - 1):
                        if c < v and c not in cand_v:
                            cand_v.append(c)
                    cands = []
                    for c in cand_v:
                        if tgt < 0:
                            nh = list(h)
                            nh[j] = c
                            cands.append((nh, ops))
                        else:
                            no = [list(o) for o in ops]
                            no[tgt][j] = c
                            cands.append((h, no))
                    c = first(cands)
                    if c is None:
                        break
                    h, ops = c
                    changed = True
        if changed:
            drop_ops()
    pool.shutdown()
    return unparse(h, ops)


def known_findings(pid):
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


# ------------------------------------------------------------------ one check

def shard_run(exe, pid, seed, shard, shards, count, cap, work, tag, extra, known):
    """returns (failure or None, list of stats files, known hits)"""
    hits = []
    start = 0
    files = []
    part = 0
    while True:
        base = os.path.join(work, "%s-%d-%d" % (tag, shard, part))
        cur = base + ".cur"
        cmd = [exe, pid, "run", "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--count", str(count - start),
               "--start", str(start), "--cap", str(cap), "--out", base + ".json", "--cur", cur] + extra(base)
        rc, text = sh(cmd)
        oc = outcome(rc, text)
        if os.path.exists(base + ".json"):
            files.append(base + ".json")
        if oc is None:
            return None, files, hits
        idx = None
        if os.path.exists(cur):
            b = open(cur, "rb").read(8)
            if len(b) == 8:
                idx = struct.unpack("<Q", b)[0]
        k = [w for (r, w) in known if r.search(oc[1])]
        if k and idx is not None:
            hits.append(k[0])
            # continue behind the known failure
            start = idx - shard + shards
            part += 1
            if start >= count or part > 200:
                return None, files, hits
            continue
        return (oc, idx, cmd), files, hits


def write_replay(pid, cfg, b, seed, idx, text, msg, desc, orig):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-seed%s-%s.case" % (pid, seed, cfg))
    with open(f, "w") as h:
        h.write("# property %s\n# config %s\n# bin %s\n# seed %s index %s\n# failure: %s\n# case: %s\n" % (
            pid, cfg, b, seed, idx, msg.replace("\n", " "), desc.replace("\n", " ")))
        h.write(text)
        h.write("# --- before shrinking\n")
        for l in orig.splitlines():
            h.write("#@ " + l + "\n")
    return f


def main_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLANS[pid]
    if plan.get("programs"):
        sys.exit(check_programs(pid, tier, seed, plan, t0))
    runs = plan[tier]
    work = os.path.join(OUT, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        rc = check(pid, tier, seed, plan, runs, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for cfg in {r[0] for r in runs}:
            shutil.rmtree(os.path.join(OUT, "bin", "%s-%d" % (cfg, os.getpid())), ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, plan, runs, work, t0):
    b = plan["bin"]
    exes = {}
    cfgs = []
    for cfg, _ in runs:
        if cfg not in cfgs:
            cfgs.append(cfg)
    with cf.ThreadPoolExecutor(4) as pool:
        for cfg, (res, err) in zip(cfgs, pool.map(lambda c: build(c, [b]), cfgs)):
            if res is None and cfg == "m32":
                log("the interpreter for the 32-bit target does not run here: m32 left out (%s)" % err)
                continue
            if res is None:
                die("building configuration %s failed:\n%s" % (cfg, err))
            exes[cfg] = res[b]
    runs = [x for x in runs if x[0] in exes]
    absent = {c for c in exes if "tsan" in c and sh([exes[c], "list"])[0] != 0}
    if absent:
        log("the thread sanitizer does not run here: %s left out" % ", ".join(sorted(absent)))
        runs = [x for x in runs if x[0] not in absent]
    tb = time.time() - t0
    cap = 420 if tier == "quick" else plan.get("cap", 3000)
    diff = plan.get("diff", False)
    known = known_findings(pid)
    jobs = []
    for ri, (cfg, count) in enumerate(runs):
        for s in range(JOBS):
            sd = seed if (diff or ri == 0) else seed + 1000003 * ri
            jobs.append((ri, cfg, sd, s, count))
    fails, files, hits = [], {}, []

    def one(j):
        ri, cfg, sd, s, count = j
        extra = (lambda base: ["--digests", base + ".dig"]) if diff else (lambda base: [])
        if fails and not diff:
            return j, (None, [], [])
        r = shard_run(exes[cfg], pid, sd, s, JOBS, count, min(cap, 150 if tier == "quick" else 240) if cfg == "m32" else cap, work, "%d-%s" % (ri, cfg), extra, known)
        if cfg == "m32" and r[0] is not None and r[0][0][0] == "error":
            log("m32 shard %d gave no answer: %s" % (s, r[0][0][1][-300:]))
        elif r[0] is not None:
            fails.append((j, r[0]))
        return j, r

    with cf.ThreadPoolExecutor(JOBS) as pool:
        for j, (_, fs, hs) in pool.map(one, jobs):
            files.setdefault(j[1], []).extend(fs)
            hits += hs
    nviol = 0
    rc = 0
    violation = None
    fails.sort(key=lambda f: (f[0][0], f[1][1] if f[1][1] is not None else 1 << 62))
    errors = []
    for (ri, cfg, sd, s, count), (oc, idx, cmd) in fails:
        if oc[0] not in BAD or idx is None:
            errors.append("%s shard %d: %s" % (cfg, s, oc))
            continue
        if violation is not None:
            nviol += 1
            continue
        g_rc, text = sh([exes[cfg], pid, "gen", "--seed", str(sd), "--index", str(idx)])
        if g_rc != 0:
            errors.append("cannot regenerate case %s" % idx)
            continue
        rep = Replayer(exes[cfg], pid, work, plan.get("repeat", 1))
        oc2 = rep(text, 60)
        if oc2 is None or oc2[0] not in BAD:
            # does it need the cases before it?
            rc3, t3 = sh(cmd)
            oc3 = outcome(rc3, t3)
            if oc3 is not None and oc3[0] in BAD:
                f = write_replay(pid, cfg, b, sd, idx, "# sequence: " + " ".join(cmd[1:]) + "\n", oc3[1], "", text)
                violation = (f, oc3[1])
                nviol += 1
            else:
                errors.append("%s case %s failed once (%s) but not when repeated" % (cfg, idx, oc))
            continue
        if oc2[0] == "hang":
            small = shrink(text, lambda t: (rep(t, 5) or ("",))[0] == "hang", 45)
            oc4 = rep(small, 60)
            if oc4 is None or oc4[0] != "hang":
                small = text
        else:
            small = shrink(text, lambda t: (rep(t) or ("",))[0] in BAD and True, 25 if tier == "quick" else 120)
        ocs = rep(small, 60) or oc2
        f0 = os.path.join(work, "final")
        open(f0, "w").write(small)
        _, desc = sh([exes[cfg], pid, "desc", f0])
        f = write_replay(pid, cfg, b, sd, idx, small, ocs[1], desc.strip(), text)
        violation = (f, ocs[1])
        nviol += 1
    ndiff = 0
    if diff and not fails:
        ndiff, violation2 = compare(pid, b, plan, runs, exes, work, seed, files, tier)
        if violation2:
            violation = violation2
            nviol += 1
    write_evidence(pid, tier, seed, plan, runs, files, time.time() - t0, tb, nviol, ndiff)
    for w in sorted(set(hits)):
        log("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violation:
        log("failure: %s" % violation[1][:600])
        log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    if errors:
        die("; ".join(errors[:4]))
    return rc


def compare(pid, b, plan, runs, exes, work, seed, files, tier):
    """diff properties: the same case must give the same digest in every configuration of its group"""
    dig = {}
    for ri, (cfg, count) in enumerate(runs):
        d = {}
        for n in os.listdir(work):
            if n.startswith("%d-%s-" % (ri, cfg)) and n.endswith(".dig"):
                for l in open(os.path.join(work, n)):
                    i, x = l.split()
                    d[int(i)] = x
        dig[cfg] = d
    ref = runs[0][0]
    n = 0
    for cfg, _ in runs[1:]:
        for i in sorted(set(dig[ref]) & set(dig[cfg])):
            if not dig[ref][i].strip("0") or not dig[cfg][i].strip("0"):
                continue  # an area only one of them offers
            n += 1
            if dig[ref][i] != dig[cfg][i]:
                _, text = sh([exes[ref], pid, "gen", "--seed", str(seed), "--index", str(i)])
                ra, rb = Replayer(exes[ref], pid, work), Replayer(exes[cfg], pid, os.path.join(work))
                rb.n = 32
                os.makedirs(os.path.join(work, "b"), exist_ok=True)
                rb.work = os.path.join(work, "b")
                import threading
                tl = threading.Lock()

                def differs(t):
                    with tl:
                        ra.n += 1
                        k = ra.n
                    fa = os.path.join(work, "d%d" % k)
                    open(fa, "w").write(t)
                    r = []
                    for c in (ref, cfg):
                        rc, tx = sh([exes[c], pid, "replay", fa, "--cpu", "20"], timeout=600)
                        m = re.findall(r"^DIGEST (.*)$", tx, re.M)
                        r.append(m[0] if rc == 0 and m else None)
                    os.remove(fa)
                    return r[0] is not None and r[1] is not None and r[0] != r[1]

                if not differs(text):
                    continue
                small = shrink(text, differs, 25)
                a, ta = ra.digest(small)
                c, tc = rb.digest(small)
                msg = "observable results differ between %s and %s: [%s] vs [%s]" % (ref, cfg, ta[-300:], tc[-300:])
                f0 = os.path.join(work, "final")
                open(f0, "w").write(small)
                _, desc = sh([exes[ref], pid, "desc", f0])
                return n, (write_replay(pid, ref + "," + cfg, b, seed, i, small, msg, desc.strip(), text), msg)
    return n, None


def cfg_text(c):
    if c.startswith("f-"):
        tc, feats, _, _ = CFGS[c]
        return "library built by %s with %s" % (tc, "features " + feats.replace("btree", "unstable").replace("hash", "hashmap").replace("stdio", "std_io") if feats else "no features")
    base = CFG_TEXT[c.split("-")[0]]
    return base + ("" if "-" not in c else "; " + CFG_TEXT[c.split("-")[1]])


def write_evidence(pid, tier, seed, plan, runs, files, wall, tb, nviol, ndiff):
    ev = nt = steps = 0
    rule = plan.get("rule", "")
    labels, samples, hashes = {}, [], set()
    unfinished = 0
    per = {}
    for cfg, fs in files.items():
        for f in fs:
            d = json.load(open(f))
            ev += d["evaluations"]
            nt += d["nontrivial"]
            steps += d["steps"]
            rule = d["rule"]
            unfinished += not d["finished"]
            per[cfg] = per.get(cfg, 0) + d["evaluations"]
            for k, (a, c) in d["labels"].items():
                x = labels.setdefault(k, [0, 0])
                x[0] += a
                x[1] += c
            if len(samples) < 6:
                samples += d["samples"][:2]
            hb = open(f + ".hashes", "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(hb) // 8), hb))
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(hashes),
        "rule": rule,
        "samples": samples[:6],
        "nontrivial_evaluations": nt,
        "operations_executed": steps,
        "classification": {k: {"cases": v[0], "occurrences": v[1]} for k, v in sorted(labels.items())},
        "evaluations_per_configuration": per,
        "configurations": {c: cfg_text(c) for c in per},
        "build_s": round(tb, 1),
    }
    if plan.get("diff"):
        cov["cross_configuration_comparisons"] = ndiff
    if unfinished:
        cov["shards_stopped_by_time_cap"] = unfinished
    e = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": plan["level"],
        "coverage": cov,
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(e, h, indent=1)
        h.write("\n")
    log("%s %s: %d cases, %d distinct non-trivial, %d operations, %.1f s (build %.1f s)%s" % (
        pid, tier, ev, len(hashes), steps, wall, tb, "" if not unfinished else ", %d shards stopped by the time cap" % unfinished))


# ------------------------------------------------------------------ generated programs

def build_lib(cfg):
    """the crate under test as a library, for programs compiled against it: (path, dependency directory)"""
    tc, feats, _, _ = CFGS[cfg]
    tdir = os.path.join(VERIF, "target-lib-" + cfg)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        env.pop(k, None)
    with open(os.path.join(tdir, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fpd = os.path.join(tdir, "debug", ".fingerprint")
        if os.path.isdir(fpd):
            for n in os.listdir(fpd):
                if n.startswith("fallible_collections-"):
                    shutil.rmtree(os.path.join(fpd, n), ignore_errors=True)
        p = subprocess.run(["cargo", "+" + tc, "build", "--offline", "--lib", "--features", feats, "--target-dir", tdir,
                            "--message-format", "json"], cwd=os.path.join(VERIF, "probe"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            die("building configuration %s failed:\n%s" % (cfg, p.stderr[-3000:]))
        lib = None
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "fallible_collections":
                    lib = [f for f in d["filenames"] if f.endswith(".rlib")][0]
        if lib is None:
            die("no library was built for " + cfg)
        # a copy of its own: another check may build while this one runs
        bdir = os.path.join(OUT, "bin", "lib-%s-%d" % (cfg, os.getpid()))
        os.makedirs(bdir, exist_ok=True)
        deps = os.path.join(tdir, "debug", "deps")
        for n in os.listdir(deps):
            if n.endswith((".rlib", ".rmeta")) and not n.startswith("libfallible_collections"):
                shutil.copy2(os.path.join(deps, n), bdir)
        dst = os.path.join(bdir, os.path.basename(lib))
        shutil.copy2(lib, dst)
    return dst, bdir


def check_programs(pid, tier, seed, plan, t0):
    import progs
    runs = plan[tier]
    work = os.path.join(OUT, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    dirs = [work]
    per, labels, samples, hard, n, nh = {}, {}, [], set(), 0, 0
    violation = None
    tb = 0
    try:
        t1 = time.time()
        with cf.ThreadPoolExecutor(JOBS) as pool:
            libs = list(pool.map(lambda r: build_lib(r[0]), runs))
        dirs += [d for _, d in libs]
        tb = time.time() - t1
        for (cfg, count), (lib, deps) in zip(runs, libs):
            comp = progs.Compiler(CFGS[cfg][0], lib, deps, cfg, work)
            try:
                st, v = progs.find(comp, pid, cfg, seed, count, JOBS, time.time() + (300 if tier == "quick" else 3000))
            except RuntimeError as e:
                die(str(e))
            per[cfg] = st["n"]
            n += st["n"]
            nh += st["nhard"]
            hard |= st["hard"]
            samples += st["samples"][:3]
            for k, x in st["labels"].items():
                labels[k] = labels.get(k, 0) + x
            if v:
                small, got = v
                d = os.path.join(OUT, "replay")
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, "%s-seed%s-%s.rs" % (pid, seed, cfg))
                want = "accepted" if progs.expect(small) else "rejected"
                if small["kind"] == "query":
                    want = "implemented" if progs.expect(small) else "not implemented"
                msg = "expected: %s, but: %s; program: %s" % (want, got, progs.describe(small))
                with open(f, "w") as h:
                    h.write("// property %s\n// config %s\n// kind %s\n// context %s\n// expected %s\n// failure: %s\n" % (
                        pid, cfg, small["kind"], small.get("ctx", "-"), want, msg.replace("\n", " ")))
                    h.write(progs.source(comp, small))
                violation = (f, msg)
                break
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hard),
            "rule": "a program is non-trivial when the verdict asked for depends on the types under test being right: it is to be "
                    "rejected, or its verdict differs from that for plain data, or it exercises variance; distinct by text",
            "samples": samples[:6], "nontrivial_evaluations": nh,
            "classification": {k: {"cases": v} for k, v in sorted(labels.items())},
            "evaluations_per_configuration": per, "configurations": {c: cfg_text(c) for c in per}, "build_s": round(tb, 1),
        },
        "assumptions": plan["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(e, h, indent=1)
        h.write("\n")
    log("%s %s: %d programs, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, tier, n, len(hard), time.time() - t0, tb))
    if violation:
        log("failure: %s" % violation[1][:900])
        log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    return 0


def replay_program(path, text):
    import progs
    m = dict(re.findall(r"^// (property|config|kind|expected|context) (.*)$", text, re.M))
    cfg = m["config"]
    lib, deps = build_lib(cfg)
    work = os.path.join(OUT, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        comp = progs.Compiler(CFGS[cfg][0], lib, deps, cfg, work)
        if m["kind"] == "ctx":
            import ctxprogs
            ctx = m["context"]
            body = "".join(l + "\n" for l in text.splitlines() if not l.startswith("// "))
            what = ["--crate-type", "bin" if "fn main()" in body or ctx == "no_std program" else "lib"] + (["-C", "panic=abort"] if ctx == "no_std program" else [])
            exe = os.path.join(work, "replay.exe")
            runs = "fn main()" in body
            rc, _, _ = comp.rustc_ctx(body, what + (["-o", exe] if runs else ["--emit", "metadata", "-o", os.path.join(work, "r.rmeta")]),
                                      "replay", ctxprogs.CONTEXTS[ctx][1])
            bad = rc != 0 or runs and subprocess.run([exe], stderr=subprocess.DEVNULL).returncode != 0
        elif m["kind"] == "query":
            exe = os.path.join(work, "replay.exe")
            rc, _ = comp.rustc(text, ["-o", exe], "replay")
            bad = rc != 0 or subprocess.run([exe], stderr=subprocess.DEVNULL).returncode != 0
        else:
            rc, _ = comp.rustc(text, ["--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(work, "r.rmeta")], "replay")
            bad = (rc == 0) != (m["expected"] == "accepted")
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(deps, ignore_errors=True)
    if bad:
        log("VIOLATION property=%s replay=%s" % (m["property"], path))
        sys.exit(1)
    log("replay passes")


def main_replay(path):
    meta = {}
    text = open(path).read()
    if path.endswith(".rs"):
        return replay_program(path, text)
    for l in text.splitlines():
        m = re.match(r"# (property|config|bin|sequence:) (.*)", l)
        if m:
            meta[m.group(1)] = m.group(2)
    cfgs = meta["config"].split(",")
    exes = {}
    for c in cfgs:
        r, err = build(c, [meta["bin"]])
        if r is None:
            die(err)
        exes[c] = r[meta["bin"]]
    work = os.path.join(OUT, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    body = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n"
    bad = None
    if "sequence:" in meta:
        rc, t = sh([exes[cfgs[0]]] + meta["sequence:"].split())
        bad = outcome(rc, t)
    elif len(cfgs) > 1:
        ds = [Replayer(exes[c], meta["property"], work).digest(body) for c in cfgs]
        if ds[0] != ds[1]:
            bad = ("differs", str(ds))
    else:
        bad = Replayer(exes[cfgs[0]], meta["property"], work)(body, 60)
    shutil.rmtree(work, ignore_errors=True)
    if bad:
        log("failure:", bad)
        log("VIOLATION property=%s replay=%s" % (meta["property"], path))
        sys.exit(1)
    log("replay passes")


def main():
    sys.path.insert(0, VERIF)
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "setup":
        for c in ("std", "hb", "nb"):
            bins = sorted({p["bin"] for p in PLANS.values() if p["bin"] and any(r[0] == c for r in p["quick"])})
            if not bins:
                continue
            for bs in ([x for x in bins if x != "p_thread"], [x for x in bins if x == "p_thread"]):
                r, err = build(c, bs) if bs else ({}, "")
                if r is None:
                    die(err)
            shutil.rmtree(os.path.join(OUT, "bin", "%s-%d" % (c, os.getpid())), ignore_errors=True)
        log("setup ok")
        return
    if a[0] == "replay":
        return main_replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if a[0] not in PLANS:
        die("no check for " + a[0])
    main_check(a[0], tier)


if __name__ == "__main__":
    main()

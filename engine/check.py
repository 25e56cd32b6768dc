#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py <property> [quick|thorough]   run the check (tier also from VERIF_TIER, seed from VERIF_SEED)
  check.py --build-all                   compile everything (setup)
  check.py --replay <file>               re-execute a replay file written for a violation

Outcomes: exit 0, or exit 1 with a line "VIOLATION property=<id> replay=<path>". Anything else is an error of the check.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import importlib.util
import json
import mmap
import os
import random
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDE = f"{REPO}/include"
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
ENGINE = f"{VERIF}/engine"
CHECKS = f"{VERIF}/checks"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=c++23", f"-I{INCLUDE}", f"-I{ENGINE}", "-DFMT_HEADER_ONLY", "-w"]
VARIANTS = {
    # name: (compiler, flags)
    "asan": ("g++-14", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "clang": ("clang++-18", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "plain": ("g++-14", ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"]),
    # concurrency: no sanitizers, engine/sched.cpp takes the place of one
    "sched": ("g++-14", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]),
    "schedclang": ("clang++-18", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]),
    "o2ndebug": ("g++-14", ["-O2", "-g1", "-DNDEBUG"]),
    "fuzz": ("clang++-18", ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DPBT_LIBFUZZER"]),
}


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


_fh = {}


def file_hash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f:
                _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[path] = "missing"
    return _fh[path]


def include_names():
    out = []
    for at, dirs, files in os.walk(INCLUDE):
        dirs.sort()
        out += sorted(os.path.join(at, f) for f in files)
    return out


class CompileError(Exception):
    def __init__(self, src, cmd, output, code):
        super().__init__(src)
        self.src, self.cmd, self.output, self.code = src, cmd, output, code


def run_limited(cmd, timeout, **kw):
    """subprocess.run in its own process group; the group is killed on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out, True


def parse_deps(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    names = text.split(":", 1)[1].split()
    return [n for n in names if n.startswith(REPO + "/") or n.startswith(VERIF + "/")]


def compile_obj(src, compiler, flags, timeout=600):
    """compiles src to an object file; reuses the object if nothing it was made from has changed"""
    names = sha(*include_names())
    key = sha(compiler, *flags, src)[:24]
    d = f"{BUILD}/obj/{key}"
    obj, meta = f"{d}/o.o", f"{d}/meta.json"
    try:
        m = json.load(open(meta))
        if m["names"] == names and all(file_hash(p) == h for p, h in m["deps"].items()) and os.path.exists(obj):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="t", dir=d)
    try:
        cmd = [compiler, *flags, "-MD", "-MF", f"{tmp}/d", "-c", src, "-o", f"{tmp}/o.o"]
        for attempt in (0, 1, 2):
            rc, out, timed = run_limited(cmd, timeout)
            text = out.decode("utf-8", "replace")
            if rc == 0:
                break
            killed = timed or rc < 0 or "Killed" in text or "out of memory" in text or "internal compiler error" in text
            if not killed and attempt >= 1:
                raise CompileError(src, cmd, text, rc)
        if rc != 0:
            raise SystemExit(f"compiler did not finish on {src}: {text[-2000:]}")
        deps = {p: file_hash(p) for p in parse_deps(f"{tmp}/d")}
        os.replace(f"{tmp}/o.o", obj)
        with open(f"{tmp}/m", "w") as f:
            json.dump({"names": names, "deps": deps}, f)
        os.replace(f"{tmp}/m", meta)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return obj


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.dir = f"{CHECKS}/{pid}"
        self.conf = {}
        if os.path.exists(f"{self.dir}/check.json"):
            self.conf = json.load(open(f"{self.dir}/check.json"))
        self.gen = None
        if os.path.exists(f"{self.dir}/gen.py"):
            sys.path.insert(0, ENGINE)
            spec = importlib.util.spec_from_file_location(f"gen_{pid}", f"{self.dir}/gen.py")
            self.gen = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(self.gen)

    def harnesses(self):
        """[(name, [sources], extra flags, ldflags, variants quick, variants thorough)]"""
        out = []
        for h in self.conf.get("harnesses", [{}]):
            srcs = h.get("sources")
            if srcs is None:
                srcs = sorted(f for f in os.listdir(self.dir) if f.endswith(".cpp"))
            if not srcs:
                continue
            out.append(
                {
                    "name": h.get("name", "main"),
                    "sources": [f"{self.dir}/{s}" if "/" not in s else f"{VERIF}/{s}" for s in srcs],
                    "flags": [f.replace("{VERIF}", VERIF) for f in h.get("flags", [])],
                    "link": h.get("link", []),
                    "quick": h.get("quick", ["asan"]),
                    "thorough": h.get("thorough", h.get("quick", ["asan"])),
                    "fuzz": h.get("fuzz", True),
                    "shards": h.get("shards", JOBS),
                    "compile_only_flags": h.get("compile_only_flags", []),
                    # compiled without compile_only_flags
                    "support": [f"{VERIF}/{x}" for x in h.get("support", [])],
                }
            )
        return out

    def jobs(self, variants_of):
        for h in self.harnesses():
            for v in variants_of(h):
                compiler, vf = VARIANTS[v]
                flags = [*COMMON, *vf, *h["flags"]]
                for s in h["sources"]:
                    yield (s, compiler, [*flags, *h["compile_only_flags"]])
                for s in h["support"]:
                    yield (s, compiler, flags)
                yield (f"{ENGINE}/pbt_main.cpp", compiler, flags)

    def build(self, h, variant, pool):
        compiler, vf = VARIANTS[variant]
        flags = [*COMMON, *vf, *h["flags"]]
        futs = [pool.submit(compile_obj, s, compiler, [*flags, *h["compile_only_flags"]]) for s in h["sources"]]
        for s in [*h["support"], f"{ENGINE}/pbt_main.cpp"]:
            futs.append(pool.submit(compile_obj, s, compiler, flags))
        objs, err = [], None
        for f in futs:
            try:
                objs.append(f.result())
            except CompileError as e:
                err = err or e
        if err:
            raise err
        key = sha(compiler, *flags, *h["link"], *[f"{o}:{sha(open(o,'rb').read())}" for o in objs])[:24]
        exe = f"{BUILD}/exe/{key}"
        if not os.path.exists(exe):
            os.makedirs(f"{BUILD}/exe", exist_ok=True)
            tmp = f"{exe}.{os.getpid()}"
            cmd = [compiler, *[f for f in flags if f.startswith(("-fsanitize", "-O", "-g"))], *objs, "-o", tmp, *h["link"], "-pthread"]
            rc, out, _ = run_limited(cmd, 300)
            if rc != 0:
                raise CompileError("link", cmd, out.decode("utf-8", "replace"), rc)
            os.replace(tmp, exe)
        return exe


PROBE = "#include <vector>\n#include <string>\n#include <format>\n#include <variant>\nint main(){std::vector<std::string> v{std::format(\"{}\",1)};return (int)v.size()-1;}\n"


def compiler_works(compiler):
    d = tempfile.mkdtemp(prefix="probe", dir=scratch())
    open(f"{d}/p.cpp", "w").write(PROBE)
    rc, out, _ = run_limited([compiler, "-std=c++23", f"{d}/p.cpp", "-o", f"{d}/p"], 300)
    return rc == 0


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(f"{BUILD}/run", exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r", dir=f"{BUILD}/run")
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


class Violation(Exception):
    def __init__(self, path, text):
        super().__init__(text)
        self.path, self.text = path, text


def save_replay(pid, data):
    d = f"{VERIF}/replays"
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, sort_keys=True)
    path = f"{d}/{pid}-{sha(text)[:12]}.json"
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def known_findings():
    """lines 'known: property=<id> key=<key> <text>' suppress exactly one finding; 'fixed:' lines suppress nothing"""
    out = {}
    try:
        for line in open(f"{VERIF}/known_findings.txt"):
            if line.startswith("known:"):
                w = dict(x.split("=", 1) for x in line.split()[1:3])
                out[(w["property"], w["key"])] = line.strip()
    except OSError:
        pass
    return out


PROGRESS = struct.Struct("<QQQ")


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(24 + 2048)
        prop, index, done = PROGRESS.unpack(b[:24])
        return prop, index, done, b[24:].split(b"\0")[0].decode("utf-8", "replace")
    except (OSError, struct.error):
        return 0, 0, 0, ""


class Runner:
    def __init__(self, check, tier, seed):
        self.c, self.tier, self.seed = check, tier, seed
        self.pid = check.pid
        self.stats = {}
        self.hashes = set()
        self.samples = []
        self.notes = []
        self.evaluations = 0
        self.t0 = time.time()
        self.hang = check.conf.get("hang", 45)
        self.extra = {}

    # --- property executables -------------------------------------------------------------------

    def one(self, exe, args, timeout):
        rc, out, timed = run_limited([exe, "one", *args], timeout, env=self.env(), cwd=scratch())
        return rc, out.decode("utf-8", "replace"), timed

    def env(self):
        e = dict(os.environ)
        e["TMPDIR"] = scratch()
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS"):
            e.pop(k, None)
        return e

    def failing(self, rc, timed):
        """killed by SIGKILL without our timeout (memory pressure) is no verdict"""
        return timed or (rc != 0 and rc != -9 and rc not in (3, 4))

    def run_exe(self, exe, label, h):
        props = subprocess.run([exe, "list"], capture_output=True, text=True, env=self.env()).stdout.split("\n")
        props = [p.split()[0] for p in props if p]
        if not props:
            raise SystemExit(f"{label}: no properties in executable")
        n = h["shards"]
        d = tempfile.mkdtemp(prefix="w", dir=scratch())
        pending = list(range(n))
        attempts = {i: 0 for i in range(n)}
        running = {}
        done = set()
        maxp = min(JOBS, n)
        while pending or running:
            while pending and len(running) < maxp:
                i = pending.pop(0)
                attempts[i] += 1
                base = f"{d}/{i}.{attempts[i]}"
                out = open(f"{base}.out", "wb")
                args = [
                    exe, "run", f"--shard={i}", f"--of={n}", f"--seed={self.seed}", f"--tier={self.tier}",
                    f"--progress={base}.p", f"--stats={base}.s", f"--hashes={base}.h",
                ]
                scale = float(self.c.conf.get(f"scale_{self.tier}", self.c.conf.get("scale", 1))) * float(os.environ.get("VERIF_SCALE", "1"))
                args.append(f"--scale={scale}")
                p = subprocess.Popen(args, stdout=out, stderr=subprocess.STDOUT, start_new_session=True, env=self.env(), cwd=d)
                running[i] = [p, base, -1, time.time()]
            time.sleep(0.05)
            for i, st in list(running.items()):
                p, base, last, since = st
                rc = p.poll()
                prop, index, cnt, msg = read_progress(f"{base}.p")
                hung = False
                if rc is None:
                    if cnt != last:
                        st[2], st[3] = cnt, time.time()
                        continue
                    if time.time() - since < self.hang:
                        continue
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                del running[i]
                if not hung and rc == 0:
                    self.merge(base, label, exe)
                    done.add(i)
                    continue
                if rc == 3:
                    raise SystemExit(f"{label}: worker error: {open(base + '.out').read()[-2000:]}")
                tail = open(f"{base}.out", "rb").read()[-6000:].decode("utf-8", "replace")
                log(f"  shard {i} of {label} stopped (rc={rc} hung={hung}) in {props[prop]}[{index}] {msg}")
                if not hung and rc == -9:
                    verdict = False
                else:
                    verdict = self.confirm(exe, label, props[prop], index, i, n, hung, msg, tail, running)
                if not verdict:
                    self.notes.append(f"shard {i} of {label} stopped once in {props[prop]}[{index}] (rc={rc} hung={hung}), not reproducible")
                    if attempts[i] > 2:
                        raise SystemExit(f"{label}: shard {i} keeps dying without a reproducible failure: {tail}")
                    pending.append(i)

    def confirm(self, exe, label, prop, index, shard, of, hung, msg, tail, running):
        for st in running.values():
            try:
                os.killpg(st[0].pid, signal.SIGSTOP)
            except ProcessLookupError:
                pass
        try:
            args = [f"--prop={prop}", f"--index={index}", f"--seed={self.seed}"]
            limit = self.hang + 15
            bad = 0
            out = ""
            for _ in range(3):
                rc, o, timed = self.one(exe, args, limit)
                if self.failing(rc, timed):
                    bad += 1
                    out = o
                elif bad == 0:
                    break
            if bad == 3:
                self.shrink_and_raise(exe, label, prop, index, hung, msg, out, running)
            # the failure may need the cases before it
            if not hung:
                d = tempfile.mkdtemp(prefix="c", dir=scratch())
                bad = 0
                for k in range(3):
                    cmd = [exe, "run", f"--shard={shard}", f"--of={of}", f"--seed={self.seed}", f"--tier=thorough", "--scale=1000000", f"--only={prop}",
                           f"--upto={index}", f"--progress={d}/{k}.p", f"--stats={d}/{k}.s", f"--hashes={d}/{k}.h"]
                    rc, o, timed = run_limited(cmd, 240, env=self.env(), cwd=d)
                    if self.failing(rc, False):
                        bad += 1
                        out = o.decode("utf-8", "replace")
                    elif bad == 0 and k:
                        break
                if bad >= 2:
                    path = save_replay(self.pid, {
                        "property": self.pid, "kind": "shard", "variant": label, "sub": prop, "seed": self.seed, "shard": shard, "of": of,
                        "tier": self.tier, "upto": index, "message": msg, "output": out[-6000:],
                    })
                    self.kill(running)
                    raise Violation(path, f"{prop}: {msg or out[-300:]}")
            return False
        finally:
            for st in running.values():
                try:
                    os.killpg(st[0].pid, signal.SIGCONT)
                except ProcessLookupError:
                    pass

    def kill(self, running):
        for st in running.values():
            try:
                os.killpg(st[0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            st[0].wait()

    def shrink_and_raise(self, exe, label, prop, index, hung, msg, out, running):
        self.kill(running)
        d = tempfile.mkdtemp(prefix="k", dir=scratch())
        run_limited([exe, "tape", f"--prop={prop}", f"--index={index}", f"--seed={self.seed}", f"--out={d}/t", f"--hang={min(self.hang, 20)}"], self.hang + 30, env=self.env(), cwd=d)
        self.shrink_tape_and_raise(exe, label, prop, f"{d}/t", d, hung, msg, out, {"seed": self.seed, "index": index})

    def shrink_tape_and_raise(self, exe, label, prop, tape, d, hung, msg, out, more):
        final, trace, frc = None, out, None
        if os.path.exists(tape):
            run_limited([exe, "shrink", f"--prop={prop}", f"--tape={tape}", f"--out={d}/s", "--hang=15"], 150, env=self.env(), cwd=d)
            for cand in (f"{d}/s", tape):
                if not os.path.exists(cand):
                    continue
                ok = True
                for _ in range(3):
                    rc, o, timed = self.one(exe, [f"--prop={prop}", f"--tape={cand}", "--trace"], 30)
                    if not self.failing(rc, timed):
                        ok = False
                        break
                if ok:
                    final, trace, frc = cand, o, "timeout" if timed else rc
                    break
        data = {
            "property": self.pid, "kind": "tape" if final else "index", "variant": label, "sub": prop, "message": msg,
            "output": trace[-8000:], "exit": frc, **more,
        }
        if final:
            data["tape"] = [int(x) for x in open(final).read().split()]
        path = save_replay(self.pid, data)
        raise Violation(path, f"{prop}: {msg or trace.strip()[-400:]}")

    def merge(self, base, label, exe):
        s = json.load(open(f"{base}.s"))
        for p, x in s.items():
            k = f"{label}/{p}"
            t = self.stats.setdefault(k, {"evaluations": 0, "nontrivial": 0, "labels": {}, "draws": 0, "cpu_s": 0})
            t["evaluations"] += x["evaluations"]
            t["nontrivial"] += x["nontrivial"]
            t["draws"] += x["draws"]
            t["cpu_s"] = round(t["cpu_s"] + x["s"], 2)
            for l, n in x["labels"].items():
                t["labels"][l] = t["labels"].get(l, 0) + n
            self.evaluations += x["evaluations"]
            t.setdefault("_samples", []).extend(x["samples"])
            t["_exe"] = exe
        b = open(f"{base}.h", "rb").read()
        salt = 0 if label.endswith("/asan") else hash_int(label)
        self.hashes.update(v ^ salt for (v,) in struct.iter_unpack("<Q", b))

    def take_samples(self):
        for k, t in sorted(self.stats.items()):
            exe, prop = t.pop("_exe", None), k.split("/")[-1]
            ixs = sorted(t.pop("_samples", []))[:1]
            for ix in ixs:
                if len(self.samples) >= 12:
                    continue
                rc, o, timed = self.one(exe, [f"--prop={prop}", f"--index={ix}", f"--seed={self.seed}", "--trace"], 60)
                self.samples.append({"check": k, "index": ix, "case": o.strip().split("\n")[:40]})

    # --- coverage guided fuzzing (thorough) ----------------------------------------------------

    def fuzz(self, h, pool):
        runs = self.c.conf.get("fuzz_runs", 150000)
        try:
            exe = self.c.build(h, "fuzz", pool)
        except CompileError as e:
            self.notes.append(f"fuzz build failed, campaign skipped: {e.output[-300:]}")
            return
        asan = self.c.build(h, h["quick"][0], pool)
        props = [p.split()[0] for p in subprocess.run([asan, "list"], capture_output=True, text=True, env=self.env()).stdout.split("\n") if p]
        d = tempfile.mkdtemp(prefix="f", dir=scratch())
        procs = []
        for j in range(JOBS):
            os.makedirs(f"{d}/{j}/corpus")
            os.makedirs(f"{d}/{j}/art")
            with open(f"{d}/{j}/corpus/seed", "wb") as f:
                r = random.Random(f"{self.seed}/{j}")
                f.write(bytes(r.randrange(248) for _ in range(200)))
            out = open(f"{d}/{j}/log", "wb")
            cmd = [exe, f"-runs={runs // JOBS}", f"-seed={self.seed * 1000 + j + 1}", "-max_len=1500", "-len_control=20", "-rss_limit_mb=3000",
                   "-timeout=60", "-print_final_stats=1", "-detect_leaks=0", "-max_total_time=1500", f"-artifact_prefix={d}/{j}/art/", f"{d}/{j}/corpus"]
            procs.append((j, subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, start_new_session=True, env=self.env(), cwd=d)))
        total, cov = 0, 0
        for j, p in procs:
            try:
                p.wait(timeout=2400)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.notes.append(f"fuzz worker {j} ran out of time: inconclusive")
            text = open(f"{d}/{j}/log", "rb").read().decode("utf-8", "replace")
            for line in text.split("\n"):
                if line.startswith("stat::number_of_executed_units:"):
                    total += int(line.split(":")[-1])
                if " cov: " in line:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
            arts = [a for a in os.listdir(f"{d}/{j}/art") if a.startswith(("crash", "timeout"))]
            if p.returncode not in (0, -9) and arts:
                data = open(f"{d}/{j}/art/{arts[0]}", "rb").read()
                prop, tape = decode_fuzz(data, props)
                open(f"{d}/{j}/tape", "w").write("\n".join(map(str, tape)) + "\n")
                bad = 0
                for _ in range(3):
                    rc, o, timed = self.one(asan, [f"--prop={prop}", f"--tape={d}/{j}/tape"], self.hang)
                    bad += self.failing(rc, timed)
                if bad == 3:
                    for _, q in procs:
                        if q.poll() is None:
                            os.killpg(q.pid, signal.SIGKILL)
                    self.shrink_tape_and_raise(asan, f"{h['name']}/{h['quick'][0]}", prop, f"{d}/{j}/tape", f"{d}/{j}", timed, "", o, {"found_by": "libFuzzer", "seed": self.seed})
                # only with the clang build: replay there
                env = self.env()
                bad = 0
                for _ in range(3):
                    rc, o, timed = run_limited([exe, "-timeout=60", f"{d}/{j}/art/{arts[0]}"], 90, env=env, cwd=d)
                    bad += rc not in (0, -9)
                if bad == 3:
                    for _, q in procs:
                        if q.poll() is None:
                            os.killpg(q.pid, signal.SIGKILL)
                    path = save_replay(self.pid, {"property": self.pid, "kind": "fuzz", "variant": "fuzz", "harness": h["name"], "sub": prop, "bytes": data.hex(), "output": o.decode("utf-8", "replace")[-6000:]})
                    raise Violation(path, f"{prop}: libFuzzer {o.decode('utf-8', 'replace')[-300:]}")
                self.notes.append(f"fuzz worker {j}: {arts[0]} not reproducible")
        self.extra.setdefault("libfuzzer", {})[h["name"]] = {"executions": total, "max_edges_covered": cov, "workers": JOBS}
        self.evaluations += total

    # --- generated programs --------------------------------------------------------------------

    def run_gen(self, pool):
        import gencpp

        gencpp.run(self, self.c.gen, pool, compile_prog)

    # --- evidence -------------------------------------------------------------------------------

    def evidence(self, violations):
        d = f"{VERIF}/evidence"
        os.makedirs(d, exist_ok=True)
        rule = self.c.conf.get("rule", "")
        data = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.hashes),
                "rule": rule,
                "samples": self.samples,
                "sub_properties": self.stats,
                **self.extra,
            },
            "assumptions": self.c.conf.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
        }
        if self.notes:
            data["coverage"]["notes"] = self.notes
        tmp = f"{d}/.{self.pid}.{os.getpid()}"
        with open(tmp, "w") as f:
            json.dump(data, f, indent=1, sort_keys=True, default=str)
        os.replace(tmp, f"{d}/{self.pid}.json")


def hash_int(s):
    return int(sha(s)[:16], 16)


def decode_fuzz(data, props):
    prop = props[data[0] % len(props)]
    tape, i = [], 1
    while i < len(data):
        b = data[i]
        i += 1
        if b < 248:
            tape.append(b)
        else:
            v, k = 0, 0
            while k <= b - 248 and i < len(data):
                v |= data[i] << (8 * k)
                i += 1
                k += 1
            tape.append(v)
    return prop, tape


def compile_prog(src, exe, compiler, flags, timeout=600):
    """compiles a generated program; returns (ok, output)"""
    cmd = [compiler, *COMMON, *flags, src, "-o", exe, "-pthread"]
    for attempt in range(3):
        rc, out, timed = run_limited(cmd, timeout)
        text = out.decode("utf-8", "replace")
        if rc == 0:
            return True, text
        if timed or rc < 0 or "Killed" in text or "out of memory" in text or "internal compiler error" in text:
            continue
        return False, text
    raise SystemExit(f"compiler did not finish on {src}: {text[-1500:]}")


def run_check(pid, tier, seed):
    c = Check(pid)
    r = Runner(c, tier, seed)
    try:
        with cf.ThreadPoolExecutor(JOBS) as pool:
            try:
                todo = []
                for h in c.harnesses():
                    for v in h["thorough"] if tier == "thorough" else h["quick"]:
                        todo.append((h, v, c.build(h, v, pool)))
                tb = time.time()
                for h, v, exe in todo:
                    r.run_exe(exe, f"{h['name']}/{v}", h)
                if c.gen:
                    r.run_gen(pool)
                if tier == "thorough" and c.conf.get("fuzz", True):
                    for h in c.harnesses():
                        if h["fuzz"]:
                            r.fuzz(h, pool)
            except CompileError as e:
                comp = e.cmd[0]
                if not compiler_works(comp):
                    raise SystemExit(f"the compiler does not work: {e.output[-2000:]}")
                path = save_replay(pid, {"property": pid, "kind": "compile", "cmd": e.cmd, "output": e.output[:12000]})
                first = next((l for l in e.output.split("\n") if "error" in l), e.output[:200])
                raise Violation(path, f"a use of the public interface the property relies on does not compile any more: {first}")
        r.take_samples()
        r.evidence(0)
        log(f"{pid} {tier} seed={seed}: held on {r.evaluations} cases ({len(r.hashes)} distinct non-trivial) in {time.time() - r.t0:.1f} s (build {tb - r.t0:.1f} s)")
        return 0
    except Violation as e:
        r.take_samples()
        r.evidence(1)
        log(f"{pid}: {e.text}")
        log(f"VIOLATION property={pid} replay={e.path}")
        return 1


def build_all():
    t0 = time.time()
    jobs = {}
    for pid in sorted(os.listdir(CHECKS)):
        if not os.path.isdir(f"{CHECKS}/{pid}"):
            continue
        for j in Check(pid).jobs(lambda h: h["quick"]):
            jobs[(j[0], j[1], tuple(j[2]))] = j
    bad = 0
    with cf.ThreadPoolExecutor(JOBS) as pool:
        futs = {pool.submit(compile_obj, *j): j for j in jobs.values()}
        for f in cf.as_completed(futs):
            try:
                f.result()
            except CompileError as e:
                # the check itself reports it
                bad += 1
                log(f"does not compile: {e.src}\n{e.output[:3000]}")
        for pid in sorted(os.listdir(CHECKS)):
            if not os.path.isdir(f"{CHECKS}/{pid}"):
                continue
            c = Check(pid)
            for h in c.harnesses():
                for v in h["quick"]:
                    try:
                        c.build(h, v, pool)
                    except CompileError as e:
                        log(f"does not build: {pid} {e.src}")
    log(f"built {len(jobs)} objects ({bad} failed) in {time.time() - t0:.1f} s")
    return 0


def replay(path):
    data = json.load(open(path))
    c = Check(data["property"])
    print(json.dumps({k: v for k, v in data.items() if k not in ("output", "program")}, indent=1))
    if data["kind"] == "program":
        import gencpp

        return gencpp.replay(data, compile_prog, scratch())
    with cf.ThreadPoolExecutor(JOBS) as pool:
        if data["kind"] == "compile":
            try:
                for h in c.harnesses():
                    for v in h["quick"]:
                        c.build(h, v, pool)
            except CompileError as e:
                print(e.output[:8000])
                return 1
            return 0
        hn, _, v = data["variant"].partition("/")
        h = next(x for x in c.harnesses() if data["kind"] == "fuzz" or x["name"] == hn)
        exe = c.build(h, v or "fuzz", pool)
    r = Runner(c, "quick", data.get("seed", 1))
    d = scratch()
    if data["kind"] == "fuzz":
        open(f"{d}/in", "wb").write(bytes.fromhex(data["bytes"]))
        cmd = [exe, f"{d}/in"]
    elif data["kind"] == "tape":
        open(f"{d}/t", "w").write("\n".join(map(str, data["tape"])) + "\n")
        cmd = [exe, "one", f"--prop={data['sub']}", f"--tape={d}/t", "--trace"]
    elif data["kind"] == "index":
        cmd = [exe, "one", f"--prop={data['sub']}", f"--index={data['index']}", f"--seed={data['seed']}", "--trace"]
    else:
        cmd = [exe, "run", f"--shard={data['shard']}", f"--of={data['of']}", f"--seed={data['seed']}", "--tier=thorough", "--scale=1000000", f"--only={data['sub']}",
               f"--upto={data['upto']}", f"--progress={d}/p", f"--stats={d}/s", f"--hashes={d}/h"]
    rc, out, timed = run_limited(cmd, 120, env=r.env(), cwd=d)
    print(out.decode("utf-8", "replace"))
    print("reproduced" if r.failing(rc, timed) else "not reproduced")
    return 1 if r.failing(rc, timed) else 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--build-all":
            return build_all()
        if a and a[0] == "--replay":
            return replay(a[1])
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return run_check(pid, tier, seed)
    finally:
        cleanup()


if __name__ == "__main__":
    sys.exit(main())

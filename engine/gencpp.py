"""Generated programs: every case ("item") is a piece of C++ that uses the library and checks the result against what the
generator (Python) computed or against a plain C++ rendering of the definition.

A module (checks/<id>/gen.py) provides
  KINDS     {name: (function(T) -> item, weight)}; item = {"body": statements, "decl": namespace scope code, "nontrivial": bool, "desc": str}
  INCLUDES  text placed before everything else (after one of PREAMBLES, if there are any: different ways to configure the library)
  COUNT     {"quick": n, "thorough": n}; optional BATCH, FLAGS, COMPILERS {"quick": [...], "thorough": [...]}
  KNOWN     optional [{"key", "body", "decl"?}]: the specific inputs of recorded findings; each is executed on its own, and a failure is
            reported as KNOWN-FINDING only if known_findings.txt lists that key for the property (else it is a violation)
An item is a pure function of its tape (class T), so shrinking the tape shrinks the program.
"""
import concurrent.futures as cf
import os
import random
import re
import subprocess
import tempfile
import time

BATCH = 40
FLAGS = ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]


class T:
    """source of random decisions; 0 is the simplest choice"""

    def __init__(self, rng=None, tape=None):
        self.rng, self.tape, self.pos, self.rec = rng, tape, 0, []

    def below(self, n):
        if n <= 1:
            v = 0
            n = 1
        if self.tape is not None:
            v = self.tape[self.pos] if self.pos < len(self.tape) else 0
            self.pos += 1
            v %= n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den):
        return self.below(den) >= den - num

    def flip(self):
        return self.below(2) == 1

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def size(self, hi, lo=0):
        k = self.below(3)
        top = [min(hi, lo + 2), min(hi, lo + 4), hi][k]
        return self.range(lo, max(lo, top))

    def many(self, f, hi, lo=0):
        return [f() for _ in range(self.size(hi, lo))]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.below(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


def make(mod, kind, tape):
    t = T(tape=tape)
    it = mod.KINDS[kind][0](t)
    it["kind"], it["tape"] = kind, t.rec
    return it


def program(mod, items):
    out = ['#include "gen_rt.hpp"', items[0].get("pre", ""), mod.INCLUDES]
    for k, it in enumerate(items):
        out.append(f"// item {k}: {it['kind']} {it.get('desc', '')}".replace("\n", " "))
        out.append(f"namespace i{k} {{\n{it.get('decl', '')}\nstatic void f() {{\n{it['body']}\n}}\n}}")
    out.append("int main() {")
    out += [f"::rt::run<&i{k}::f>({k});" for k in range(len(items))]
    out.append("return ::rt::done();\n}")
    return "\n".join(out) + "\n"


def flags_of(mod):
    return getattr(mod, "FLAGS", FLAGS)


def execute(exe, cwd, env, timeout=60):
    from __main__ import run_limited

    rc, out, timed = run_limited([exe], timeout, env=env, cwd=cwd)
    return rc, out.decode("utf-8", "replace"), timed


def build_and_run(mod, items, compiler, compile_prog, d, env, runs=1):
    """returns (status, item index or None, text): status ok / compile / run / dead (killed from outside)"""
    src = tempfile.mkdtemp(prefix="g", dir=d)
    with open(f"{src}/p.cpp", "w") as f:
        f.write(program(mod, items))
    ok, text = compile_prog(f"{src}/p.cpp", f"{src}/p", compiler, flags_of(mod))
    if not ok:
        return "compile", None, text, 0
    checks = 0
    for _ in range(runs):
        rc, out, timed = execute(f"{src}/p", src, env)
        m = re.search(r"^DONE -1 (\d+)$", out, re.M)
        if rc == 0 and m:
            checks += int(m.group(1))
            if runs > 1:
                break
            continue
        if rc == -9 and not timed:
            return "dead", None, out, 0
        fails = re.findall(r"^FAIL(?: unexpected exception)? (\d+)", out, re.M)
        at = re.findall(r"^AT (\d+)", out, re.M)
        ix = int(fails[0]) if fails else int(at[-1]) if at else None
        bad = (ix, out + ("\ntimeout" if timed else f"\nexit code {rc}"))
    else:
        if runs > 1 or not (rc == 0 and m):
            for f in (f"{src}/p",):
                os.unlink(f)
            return "run", bad[0], bad[1], 0
    os.unlink(f"{src}/p")
    return "ok", None, "", checks


def single(mod, item, compiler, compile_prog, d, env):
    st, _, text, _ = build_and_run(mod, [item], compiler, compile_prog, d, env, runs=3)
    return st if st in ("compile", "run") else None, text


def shrink(mod, item, status, compiler, compile_prog, d, env, pool, limit=30):
    t0 = time.time()
    best, text = item, None
    seen = set()
    while time.time() - t0 < limit:
        tape = best["tape"]
        cands = []
        for n in (len(tape) // 2, len(tape) // 4, 4, 2, 1):
            if n > 0:
                cands += [tape[:i] + tape[i + n :] for i in range(0, len(tape), n)]
        for i, v in enumerate(tape):
            if v:
                cands += [tape[:i] + [x] + tape[i + 1 :] for x in sorted({0, v // 2, v - 1})]
        uniq = []
        for c in cands:
            try:
                it = make(mod, item["kind"], c)
                it["pre"] = item.get("pre", "")
            except (RecursionError, IndexError, KeyError, ValueError):
                continue
            key = it.get("decl", "") + it["body"]
            if key in seen or (len(it["tape"]), sum(it["tape"])) >= (len(tape), sum(tape)):
                continue
            seen.add(key)
            uniq.append(it)
        found = None
        for k in range(0, len(uniq), 8):
            if time.time() - t0 > limit:
                break
            res = list(pool.map(lambda it: single(mod, it, compiler, compile_prog, d, env), uniq[k : k + 8]))
            for it, (st, tx) in zip(uniq[k : k + 8], res):
                if st == status:
                    found = (it, tx)
                    break
            if found:
                break
        if not found:
            break
        best, text = found
    return best, text


def known(runner, mod, results):
    from __main__ import Violation, known_findings, log, save_replay

    listed = known_findings()
    for k in getattr(mod, "KNOWN", []):
        it, fut = results[k["key"]]
        s, text = fut.result()
        runner.evaluations += 1
        if not s:
            continue
        line = listed.get((runner.pid, k["key"]))
        if line:
            log("KNOWN-FINDING: " + line.removeprefix("known: "))
            runner.extra.setdefault("known_findings", []).append(k["key"])
            continue
        path = save_replay(runner.pid, {
            "property": runner.pid, "kind": "program", "item_kind": "known", "seed": runner.seed, "index": -1, "tape": [], "desc": k["key"], "status": s,
            "compiler": "g++-14", "flags": flags_of(mod), "program": program(mod, [it]), "output": text[:8000],
        })
        raise Violation(path, f"{k['key']}: {text.strip()[-300:]}")


def run(runner, mod, pool, compile_prog):
    from __main__ import Violation, save_replay, scratch, log

    d = tempfile.mkdtemp(prefix="gen", dir=scratch())
    env = runner.env()
    tier = runner.tier
    n = int(mod.COUNT[tier] * float(os.environ.get("VERIF_SCALE", "1")))
    batch = getattr(mod, "BATCH", BATCH)
    comps = getattr(mod, "COMPILERS", {"quick": ["g++-14"], "thorough": ["g++-14", "clang++-18"]})[tier]
    kinds = [k for k, (f, w) in mod.KINDS.items() for _ in range(w)]
    items, seen = [], set()
    trivial = 0
    for i in range(n):
        t = T(rng=random.Random(f"{runner.seed}/{runner.pid}/{i}"))
        kind = t.rng.choice(kinds)
        it = mod.KINDS[kind][0](t)
        it["kind"], it["tape"], it["ix"] = kind, t.rec, i
        key = it.get("decl", "") + it["body"]
        if key in seen:
            continue
        seen.add(key)
        if it.get("nontrivial", True):
            from __main__ import hash_int

            runner.hashes.add(hash_int(key))
        else:
            trivial += 1
        items.append(it)
        if len(runner.samples) < 6 and i % 7 == 3:
            runner.samples.append({"check": f"generated/{kind}", "index": i, "case": ((it.get("desc", "") + "\n" + it.get("decl", "") + "\n" + it["body"]).split("\n"))[:30]})
    st = runner.stats.setdefault("generated", {"programs": 0, "items": len(items), "trivial_items": trivial, "checks_executed": 0, "kinds": {}})
    for it in items:
        st["kinds"][it["kind"]] = st["kinds"].get(it["kind"], 0) + 1

    kf = {}
    for k in getattr(mod, "KNOWN", []):
        it = {"kind": "known", "tape": [], "desc": k["key"], "ix": -1, "pre": getattr(mod, "PREAMBLES", [""])[0], **k}
        kf[k["key"]] = (it, pool.submit(single, mod, it, "g++-14", compile_prog, d, env))

    def violation(it, status, compiler, text):
        log(f"  item {it['ix']} ({it['kind']}) fails with {compiler} ({status}); shrinking")
        small, stext = shrink(mod, it, status, compiler, compile_prog, d, env, pool)
        text = stext or text
        path = save_replay(runner.pid, {
            "property": runner.pid, "kind": "program", "item_kind": it["kind"], "seed": runner.seed, "index": it["ix"], "tape": small["tape"], "desc": small.get("desc", ""),
            "status": status, "compiler": compiler, "flags": flags_of(mod), "program": program(mod, [small]), "output": text[:8000],
        })
        first = next((l for l in text.split("\n") if ("error" in l if status == "compile" else l.startswith("FAIL") or "ERROR" in l or "runtime error" in l)), text.strip()[-300:])
        raise Violation(path, f"{it['kind']} ({small.get('desc', '')}): {first}")

    for compiler in comps:
        work = [items[k : k + batch] for k in range(0, len(items), batch)]
        pres = getattr(mod, "PREAMBLES", [""])
        for k, b in enumerate(work):
            for it in b:
                it["pre"] = pres[k % len(pres)]
        stop = []

        def go(b):
            if stop:
                return None
            r = build_and_run(mod, b, compiler, compile_prog, d, env)
            if r[0] in ("compile", "run"):
                stop.append(1)
            return r

        futs = [(pool.submit(go, b), b) for b in work]
        if compiler == comps[0]:
            known(runner, mod, kf)
        bad = []
        for f, b in futs:
            r = f.result()
            if r is None:
                continue
            if r[0] == "ok":
                st["programs"] += 1
                st["checks_executed"] += r[3]
                runner.evaluations += len(b)
            else:
                bad.append((b, r))
        for b, (status, ix, text, _) in bad:
            if status == "dead":
                status, ix, text, c = build_and_run(mod, b, compiler, compile_prog, d, env)
                if status == "ok":
                    continue
                if status == "dead":
                    raise SystemExit(f"generated program keeps being killed: {text[-500:]}")
            order = b if ix is None else [b[ix]] + [x for x in b if x is not b[ix]]
            if ix is not None:
                s, tx = single(mod, b[ix], compiler, compile_prog, d, env)
                if s:
                    violation(b[ix], s, compiler, tx)
            cands = [(pool.submit(single, mod, it, compiler, compile_prog, d, env), it) for it in order]
            for f, it in cands:
                s, tx = f.result()
                if s:
                    for g, _ in cands:
                        g.cancel()
                    violation(it, s, compiler, tx)
            # fails only together with the other items
            again = build_and_run(mod, b, compiler, compile_prog, d, env, runs=3)
            if again[0] == "run":
                path = save_replay(runner.pid, {
                    "property": runner.pid, "kind": "program", "item_kind": "batch", "seed": runner.seed, "index": b[0]["ix"], "tape": [], "desc": "whole batch", "status": "run",
                    "compiler": compiler, "flags": flags_of(mod), "program": program(mod, b), "output": again[2][:8000],
                })
                raise Violation(path, f"batch of generated items: {again[2][-300:]}")
            if again[0] == "compile":
                raise SystemExit(f"the items of a batch compile only one at a time: {again[2][:1500]}")
            runner.notes.append(f"a batch failed once ({status}) and not again")


def replay(data, compile_prog, scratch_dir):
    d = tempfile.mkdtemp(prefix="p", dir=scratch_dir)
    with open(f"{d}/p.cpp", "w") as f:
        f.write(data["program"])
    print(data["program"])
    ok, text = compile_prog(f"{d}/p.cpp", f"{d}/p", data["compiler"], data["flags"])
    if not ok:
        print(text[:8000])
        print("reproduced" if data["status"] == "compile" else "does not compile")
        return 1
    rc, out, timed = execute(f"{d}/p", d, dict(os.environ))
    print(out, f"exit code {rc}")
    return 1 if rc or timed else 0

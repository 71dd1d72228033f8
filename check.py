#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]

Builds the workload programs of property ID against /repo's current working tree, runs them under
the monitors, and decides. Exit 0: held on everything explored. Exit 1 with VIOLATION line(s):
broken. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,vptr", "-fno-sanitize-recover=all"]
CONFIGS = {}
for comp, letter in (("g++", "g"), ("clang++", "c")):
    for std in ("11", "14", "17", "20", "23"):
        s = "2b" if (std == "23" and comp == "clang++") else std
        for opt in ("0", "1", "2", "3"):
            CONFIGS[f"{letter}{std}-O{opt}"] = dict(cmd=[comp, f"-std=c++{s}", f"-O{opt}"] + SAN, wrap=[])
        CONFIGS[f"{letter}{std}-tsan"] = dict(cmd=[comp, f"-std=c++{s}", "-O1", "-fsanitize=thread"], wrap=[])
        CONFIGS[f"{letter}{std}-plain"] = dict(cmd=[comp, f"-std=c++{s}", "-O2"], wrap=[])
        CONFIGS[f"{letter}{std}-vg"] = dict(cmd=[comp, f"-std=c++{s}", "-O1"], wrap=[
            "valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--exit-on-first-error=yes",
            "--num-callers=20"])

COMMON = ["-g1", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(VERIF, "harness")]


def env_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    e["LC_ALL"] = "C"
    return e


class Job:
    """one program in one build configuration"""
    def __init__(self, part, config, tmp, seed, tier):
        self.part, self.config, self.tmp, self.seed, self.tier = part, config, tmp, seed, tier
        self.name = f"{part['src']}{part.get('tag', '')}@{config}"
        self.bin = os.path.join(tmp, re.sub(r"\W", "_", self.name))
        self.error = None
        self.skipped = False
        self.viol = []      # (key, detail)
        self.counters, self.samples = {}, []
        self.evals = self.distinct = 0

    def compile(self):
        c = CONFIGS[self.config]
        cmd = c["cmd"] + COMMON + [os.path.join(VERIF, "harness", self.part["src"] + ".cpp"), "-o", self.bin]
        cmd += self.part.get("flags", []) + ["-pthread"] + self.part.get("libs", [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            self.error = "compile timed out"
            return False
        if r.returncode != 0 and self.gone(r):
            errs = [l for l in r.stdout.splitlines() if "error" in l][:6]
            self.raw = r.stdout[:20000]
            self.viol.append(("uncompilable:" + self.part["src"],
                              "a use of the public interface that the property covers no longer compiles: " + " / ".join(errs)))
            return False
        if self.skipped:
            return False
        if r.returncode != 0:
            errs = [l for l in r.stdout.splitlines() if "error" in l][:6] or r.stdout.splitlines()[-5:]
            self.error = "does not compile: " + " / ".join(errs)
            return False
        return True

    def gone(self, r):
        """The header itself compiles, but the workload's use of the interface does not."""
        if r.returncode != 1 or not re.search(r"\berror: ", r.stdout):
            return False
        if re.search(r"internal compiler error|Killed|fatal error|No space left|cannot allocate|undefined reference", r.stdout):
            return False
        if self.headers(self.part.get("flags", [])):
            return True
        # only the configuration the part is about has no usable headers: nothing to observe there
        if self.part.get("flags") and self.headers([]):
            self.skipped = True
        return False

    def headers(self, flags):
        p = subprocess.run(CONFIGS[self.config]["cmd"] + COMMON + flags + ["-x", "c++", "-fsyntax-only", "-"],
                           input='#include "efp.hpp"\nint main() {}\n', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode == 0

    def scale(self):
        s = self.part.get("scale", 1.0)
        if self.tier == "thorough":
            s *= self.part.get("thorough_scale", 10.0)
        if self.config.endswith("-vg"):
            s *= self.part.get("vg_scale", 0.03)
        if self.config.endswith("-tsan"):
            s *= self.part.get("tsan_scale", 1.0)
        return s

    def args(self, out):
        return [self.bin, "--seed", str(self.seed), "--scale", repr(self.scale()), "--out", out] + self.part.get("args", [])

    def once(self, attempt):
        out = f"{self.bin}.rec{attempt}"
        for f in (out, out + ".tag"):
            if os.path.exists(f):
                os.unlink(f)
        work = f"{self.bin}.work{attempt}"
        os.makedirs(work, exist_ok=True)
        limit = self.part.get("timeout", 420) * (8 if self.tier == "thorough" else 1)
        cmd = CONFIGS[self.config]["wrap"] + self.args(out)
        e = env_run()
        e["VERIF_WORK"] = work
        status, err = None, ""
        with open(out + ".err", "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=e, cwd=work, start_new_session=True)
            try:
                status = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                status = "timeout"
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
        with open(out + ".err", "rb") as ef:
            err = ef.read().decode("utf-8", "replace")
        recs = []
        if os.path.exists(out):
            recs = open(out, "rb").read().decode("utf-8", "replace").splitlines()
        tag = ""
        if os.path.exists(out + ".tag"):
            tag = open(out + ".tag", "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        shutil.rmtree(work, ignore_errors=True)
        return status, recs, tag, err

    @staticmethod
    def report_kind(err):
        m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+(?: \S+)?)", err)
        if "ThreadSanitizer" in err and m:
            return "tsan:" + m.group(2).split(" ")[0] + "-" + (m.group(2).split(" ") + [""])[1]
        m2 = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
        if m2:
            return "asan:" + m2.group(1)
        m3 = re.search(r"runtime error: (.{0,60})", err)
        if m3:
            return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m3.group(1)).strip().replace(" ", "-")[:50]
        if m:
            return "san:" + m.group(2)
        m4 = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid \w+|Syscall param|Invalid free|Mismatched free|Jump to)[^\n]*", err)
        if m4:
            return "valgrind:" + m4.group(1).replace(" ", "-")
        m5 = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
        if m5:
            return "terminate:" + m5.group(1)
        return None

    def run(self):
        status, recs, tag, err = self.once(0)
        hung = status == "timeout" or any(r.startswith("H ") for r in recs)
        if hung:   # confirm
            status2, recs2, tag2, err2 = self.once(1)
            if status2 == "timeout" or any(r.startswith("H ") for r in recs2):
                kind = [r[2:] for r in recs2 if r.startswith("H ")]
                self.viol.append(("hang:" + (tag2.split(" ")[0] or self.part["src"]),
                                  f"did not finish twice ({(kind or ['wall clock limit'])[0]}) @ {tag2}"))
                self.raw = err2
                self.parse(recs2)
                return
            status, recs, tag, err = status2, recs2, tag2, err2
        self.raw = err
        self.parse(recs)
        ended = any(r == "END" for r in recs)
        if ended and status in (0, 1):
            if self.evals == 0 or self.distinct == 0:
                self.error = "observed nothing"
            return
        if status == 77:
            self.error = "harness error: " + "; ".join(r[2:] for r in recs if r.startswith("E "))
            return
        kind = self.report_kind(err)
        if kind is None and status in (-9, 137):
            self.error = "killed (out of memory?)"
            return
        if kind is None and isinstance(status, int) and status < 0:
            kind = f"signal:{-status}"
        if kind is None and ended:
            kind = f"exit:{status}"
        if kind is None:
            kind = f"died:{status}"
        excerpt = " | ".join([l.strip() for l in err.splitlines() if re.search(r"ERROR|SUMMARY|runtime error|WARNING|#\d+ .*efp|==\d+==|terminate|what\(\)", l)][:8])
        self.viol.append((f"crash:{kind}:{(tag.split(' ')[0] or self.part['src'])}", f"{excerpt} @ {tag}"))

    def parse(self, recs):
        for r in recs:
            if r.startswith("V "):
                key, _, detail = r[2:].partition("\t")
                self.viol.append((key, detail))
            elif r.startswith("C "):
                k, _, v = r[2:].partition("\t")
                self.counters[k] = self.counters.get(k, 0) + int(v)
            elif r.startswith("S "):
                self.samples.append(r[2:][:600])
            elif r.startswith("N "):
                a, _, b = r[2:].partition("\t")
                self.evals, self.distinct = int(a), int(b)

    def go(self):
        if self.compile():
            self.run()
        return self


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    jobs_n = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
    only_cfg = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = args.pop(0)
        elif a == "--config": only_cfg = args.pop(0)
    seed = int(re.sub(r"\D", "", seed) or "1") % (1 << 62)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PLAN[pid]
    t0 = time.time()
    findings = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = {f["key"]: f for f in findings["findings"] if f["property"] == pid}
    replay_dir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        jobs = []
        for part in spec["parts"]:
            cfgs = part["quick"] if tier == "quick" else part.get("thorough", part["quick"])
            for c in cfgs:
                if only_cfg and only_cfg not in c: continue
                jobs.append(Job(part, c, tmp, seed, tier))
        # the slowest configurations first
        jobs.sort(key=lambda j: -j.part.get("cost", 1))
        width = spec.get("width", jobs_n)
        if width < jobs_n:   # concurrent workloads: compile wide, run narrow
            with cf.ThreadPoolExecutor(jobs_n) as ex:
                ok = list(ex.map(lambda j: j.compile(), jobs))
            with cf.ThreadPoolExecutor(width) as ex:
                list(ex.map(lambda j: j.run(), [j for j, o in zip(jobs, ok) if o]))
        else:
            with cf.ThreadPoolExecutor(jobs_n) as ex:
                list(ex.map(lambda j: j.go(), jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    seen_known, new = {}, {}
    for j in jobs:
        for key, detail in j.viol:
            if key in known:
                seen_known.setdefault(key, detail)
            else:
                new.setdefault(key, []).append((j, detail))
    counters = {}
    for j in jobs:
        for k, v in j.counters.items():
            counters[k] = counters.get(k, 0) + v
    errors = [f"{j.name}: {j.error}" for j in jobs if j.error]
    samples = []
    for j in jobs:
        for s in j.samples:
            if s not in samples and len(samples) < 8:
                samples.append(s)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=spec["level"],
        coverage=dict(
            evaluations=sum(j.evals for j in jobs),
            distinct_nontrivial=max([j.distinct for j in jobs] or [0]) if spec.get("same_cases", True) else sum(j.distinct for j in jobs),
            rule=spec["rule"], samples=samples or ["(none)"],
            observed=counters,
            runs=[dict(program=j.part["src"], configuration=j.config, evaluations=j.evals, distinct=j.distinct,
                       violations=len(j.viol), error=j.error or ("headers not usable in this configuration" if j.skipped else None)) for j in jobs]),
        assumptions=spec.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for v in new.values()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key, detail in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
    if new:
        for key, hits in list(new.items())[:12]:
            path = os.path.join(replay_dir, re.sub(r"[^\w.-]", "_", key)[:80] + ".txt")
            with open(path, "w") as f:
                f.write(f"property {pid}\nkey {key}\nseed {seed} tier {tier}\n")
                f.write(f"replay: VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {pid}\n\n")
                for j, detail in hits[:6]:
                    f.write(f"[{j.name}] {detail}\n\n")
                f.write("---- output of the first run\n" + getattr(hits[0][0], "raw", "")[:20000])
            print(f"  {key}: {hits[0][1][:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        for e in errors:
            print("note: " + e)
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    print(f"{pid} held: {evidence['coverage']['evaluations']} evaluations, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct, {len(jobs)} runs, {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

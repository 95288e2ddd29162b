"""What each property's check consists of."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor

import c17


class Ctx:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Result:
    def __init__(self):
        self.coverage = {}
        self.violations = []
        self.findings = []
        self.error = None


FULL = ["x64-debug", "x64-release", "x86-debug", "x86-release"]
ASM = ["x64-debug-asm", "x86-debug-asm"]
ASMR = ["x64-release-asm", "x86-release-asm"]
FP = ["x64-debug-fp", "x64-release-fp", "x86-debug-fp", "x86-release-fp"]

ASMFP = ["x64-release-asm-fp", "x86-release-asm-fp"]

LAND = ["x64-release", "x86-release"] + ASMR

SUMS = ["paths", "steps", "observations", "aborting_paths", "evaluations", "distinct_nontrivial"]


class Task:
    """One run of one checker binary in one configuration.

    mc: the coroutine machine (crate mc, plan `cmd`); grid: an enumeration (crate grids, binary `cmd`)."""

    def __init__(self, kind, config, cmd, tiers=("quick", "thorough"), workers=None, deep=False):
        self.kind, self.config, self.cmd, self.tiers, self.workers, self.deep = kind, config, cmd, tiers, workers, deep

    def unit(self, tier):
        if self.kind == "mc":
            return ("mc", self.config, "mc", "")
        return ("grids", self.config, self.cmd, "deep" if self.deep and tier == "thorough" else "")


def machine(prop, configs, thorough=()):
    return [Task("mc", c, prop) for c in configs] + [Task("mc", c, prop, ("thorough",)) for c in thorough]


def grid(b, configs, thorough=(), **kw):
    return [Task("grid", c, b, **kw) for c in configs] + [Task("grid", c, b, ("thorough",), **kw) for c in thorough]


def tower(asm):
    """Deep, wide and long."""
    a = ["x64-release-asm"] if asm else []
    return grid("tower", ["x64-release", "x86-release"] + a, ["x64-debug", "x86-debug"] + (["x86-release-asm"] if asm else []))


def payload(configs=("x64-release", "x86-debug", "x64-release-asm"), thorough=("x64-debug", "x86-release", "x86-debug-asm")):
    """What a panic carries."""
    return grid("payload", list(configs), list(thorough))


def run_task(ctx, res, t, workers):
    """Runs one checker binary; returns its JSON or None."""
    if res.violations:
        return None
    tag = "%s-%s-%s-%s" % (ctx.prop, t.kind, t.cmd, t.config)
    out = os.path.join(ctx.target, "out-%s.json" % tag)
    viol = os.path.join(ctx.replays, "%s.txt" % tag)
    for f in (out, viol):
        if os.path.exists(f):
            os.unlink(f)
    argv = [ctx.binary(t.unit(ctx.tier))] + ([t.cmd] if t.kind == "mc" else [])
    argv += ["--tier", ctx.tier, "--workers", str(t.workers or workers), "--out", out, "--config", t.config, "--violation", viol, "--prop", ctx.prop]
    try:
        r = subprocess.run(argv, env=ctx.env(ctx.toolchain, ""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=800 if ctx.tier == "quick" else 7000)
        rc, text = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, text = 2, "timeout: " + str(x)
    print(text, end="", flush=True)
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    if rc == 1 and os.path.exists(viol):
        msg = d["message"] if d else "violation"
        res.violations.append(("%s [%s]: %s" % (ctx.prop, t.config, msg), viol))
    elif rc != 0 or d is None:
        res.error = "%s exited with %s: %s" % (tag, rc, text[-2000:])
    return d


def merge(cov, tasks, ds):
    spaces = {}
    for t, d in zip(tasks, ds):
        if d is None:
            continue
        for k in SUMS:
            if k in d:
                cov[k] = cov.get(k, 0) + d[k]
        for k in ("states", "transitions"):
            if k in d:
                # The model is the same in every configuration: its states are counted once. The
                # states of a grid are those of the machine code and differ between builds.
                if t.kind == "mc":
                    spaces[k] = max(spaces.get(k, 0), d[k])
                else:
                    cov[k] = cov.get(k, 0) + d[k]
        cov.setdefault("samples", [])
        cov["samples"] += ["%s %s: %s" % (t.cmd, t.config, s) for s in d.get("samples", [])][: max(0, 24 - len(cov["samples"]))]
        cov.setdefault("explored", []).extend("%s %s: %s" % (t.kind, t.config, s) for s in d.get("runs", []))
        if d.get("capped"):
            cov["capped"] = True
        if "rule" in d:
            cov["rule"] = d["rule"]
    for k, v in spaces.items():
        cov[k] = cov.get(k, 0) + v


class Check:
    def __init__(self, level, tasks, assumptions=()):
        self.level, self.all, self.assumptions = level, list(tasks), list(assumptions)

    def tasks(self, tier):
        return [t for t in self.all if tier in t.tiers]

    def units(self, tier):
        v = []
        for t in self.tasks(tier):
            if t.unit(tier) not in v:
                v.append(t.unit(tier))
        return v

    def run(self, ctx):
        res = Result()
        cov = res.coverage
        tasks = self.tasks(ctx.tier)
        ds = {}
        # Grids step through real code under time limits and get the machine to themselves.
        for t in tasks:
            if t.kind == "grid":
                ds[t] = run_task(ctx, res, t, 8)
        par = 1 if ctx.tier == "thorough" else 2
        with ThreadPoolExecutor(par) as ex:
            ms = [t for t in tasks if t.kind == "mc"]
            for t, d in zip(ms, ex.map(lambda t: run_task(ctx, res, t, 8 if par == 1 else 5), ms)):
                ds[t] = d
        merge(cov, tasks, [ds[t] for t in tasks])
        if "paths" in cov:
            cov["traces_validated_against_impl"] = cov.pop("paths")
        elif self.level == "model_checking" and "evaluations" in cov:
            cov["traces_validated_against_impl"] = cov["evaluations"]
        if self.level == M and cov.get("distinct_nontrivial") == cov.get("evaluations"):
            cov.pop("distinct_nontrivial", None)
        cov["configurations"] = sorted({t.config for t in tasks})
        cov["exhaustive"] = not cov.get("capped", False)
        return res

    def replay_unit(self, lines):
        c = lines.get("config", "x64-debug")
        if "bin" in lines:
            deep = any(t.deep for t in self.all if t.cmd == lines["bin"]) and lines.get("tier") == "thorough"
            return ("grids", c, lines["bin"], "deep" if deep else "")
        return ("mc", c, "mc", "")

    def replay(self, ctx, unit, lines, f):
        argv = [ctx.binary(unit)] + ([] if "bin" in lines else [lines["property"]])
        return subprocess.call(argv + ["--tier", ctx.tier, "--config", lines.get("config", ""), "--replay", f], env=ctx.env(ctx.toolchain, ""))


class Verdicts:
    """C17: programs and the compiler's verdicts on them."""

    level = "exploration"
    assumptions = [
        "the verdicts required were written from the documentation of the public types; the installed compiler decides what is accepted",
        "programs consist of at most two statements over the type alphabet, or of an operation history on one stack and up to two coroutines",
    ]
    BUILDS = {"default": [], "no-unwind": ["--no-default-features", "--features", "default-stack"]}

    def units(self, tier):
        return []

    def library(self, ctx, name):
        cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--lib", "--message-format=json", "--manifest-path", os.path.join(ctx.here, "grids", "Cargo.toml")]
        e = ctx.env(ctx.toolchain, "")
        e["CARGO_TARGET_DIR"] = os.path.join(ctx.target, "verdicts-" + name)
        r = subprocess.run(cmd + self.BUILDS[name], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        rlib = None
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "corosensei":
                    rlib = [f for f in d["filenames"] if f.endswith(".rlib")]
        if r.returncode != 0 or not rlib:
            raise RuntimeError("cannot build corosensei: " + (r.stderr + r.stdout)[-3000:])
        return rlib[0], os.path.dirname(rlib[0]) if os.path.basename(os.path.dirname(rlib[0])) == "deps" else os.path.join(os.path.dirname(rlib[0]), "deps")

    def run(self, ctx):
        res = Result()
        cov = res.coverage
        keys = {k[1]: k[2] for k in ctx.known}
        cov.update(evaluations=0, distinct_nontrivial=0, programs=0)
        for name in self.BUILDS:
            ps = c17.programs(ctx.tier)
            try:
                wrong, errors = c17.check("rustc", ctx.env(ctx.toolchain, ""), self.library(ctx, name), ps)
            except RuntimeError as x:
                res.error = str(x)
                return res
            cov["evaluations"] += len(ps)
            cov["distinct_nontrivial"] += sum(not p.ok for p in ps)
            cov.setdefault("samples", [p.text for p in ps[:: max(1, len(ps) // 20)]])
            cov.setdefault("explored", []).append("%s: %d programs, %d to be rejected" % (name, len(ps), sum(not p.ok for p in ps)))
            found = {}
            for p, rejected in wrong:
                if p.finding in keys and not rejected:
                    found.setdefault(p.finding, []).append(p)
                elif not res.violations:
                    f = os.path.join(ctx.replays, "C17-%s.txt" % name)
                    with open(f, "w") as w:
                        w.write("property C17\nconfig %s\ntier %s\nprogram %s\nrequired %s\nwhy %s\ntext %s\n" % (
                            name, ctx.tier, p.name, "accepted" if p.ok else "rejected", p.why, p.text))
                    res.violations.append(("C17 [%s]: the compiler %s a program it has to %s (%s): %s" % (
                        name, "rejects" if rejected else "accepts", "accept" if p.ok else "reject", p.why, p.text), f))
            for k, v in found.items():
                t = "%s (%d of the programs, e.g. %s)" % (keys[k], len(v), v[0].text)
                if t not in res.findings:
                    res.findings.append(t)
            cov["programs_of_known_findings"] = sum(map(len, found.values()))
            if errors:
                res.error = "errors outside of the programs: " + errors[0][:2000]
        del cov["programs"]
        cov["rule"] = ("every program of four families: Send/Sync of every wrapper of every instantiation over the type alphabet; every lifetime "
                       "change of every parameter; borrowing programs; every operation history on a borrowed stack to a depth. "
                       "Non-trivial: the program has to be rejected.")
        cov["exhaustive"] = True
        return res

    def replay_unit(self, lines):
        return None

    def replay(self, ctx, unit, lines, f):
        for p in c17.programs(ctx.tier):
            if p.name == lines["program"] and p.text == lines["text"]:
                wrong, errors = c17.check("rustc", ctx.env(ctx.toolchain, ""), self.library(ctx, lines["config"]), [p])
                print("reproduced" if wrong else "not reproduced", p.text)
                return 1 if wrong else 0
        print("no such program")
        return 2


COMMON = [
    "the abstract machine in mc/src/model.rs is the specification; it was written from the documentation",
    "value identity is tracked by tokens; two representative sizes (one travels in a register, one through memory) stand for the others here, C02 covers sizes",
    "x86-64 and i686 Linux with the pinned toolchain; other architectures are not executed",
]
PLATFORM = ["x86-64 and i686 Linux with the pinned toolchain; other architectures are not executed"]
NOUNWIND = ["x64-debug-nounwind", "x64-release-nounwind", "x86-debug-nounwind", "x86-release-nounwind", "x64-release-bare", "x86-debug-bare"]
M = "model_checking"

PROPS = {
    "C01": Check(M, machine("C01", FULL + ["x64-release-asm"], ["x86-release-asm"]) + tower(False), COMMON),
    "C02": Check("exploration", grid("c02", FULL + ASMR, deep=True), PLATFORM + [
        "types are distinguished by size, alignment, validity class and drop glue only; sizes beyond the largest instantiated one behave like it"]),
    "C03": Check(M, machine("C03", FULL + ["x64-debug-asm", "x86-release-asm"], ["x86-debug-asm"]), COMMON),
    "C04": Check(M, machine("C04", FULL + ASM, ASMR) + tower(True) + payload(FULL + ASM, ASMR), COMMON),
    "C05": Check(M, machine("C05", FULL + ASM, ASMR) + grid("land", LAND) + tower(True), COMMON),
    "C06": Check(M, machine("C06", FULL + ASM, ASMR) + grid("land", LAND) + tower(True) + payload(), COMMON),
    "C07": Check(M, machine("C07", FULL + ASMR, ASM), COMMON),
    "C08": Check(M, machine("C08", FULL + ASM, ASMR) + tower(True) + payload(), COMMON),
    "C09": Check(M, machine("C09", FULL + ["x64-debug-asm", "x86-release-asm"], ["x86-debug-asm"]) + tower(False) + payload(), COMMON),
    "C10": Check(M, machine("C10", FULL) + grid("c10", FULL + ASM + ASMR) + grid("land", LAND), COMMON + [
        "registers are checked bit for bit: all general-purpose callee-saved registers, direction flag; MXCSR and x87 control bits are documented as not preserved"]),
    "C11": Check("exploration", grid("c11", FULL + ["x64-release-asm"], ["x86-release-asm"], deep=True), PLATFORM),
    "C12": Check("fault_enumeration", grid("c12", FULL, deep=True), PLATFORM + ["system calls other than mmap, mprotect, munmap and sysconf are not made to fail: the crate makes none"]),
    "C13": Check(M, machine("C13", FULL + ["x64-debug-asm", "x86-release-asm"], ["x86-debug-asm"]) + grid("c13", ["x64-debug", "x64-release", "x86-release"], ["x86-debug"] + ASM + ASMR) + payload(), COMMON + [
        "traps inside libc and the unwinder while a coroutine is being unwound are excluded: user code is not running there"]),
    "C14": Check(M, machine("C14", FULL + ["x64-debug-asm"]) + grid("c14", FULL + ["x64-release-asm"]), COMMON),
    "C15": Check(M, machine("C15", FULL + ASM) + grid("c15", FULL + ASM + ASMR), COMMON + [
        "walks start at calls, not at arbitrary instructions inside the switch code"]),
    "C16": Check(M, machine("C16", FP + ASMFP) + grid("c16", FP + ASMFP), COMMON),
    "C17": Verdicts(),
    "C18": Check(M, machine("C18", FULL + ["x64-release-asm"], ASM) + grid("c18", FULL, workers=4), COMMON + [
        "instruction-level interleavings: one thread is interrupted at every instruction while the other runs a complete operation; weak memory effects between threads are those of x86"]),
    "C19": Check(M, machine("C19", NOUNWIND) + grid("tower", ["x64-release-nounwind", "x64-release-bare"], ["x86-debug-nounwind", "x86-debug-bare"]), COMMON),
    "C20": Check("exploration", grid("c20", FULL), PLATFORM + ["Valgrind 3.22's own log of its stack registry is the observation"]),
}

"""Shared driver: builds explorers from /repo's working tree for each target, runs their shards on all cores,
replays every reported violation alone before reporting it, and writes the evidence file."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NCPU = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

# name: (compiler, runner, cflags)
CONFIGS = {
    "x86_64":      ("gcc", [], []),
    "x86_64_min":  ("gcc", ["qemu-x86_64", "-cpu", "qemu64,-lahf-lm"], []),
    "x86_32":      ("i686-linux-gnu-gcc", [], ["-static", "-msse2", "-mfpmath=sse"]),
    "x86_32_min":  ("i686-linux-gnu-gcc", ["qemu-i386", "-cpu", "pentium3,+sse2"], ["-static", "-msse2", "-mfpmath=sse"]),
    "aarch64":     ("aarch64-linux-gnu-gcc", ["qemu-aarch64"], ["-static"]),
    "armv7":       ("arm-linux-gnueabihf-gcc", ["qemu-arm"], ["-static", "-marm"]),
    "armv6":       ("arm-linux-gnueabihf-gcc", ["qemu-arm"], ["-static", "-marm", "-DSLJIT_CONFIG_ARM_V6=1"]),
    "armt2":       ("arm-linux-gnueabihf-gcc", ["qemu-arm"], ["-static", "-mthumb"]),
    "riscv64":     ("riscv64-linux-gnu-gcc", ["qemu-riscv64"], ["-static", "-march=rv64g"]),
    "riscv64_ext": ("riscv64-linux-gnu-gcc", ["qemu-riscv64"], ["-static", "-march=rv64gv_zba_zbb"]),
    "riscv64_c":   ("riscv64-linux-gnu-gcc", ["qemu-riscv64"], ["-static", "-march=rv64gc"]), # compressed instructions
    "s390x":       ("s390x-linux-gnu-gcc", ["qemu-s390x"], ["-static", "-march=z13"]),
    "loongarch64": ("loongarch64-linux-gnu-gcc-14", ["qemu-loongarch64"], ["-static", "-march=la464"]),
    "ppc64le":     ("powerpc64le-linux-gnu-gcc", ["qemu-ppc64le"], ["-static"]),
    "ppc32":       ("powerpc-linux-gnu-gcc", ["qemu-ppc"], ["-static"]),
    "mips32el":    ("mipsel-linux-gnu-gcc", ["qemu-mipsel"], ["-static"]),
    "mips64el":    ("mips64el-linux-gnuabi64-gcc", ["qemu-mips64el"], ["-static"]),
}
ALL = list(CONFIGS)
# position independent: C functions need the entry address register of the ELFv2 ABI
CONFIGS["ppc64le_pie"] = ("powerpc64le-linux-gnu-gcc", ["qemu-ppc64le", "-L", "/usr/powerpc64le-linux-gnu"], ["-pie", "-fPIE"])
# with the compare and swap instructions of the large system extension
CONFIGS["aarch64_lse"] = ("aarch64-linux-gnu-gcc", ["qemu-aarch64"], ["-static", "-march=armv8.1-a"])
# older and newer revisions of the instruction set
CONFIGS["mips64el_iii"] = ("mips64el-linux-gnuabi64-gcc", ["qemu-mips64el"], ["-static", "-march=mips3"])
CONFIGS["s390x_zEC12"] = ("s390x-linux-gnu-gcc", ["qemu-s390x", "-cpu", "max,stfle53=off"], ["-static", "-march=zEC12"])
CONFIGS["armt2_ve"] = ("arm-linux-gnueabihf-gcc", ["qemu-arm"], ["-static", "-mthumb", "-march=armv7ve+simd"])
# vector extensions: SSE4.1 only, AVX without AVX2, 256 bit vector registers
CONFIGS["x86_64_sse41"] = ("gcc", ["qemu-x86_64", "-cpu", "Nehalem"], [])
CONFIGS["x86_64_avx"] = ("gcc", ["qemu-x86_64", "-cpu", "max,-avx2"], [])
CONFIGS["x86_32_sse41"] = ("i686-linux-gnu-gcc", ["qemu-i386", "-cpu", "Nehalem"], ["-static", "-msse2", "-mfpmath=sse"])
CONFIGS["riscv64_v256"] = ("riscv64-linux-gnu-gcc", ["qemu-riscv64", "-cpu", "rv64,v=true,vlen=256,zba=true,zbb=true"], ["-static", "-march=rv64gv_zba_zbb"])
# a configuration that only changes the machine the binary runs on
SHARED_BINARY = {"x86_64_min": "x86_64", "x86_32_min": "x86_32", "x86_64_sse41": "x86_64", "x86_64_avx": "x86_64", "x86_32_sse41": "x86_32", "riscv64_v256": "riscv64_ext"}

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.viol, self.known_hits, self.notes, self.cov = [], {}, [], {}
        self.errors = []
        self.lock = threading.Lock()
        self.known = []
        p = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(p):
            self.known = [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.samples = []

    # ---------------------------------------------------------------- building
    def compile(self, config, suite, srcs, defines=(), opt="-O1", lir=True, lirdefs=(), extra=(), name=None, lirsections=False):
        cc, _, flags = CONFIGS[config]
        out = os.path.join(self.dir, f"{name or suite}.{config}")
        common = [cc, opt, "-g0" if not os.environ.get("VERIF_DEBUG") else "-g", "-w", "-std=gnu99", "-I" + REPO + "/sljit_src", "-I" + VERIF + "/engine", "-DSLJIT_CONFIG_AUTO=1" if not any("SLJIT_CONFIG_ARM_V6" in f for f in flags) else "-DVERIF_FORCED=1", *[f for f in flags if f != "-static"], *defines]
        objs, procs = [], []
        if lir:
            o = out + ".lir.o"
            objs.append(o)
            procs.append([*common, *lirdefs, "-c", REPO + "/sljit_src/sljitLir.c", "-o", o])
        for s in srcs:
            o = out + "." + os.path.basename(s) + ".o"
            objs.append(o)
            procs.append([*common, "-c", s if s.startswith("/") else os.path.join(VERIF, "engine", s), "-o", o])
        for p in procs:
            r = sh(p)
            if r.returncode:
                self.errors.append(f"{config}: build failed: {' '.join(p)}\n{r.stdout[-3000:]}")
                return None
        if lirsections:
            # the static data of the library gets sections of its own, so that an explorer can save and restore it
            r = sh(["objcopy", "--rename-section", ".bss=libbss,alloc,load,data,contents", "--rename-section", ".data=libdata,alloc,load,data,contents", objs[0]])
            if r.returncode:
                self.errors.append(f"{config}: objcopy failed\n{r.stdout[-3000:]}")
                return None
        r = sh([cc, *[f for f in flags if not f.startswith("-D")], *objs, "-o", out, "-lm", "-lpthread", *extra])
        if r.returncode:
            self.errors.append(f"{config}: link failed\n{r.stdout[-3000:]}")
            return None
        for o in objs:
            os.remove(o)
        return out

    def build_all(self, configs, suite, srcs, **kw):
        fut = {}
        for c in configs:
            if c in SHARED_BINARY and SHARED_BINARY[c] in configs:
                continue
            fut[c] = self.pool.submit(self.compile, SHARED_BINARY.get(c, c), suite, srcs, **kw)
        res = {c: f.result() for c, f in fut.items()}
        for c in configs:
            if c not in res:
                res[c] = res[SHARED_BINARY[c]]
        return res

    # ---------------------------------------------------------------- running
    def run_one(self, config, binary, args, timeout):
        cmd = [*CONFIGS[config][1], binary, *args]
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=self.dir)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        return rc, out.decode("utf-8", "replace")

    def parse(self, config, suite, rc, text):
        res = {"viol": [], "result": None, "rc": rc, "text": text}
        for line in text.splitlines():
            try:
                if line.startswith("VIOL "):
                    res["viol"].append(json.loads(line[5:]))
                elif line.startswith("CRASH "):
                    d = json.loads(line[6:])
                    d["key"] = "crash"
                    d["msg"] = f"signal {d['sig']} in phase {d['phase']}" + (" (no progress for 100 s)" if d["sig"] == 14 else "") + (": " + d["txt"] if d.get("txt") else "")
                    res["viol"].append(d)
                elif line.startswith("RESULT "):
                    res["result"] = json.loads(line[7:])
            except ValueError:
                pass
        return res

    def match_known(self, config, v, suite):
        text = f"{config}:{suite}:{v.get('key','')}:{v.get('msg','')}"
        for k in self.known:
            if config in k["configs"] and k["suite"] == suite and re.search(k["match"], text):
                return k
        return None

    def explore(self, suite, binaries, shards=8, args=(), weight=None, deadline=None, timeout=None, replay_args=None, max_confirm=6, shards_for=None):
        """Runs every shard of `suite` on every target; returns aggregated coverage."""
        deadline = deadline or (3000 if THOROUGH else 420)
        timeout = timeout or deadline + 180
        agg = {"programs": 0, "runs": 0, "states": 0, "transitions": 0, "unsupported": 0, "undefined_skipped": 0, "targets": {}, "capped": 0}
        jobs = []
        order = sorted(binaries, key=lambda c: (c in ("x86_64", "x86_32"), c))
        for c in order:
            if not binaries[c]:
                continue
            n = (shards_for or {}).get(c, shards)
            for s in range(n):
                a = ["--shard", str(s), "--nshards", str(n), "--thorough", "1" if THOROUGH else "0", "--seed", str(SEED), "--deadline", str(deadline), *args]
                jobs.append((c, s, n, self.pool.submit(self.run_one, c, binaries[c], a, timeout)))
        fails = []
        for c, s, n, f in jobs:
            rc, text = f.result()
            res = self.parse(c, suite, rc, text)
            if res["result"]:
                r = res["result"]
                for k in ("programs", "runs", "states", "transitions", "unsupported", "undefined_skipped"):
                    agg[k] += r.get(k, 0)
                agg["capped"] += r.get("capped", 0)
                t = agg["targets"].setdefault(c, {"programs": 0, "runs": 0, "unsupported": 0, "total": 0})
                t["programs"] += r.get("programs", 0); t["runs"] += r.get("runs", 0); t["unsupported"] += r.get("unsupported", 0); t["total"] = max(t["total"], r.get("total", 0))
                t["platform"] = r.get("platform", "")
                if len(self.samples) < 8 and s == 0:
                    self.samples += [f"{c}: {x}" for x in r.get("samples", [])[:1]]
            if res["viol"]:
                for v in res["viol"]:
                    fails.append((c, v))
            elif rc != 0 or not res["result"]:
                self.errors.append(f"{c} {suite} shard {s}/{n}: ended with {rc}: {text[-600:]}")
        # replay each violation alone before reporting it
        seen = {}
        for c, v in fails:
            k = self.match_known(c, v, suite)
            if k:
                self.known_hits.setdefault(k["id"], (k, c, v))
                continue
            key = (c, v.get("key"))
            if seen.get(key, 0) >= int(os.environ.get("VERIF_PERKEY", 2)) or len(self.viol) >= int(os.environ.get("VERIF_MAXC", max_confirm)):
                continue
            seen[key] = seen.get(key, 0) + 1
            a = ["--only", str(v["idx"]), "--thorough", "1" if THOROUGH else "0", "--seed", str(SEED), *args]
            if v.get("sub"):
                a += ["--sub", str(v["sub"])]
            rc, text = self.run_one(c, binaries[c], a, timeout)
            res = self.parse(c, suite, rc, text)
            if not res["viol"]:
                # state carried over between programs of one process: replay the whole shard
                self.notes.append(f"{c} {suite} idx {v['idx']}: not reproduced alone")
                n = (shards_for or {}).get(c, shards)
                a = ["--shard", str(v["idx"] % n), "--nshards", str(n), "--thorough", "1" if THOROUGH else "0", "--seed", str(SEED), *args]
                rc, text = self.run_one(c, binaries[c], a, timeout)
                res = self.parse(c, suite, rc, text)
                if not res["viol"]:
                    self.errors.append(f"{c} {suite} idx {v['idx']}: violation not reproduced: {v['msg'][:300]}")
                    continue
            self.add_violation(c, suite, v, [*CONFIGS[c][1], binaries[c], *a])
        return agg

    def add_violation(self, config, suite, v, cmd):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.viol)}.json")
        json.dump({"property": self.prop, "config": config, "suite": suite, "violation": v, "command": cmd, "tier": TIER, "seed": SEED}, open(path, "w"), indent=1)
        self.viol.append((config, suite, v, path))
        log(f"  {config} {suite} #{v.get('idx')}: {v.get('msg','')[:600]}")

    def add(self, agg, suite):
        for k in ("states", "transitions"):
            self.cov[k] = self.cov.get(k, 0) + agg[k]
        self.cov["traces_validated_against_impl"] = self.cov.get("traces_validated_against_impl", 0) + agg["runs"]
        self.cov.setdefault("suites", {})[suite] = {k: v for k, v in agg.items() if k != "samples"}

    # ---------------------------------------------------------------- finishing
    def finish(self, exhaustive=True, extra=None, assumptions=()):
        cov = dict(self.cov)
        cov.update(extra or {})
        cov["samples"] = self.samples[:8] or ["(none)"]
        capped = any(s.get("capped") for s in cov.get("suites", {}).values())
        cov["exhaustive"] = bool(exhaustive and not capped and not self.errors)
        if self.notes:
            cov["notes"] = self.notes[:20]
        if self.level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov.setdefault(k, 0)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k, c, v in self.known_hits.values():
            log(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        for n in self.notes[:10]:
            log("note:", n)
        for config, suite, v, path in self.viol:
            log(f"VIOLATION property={self.prop} replay={path}")
        log(f"{self.prop}: states={cov.get('states')} transitions={cov.get('transitions')} runs={cov.get('traces_validated_against_impl')} wall={ev['wall_s']}s exhaustive={cov['exhaustive']}")
        self.pool.shutdown(wait=False, cancel_futures=True)
        if os.environ.get("VERIF_KEEP") != "1":
            if not self.viol:
                shutil.rmtree(self.dir, ignore_errors=True)
        if self.viol:
            sys.exit(1)
        if self.errors:
            for e in self.errors[:8]:
                log("ERROR:", e)
            sys.exit(2)
        sys.exit(0)

def configs_arg(extra=()):
    """VERIF_CONFIGS=a,b restricts the targets (for experiments only)."""
    e = os.environ.get("VERIF_CONFIGS")
    return e.split(",") if e else list(ALL) + list(extra)

#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

usage: check.py ID [quick|thorough]        decide the property
       check.py --replay FILE              replay a recorded violation natively

Steps: compile the repository's sources (as they are now) and the harness to
LLVM IR; execute symbolically with build/symx (SMT solver decides every branch
and every assertion); replay every counterexample on natively compiled code;
validate sampled symbolic paths against the native code; write evidence.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, glob, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CONEX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))
INC = ["-iquote", REPO, "-iquote", REPO + "/conex", "-I" + HERE + "/harness", "-I" + HERE + "/symx", "-isystem", "/usr/include/eigen3"]
BCFLAGS = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-gline-tables-only", "-DNDEBUG",
           "-DEIGEN_NO_DEBUG", "-DCONEX_VERBOSE=0", "-DEIGEN_DONT_VECTORIZE", "-w", "-include", HERE + "/harness/eig_model.h"] + INC
NATFLAGS = ["-std=c++17", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-DCONEX_VERBOSE=0", "-w"] + INC
VARIANTS = {
    "plain": ["g++", "-O2"],
    "asan": ["clang++-18", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null", "-DEIGEN_DONT_VECTORIZE"],
    "pattern": ["clang++-18", "-O1", "-ftrivial-auto-var-init=pattern"],
    "zero": ["clang++-18", "-O1", "-ftrivial-auto-var-init=zero"],
    "msan": ["clang++-18", "-O1", "-g", "-DEIGEN_DONT_VECTORIZE"],  # run under valgrind
}
CPUS = os.cpu_count() or 8


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), "timeout"


class Broken(Exception):
    pass


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def defs_of(unit, tier):
    d = dict(unit.get("defs", {}))
    if tier == "thorough":
        d.update(unit.get("thorough", {}))
    return ["-D%s=%s" % kv for kv in sorted(d.items())]


class Check:
    def __init__(self, pid, tier):
        from checks import CHECKS
        self.pid, self.tier, self.conf = pid, tier, CHECKS[pid]
        self.tmp = tempfile.mkdtemp(prefix="symx-%s-" % pid)
        self.units = [u for u in self.conf["units"] if not (tier == "quick" and u.get("only") == "thorough")]
        if os.environ.get("UNITS"):
            self.units = [u for u in self.units if u["name"] in os.environ["UNITS"].split(",")]
        self.native, self.objs, self.lock, self.pool = {}, {}, threading.Lock(), ThreadPoolExecutor(CPUS)

    def build(self):
        rc, o, e = sh(["bash", HERE + "/symx/build.sh"], timeout=900)
        if rc:
            raise Broken("engine build failed: " + e[-2000:])
        jobs = []
        srcs = sorted({s for u in self.units for s in u["srcs"]})
        for s in srcs:
            jobs.append((s, BCFLAGS + ["-c", REPO + "/" + s, "-o", self.bc(s)]))
        for u in self.units:
            h = HERE + "/harness/" + u["harness"]
            jobs.append((u["name"], BCFLAGS + defs_of(u, self.tier) + ["-c", h, "-o", self.tmp + "/h_%s.bc" % u["name"]]))

        def one(j):
            rc, o, e = sh(j[1], timeout=600)
            return j[0], rc, e

        with ThreadPoolExecutor(CPUS) as ex:
            for name, rc, e in ex.map(one, jobs):
                if rc:
                    raise Broken("cannot compile %s to IR: %s" % (name, e[-1500:]))

    def bc(self, s):
        return self.tmp + "/" + s.replace("/", "_") + ".bc"

    def run_unit(self, u, jobs):
        out = self.tmp + "/out_" + u["name"]
        os.makedirs(out, exist_ok=True)
        dl = u.get("deadline", 120) if self.tier == "quick" else u.get("tdeadline", 600)
        cmd = [HERE + "/build/symx", "-o", out, "-deadline", str(dl), "-jobs", str(jobs), "-samples", str(u.get("samples", 6)),
               "-seed", os.environ.get("VERIF_SEED", "1")]
        for k in ("qtimeout", "aqtimeout", "rlimit", "enumcap", "maxinstr", "maxpaths"):
            if k in u:
                cmd += ["-" + k, str(u[k])]
        cmd += [self.tmp + "/h_%s.bc" % u["name"]] + [self.bc(s) for s in u["srcs"]]
        rc, o, e = sh(cmd, timeout=dl * 2 + 200)
        try:
            summ = json.load(open(out + "/summary.json"))
        except Exception as ex:
            raise Broken("unit %s: executor failed rc=%s %s %s" % (u["name"], rc, o[-500:], e[-1500:]))
        summ["unit"] = u["name"]
        summ["viol"] = []
        for f in sorted(glob.glob(out + "/viol-*.json")):
            try:
                summ["viol"].append(json.load(open(f)))
            except Exception:
                pass
        summ["samp"] = []
        for f in sorted(glob.glob(out + "/sample-*.json")):
            try:
                summ["samp"].append(json.load(open(f)))
            except Exception:
                pass
        return summ

    # ------------------------------------------------------------ native
    def native_bin(self, u, variant):
        key = (u["name"], variant)
        if key in self.native:
            return self.native[key]
        exe = self.tmp + "/n_%s_%s" % key
        base = VARIANTS[variant] + NATFLAGS
        objs, jobs = [], []
        with self.lock:  # objects that do not depend on the unit are compiled once
            for s in [HERE + "/symx/native.cc"] + [REPO + "/" + s for s in u["srcs"]]:
                ob = self.tmp + "/o_%s_%s.o" % (variant, s.replace("/", "_"))
                objs.append(ob)
                if ob not in self.objs:
                    self.objs[ob] = self.pool.submit(sh, base + ["-c", s, "-o", ob], 600)
        ob = exe + ".o"
        rc, o, e = sh(base + defs_of(u, self.tier) + ["-c", HERE + "/harness/" + u["harness"], "-o", ob], timeout=600)
        if rc:
            raise Broken("native build failed: " + e[-1500:])
        for x in objs:
            rc, o, e = self.objs[x].result()
            if rc:
                raise Broken("native build failed: " + e[-1500:])
        link = [VARIANTS[variant][0]] + [f for f in VARIANTS[variant][1:] if f.startswith("-fsan")] + [ob] + objs + ["-o", exe]
        rc, o, e = sh(link, timeout=300)
        if rc:
            raise Broken("native link failed: " + e[-1500:])
        os.unlink(ob)
        self.native[key] = exe
        return exe

    def prebuild(self, units):
        def one(u):
            try:
                self.native_bin(u, "plain")
            except Broken:
                pass

        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(one, units))

    def run_native(self, u, variant, inputs, env=None):
        exe = self.native_bin(u, variant)
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, delete=False)
        for k, v in inputs.items():
            f.write("%s %s\n" % (k, v))
        f.close()
        e = dict(os.environ)
        e.update(env or {})
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        cmd = [exe, f.name]
        if variant == "msan":
            cmd = ["valgrind", "-q", "--error-exitcode=77"] + cmd
        rc, o, er = sh(cmd, timeout=150, env=e)
        os.unlink(f.name)
        return rc, o, er

    def reproduces(self, u, label, model):
        """Returns a description if the real code fails on this input."""
        mem = label.startswith("memory-safety") or label.startswith("terminate") or label.startswith("abort")
        tries = [("plain", {})]
        if mem:
            tries = [("asan", {}), ("plain", {})]
        else:
            tries += [("plain", {"MALLOC_PERTURB_": "85"}), ("plain", {"MALLOC_PERTURB_": "255"}), ("pattern", {}), ("zero", {"MALLOC_PERTURB_": "255"}),
                      ("plain", {"SX_TOL": "1e-9"})]
        for variant, env in tries:
            rc, o, er = self.run_native(u, variant, model, env)
            for line in o.splitlines():
                if line.startswith("FAIL "):
                    if label in line or (label.startswith("uncaught") and "uncaught" in line):
                        return "%s %s: %s" % (variant, env, line[:300])
            if rc not in (0, 1, 3, 4):
                if mem or rc < 0 or rc >= 128:
                    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", er)
                    return "%s %s: exit %d %s" % (variant, env, rc, m.group(1) if m else er[-200:])
            if mem and ("AddressSanitizer" in er or "runtime error" in er):
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", er)
                return "%s: %s" % (variant, m.group(1) if m else "")
            if mem and variant == "asan":
                continue
        return None

    def conform(self, u, summ, stats):
        if not summ["samp"]:
            return
        try:
            self.native_bin(u, "plain")
        except Broken as b:
            stats["notes"].append(str(b)[:300])
            return
        for s in summ["samp"]:
            rc, o, er = self.run_native(u, "plain", s["inputs"])
            if rc == 3:
                stats["conf_skipped"] += 1
                continue
            obs = {}
            for line in o.splitlines():
                if line.startswith("OBS "):
                    p = line.split(" ")
                    try:
                        obs[" ".join(p[1:-1])] = float(p[-1])
                    except ValueError:
                        pass
            n = bad = 0
            for k, v in s["obs"].items():
                if k in obs:
                    n += 1
                    if abs(obs[k] - v) > 1e-4 * (1 + abs(v) + abs(obs[k])):
                        bad += 1
                else:
                    bad += 1
            if rc not in (0,) or bad:
                stats["conf_mismatch"] += 1
                stats["notes"].append("native run differs from symbolic path in unit %s rc=%d bad=%d of %d; %s" % (u["name"], rc, bad, n, o[:200].replace("\n", " | ")))
                stats.setdefault("mismatch_inputs", []).append({"unit": u["name"], "inputs": s["inputs"]})
            else:
                stats["conf_ok"] += 1
                stats["conf_values"] += n

    def run(self):
        t0 = time.time()
        known = [k for k in load_known() if k["property"] == self.pid and k.get("status", "open") == "open"]
        self.build()
        tb = time.time() - t0
        par = min(len(self.units), self.conf.get("parallel", 4))
        jobs = max(1, CPUS // par)
        with ThreadPoolExecutor(par) as ex:
            summs = list(ex.map(lambda u: self.run_unit(u, u.get("jobs", jobs)), self.units))
        byname = {u["name"]: u for u in self.units}
        self.prebuild([byname[s["unit"]] for s in summs if s["samp"]])
        stats = dict(conf_ok=0, conf_mismatch=0, conf_skipped=0, conf_values=0, notes=[])
        rdir = HERE + "/evidence/replay/%s" % self.pid
        shutil.rmtree(rdir, ignore_errors=True)
        reported, known_hit, unconfirmed = [], [], []
        for s in summs:
            u = byname[s["unit"]]
            groups = {}
            for v in s["viol"]:
                groups.setdefault(v["label"], []).append(v)
            for label, vs in sorted(groups.items()):
                kf = None
                for k in known:
                    if label.startswith(k["label"]) and k.get("unit", s["unit"]) == s["unit"]:
                        kf = k
                desc = None
                tried = 0
                for v in sorted(vs, key=lambda v: v["maybe"])[:6]:
                    for m in v["models"][:6]:
                        tried += 1
                        desc = self.reproduces(u, label, m)
                        if desc:
                            break
                    if desc:
                        break
                if not desc:
                    unconfirmed.append({"unit": s["unit"], "label": label, "where": vs[0]["where"], "models_tried": tried, "maybe": all(v["maybe"] for v in vs)})
                    continue
                if kf:
                    known_hit.append((kf, label, desc))
                    continue
                os.makedirs(rdir, exist_ok=True)
                path = rdir + "/%d.json" % len(reported)
                json.dump({"property": self.pid, "unit": s["unit"], "tier": self.tier, "label": label, "where": v["where"], "inputs": m, "native": desc,
                           "replay": "python3 %s/bin/check.py --replay %s" % (HERE, path)}, open(path, "w"), indent=1)
                reported.append((label, path, desc))
            self.conform(u, s, stats)
        tot = {}
        for k in ("paths", "completed", "unsupported", "truncated", "deadline", "cut", "infeasible", "queries", "qsat", "qunsat", "qunk", "qbv", "qreal", "qext",
                  "sample_decided", "facts_decided", "asserts", "violations", "undecided", "instrs", "maybe", "norm_identity", "norm_confirmed", "solver_s"):
            tot[k] = round(sum(s[k] for s in summs), 3)
        # vacuity: every witness in the harness must be reached
        missing = []
        for s in summs:
            u = byname[s["unit"]]
            want = u.get("witness")
            if want is None:
                want = ["end"]
            for w in want:
                if not s["witness"].get(w) and not s["witness"].get(w + " (maybe)"):
                    missing.append(s["unit"] + ":" + w)
        per_unit = []
        labels = {}
        for s in summs:
            u = byname[s["unit"]]
            per_unit.append({"unit": s["unit"], "harness": u["harness"], "bounds": u.get("bounds", ""), "defs": defs_of(u, self.tier),
                             "paths": s["paths"], "completed": s["completed"], "queries": s["queries"], "unsat": s["qunsat"], "sat": s["qsat"], "unknown": s["qunk"],
                             "solver_s": round(s["solver_s"], 2), "wall_s": round(s["wall_s"], 2), "undecided": s["undecided"], "unsupported": s["unsupported"],
                             "deadline": s["deadline"], "truncated": s["truncated"], "cut": s["cut"], "messages": s["messages"], "witness": s["witness"]})
            for l, c in s["labels"].items():
                t = labels.setdefault(s["unit"] + ": " + l, dict(c))
        funcs = sorted({f for s in summs for f in s["functions"]})
        lines = {}
        for s in summs:
            for f, n in s["lines"].items():
                lines[f.replace(REPO + "/", "")] = max(lines.get(f.replace(REPO + "/", ""), 0), n)
        samples = []
        for s in summs:
            for x in s["samp"][:2]:
                samples.append({"unit": s["unit"], "inputs": dict(list(x["inputs"].items())[:24]), "observed": dict(list(x["obs"].items())[:8])})
        if not samples:
            samples = [{"unit": s["unit"], "labels": s["labels"]} for s in summs[:3]]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.conf["level"],
            "coverage": {
                "states": tot["paths"], "transitions": tot["instrs"],
                "states_meaning": "symbolic paths explored (each stands for all inputs satisfying its path condition)",
                "transitions_meaning": "IR instructions executed symbolically",
                "traces_validated_against_impl": stats["conf_ok"],
                "exhaustive_within_bounds": tot["unsupported"] + tot["truncated"] + tot["deadline"] + tot["undecided"] + tot["qunk"] == 0,
                "totals": tot, "conformance": {k: stats[k] for k in ("conf_ok", "conf_mismatch", "conf_skipped", "conf_values")},
                "notes": stats["notes"][:20], "units": per_unit, "assertions": labels, "functions_encoded": funcs, "lines_encoded": lines,
                "unconfirmed_counterexamples": unconfirmed, "known_findings": [k[0]["id"] for k in known_hit], "missing_witnesses": missing,
                "outside": self.conf.get("outside", ""), "build_s": round(tb, 1), "samples": samples[:8],
            },
            "assumptions": ["doubles are modelled as exact real numbers; rounding and overflow are outside the claim",
                            "inputs beyond the bounds listed per unit are outside the claim",
                            "the toolchain's LLVM IR for -O1 -DNDEBUG without vectorisation stands for the shipped build"] + self.conf.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": len(reported),
        }
        os.makedirs(HERE + "/evidence", exist_ok=True)
        tmp = HERE + "/evidence/.%s.tmp" % self.pid
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, HERE + "/evidence/%s.json" % self.pid)
        for k, label, desc in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for x in unconfirmed:
            print("note: counterexample not reproduced natively: unit=%s label=%s (%d inputs tried)" % (x["unit"], x["label"], x["models_tried"]))
        print("%s %s: paths=%d asserts=%d queries=%d (unsat %d, sat %d, unknown %d) undecided=%d unsupported=%d deadline=%d solver=%.1fs conformance=%d/%d wall=%.1fs" % (
            self.pid, self.tier, tot["paths"], tot["asserts"], tot["queries"], tot["qunsat"], tot["qsat"], tot["qunk"], tot["undecided"], tot["unsupported"] + tot["truncated"],
            tot["deadline"], tot["solver_s"], stats["conf_ok"], stats["conf_ok"] + stats["conf_mismatch"], ev["wall_s"]))
        if reported:
            for label, path, desc in reported:
                print("  %s -- %s" % (label, desc))
            for label, path, desc in reported:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if missing:
            print("no answer: witnesses not reached (vacuous): " + ", ".join(missing))
            return 2
        return 0


def replay(path):
    r = json.load(open(path))
    c = Check(r["property"], r["tier"])
    try:
        u = {u["name"]: u for u in c.units}[r["unit"]]
        d = c.reproduces(u, r["label"], r["inputs"])
        print(("REPRODUCED " + d) if d else "not reproduced")
        return 1 if d else 0
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(sys.argv[1], tier)
    try:
        rc = c.run()
    except Broken as b:
        print("no answer: " + str(b))
        rc = 2
    finally:
        if os.environ.get("KEEP_TMP"):
            print("kept " + c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


main()

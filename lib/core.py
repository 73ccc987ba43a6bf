"""Building harnesses, running scripts, validating traces with TLC, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 8)
PLATFORM = ["-DUPD_PLATFORM_ENDIANESS=LITTLE", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"]
SANITIZE = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class Broken(Exception):
    """The check itself cannot give an answer"""


class Variant:
    """A way of building: language standard, declared platform, sanitizers"""

    def __init__(self, std=11, platform=False, san=False, opt=0, cxx="g++-11"):
        self.std, self.platform, self.san, self.opt, self.cxx = std, platform, san, opt, cxx

    @property
    def name(self):
        return "c%d%s%s%s%s" % (self.std, {False: "", True: "p"}.get(self.platform, "p" + str(self.platform)), "s" if self.san else "",
                                "O%d" % self.opt if self.opt else "", "" if self.cxx == "g++-11" else "_" + self.cxx)

    def flags(self):
        return ["-std=c++%d" % self.std, "-w", "-O%d" % self.opt, "-ftemplate-depth=4000"] + \
            ([x for x in PLATFORM if self.platform is True or self.platform in x] if self.platform else []) + (["-g1"] + SANITIZE if self.san else [])

    def command(self, src, exe, extra=()):
        return [self.cxx] + self.flags() + ["-I%s/harness" % VERIF, "-I%s/include" % REPO] + list(extra) + [src, "-o", exe]


ALL = [Variant(11), Variant(17), Variant(11, True), Variant(17, True)]


def run(cmd, timeout, stdin=None, env=None, cwd=None):
    """(exit status or 'timeout', stdout, stderr)"""
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return "timeout", x.stdout or b"", x.stderr or b""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, ".work", "%s_%s" % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()
        self.states = self.transitions = 0
        self.traces = self.events = self.duplicates = 0
        self.notes, self.samples, self.models, self.actions = [], [], [], {}
        self.violations = []
        self.known = load_known(prop)
        self.extra = {}

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ------------------------------------------------------------ building
    def control(self):
        """The toolchain works: a program which does not use the library builds and runs"""
        with self.lock:
            return self.control1()

    def control1(self):
        src = self.path("control.cpp")
        with open(src, "w") as f:
            f.write('#include "base.hpp"\nint main() { vp::event{"ok"}.end(); }\n')
        for san in (False, True):
            exe = self.path("control")
            c, _, err = run(Variant(17, san=san).command(src, exe), 300)
            if c != 0:
                raise Broken("toolchain: " + err.decode(errors="replace")[-2000:])
            c, out, err = run([exe], 60)
            if c != 0 or out != b'{"e":"ok"}\n':
                raise Broken("toolchain: control program: %s %s" % (c, err.decode(errors="replace")[-2000:]))

    def build(self, src, variant, name, extra=()):
        """Path of the executable, or None after reporting that the program does not compile"""
        exe = self.path("%s.%s" % (name, variant.name))
        cmd = variant.command(src, exe, extra)
        c, _, err = run(cmd, 600)
        if c != 0:
            self.control()
            c, _, err = run(cmd, 600)
            if c == 0:
                return exe
            e = err.decode(errors="replace")
            if "error:" not in e:
                raise Broken("compiler: " + e[-2000:])
            first = [x for x in e.splitlines() if "error" in x][:3]
            self.violation("compile", {"kind": "compile", "source": open(src).read(), "cmd": cmd, "errors": first},
                           "%s does not compile (%s): %s" % (name, variant.name, " | ".join(first)[:600]))
            return None
        return exe

    # ------------------------------------------------------------ executing
    def execute(self, exe, script, timeout=240):
        """Trace text, or (trace, problem)"""
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
        c, out, err = run([exe], timeout, stdin=script.encode(), env=env)
        if c == 0:
            return out, None
        if c == 3 and b"script error" in err:
            raise Broken("harness: " + err.decode(errors="replace"))
        what = "timeout" if c == "timeout" else "exit status %s" % c
        m = re.search(rb"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", err)
        return out, "%s %s" % (what, (m.group(1) if m else err[-300:]).decode(errors="replace"))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g"):
        meta = self.path("meta", hashlib.md5(repr((module, cfg, env, time.time())).encode()).hexdigest()[:10])
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m",
               "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 else 4), "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(VERIF, "spec", cfg)] + list(args) + \
            [os.path.join(VERIF, "spec", module)]
        c, out, err = run(cmd, timeout, env=env, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        out = unwrap(out.decode(errors="replace"))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return c, out, gen, distinct

    def model(self, module, cfg, workers=JOBS, timeout=700, args=(), heap="8g", env=None):
        """Exhaustive check of a small instance of the specification itself"""
        t = time.time()
        c, out, gen, distinct = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap, env=env)
        ok = "Model checking completed. No error has been found." in out or ("-simulate" in args and c in (0, "timeout") and "Error:" not in out)
        if not ok:
            raise Broken("model %s/%s: %s" % (module, cfg, out[-3000:]))
        self.states += distinct
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct": distinct, "generated": gen,
                            "wall_s": round(time.time() - t, 1)})
        return out

    def validate(self, spec, jobs):
        """jobs: list of (keyrings json object, [(section id, trace text)]).  Returns rejected [(job index, section id, messages)]"""
        tasks = []
        for n, (conf, sections) in enumerate(jobs):
            if not sections:
                continue
            total = sum(len(t) for _, t in sections)
            shards = max(1, min(JOBS, total // 400000 + 1))
            groups = [[] for _ in range(shards)]
            sizes = [0] * shards
            for s in sorted(sections, key=lambda s: -len(s[1])):
                k = sizes.index(min(sizes))
                groups[k].append(s)
                sizes[k] += len(s[1])
            for g in groups:
                if g:
                    tasks.append((n, conf, g))
        rejected = []

        def one(task):
            n, conf, group = task
            bad = []
            ident = hashlib.md5(("%s %s %s" % (spec, n, group[0][0])).encode()).hexdigest()[:10]
            cfile = self.path("conf%s.json" % ident)
            with open(cfile, "w") as f:
                json.dump(conf, f)
            while group:
                tfile = self.path("trace%s.ndjson" % ident)
                starts, k = [], 1
                with open(tfile, "wb") as f:
                    for sid, text in group:
                        starts.append((k, sid))
                        f.write(text)
                        k += text.count(b"\n")
                c, out, gen, distinct = self.tlc(spec + ".tla", spec + ".cfg", env={"TRACE": tfile, "KEYRINGS": cfile})
                self.states += distinct
                self.transitions += max(0, gen - 1)
                self.count_actions(out)
                if "Model checking completed. No error has been found." in out and distinct == k:
                    self.traces += len(group)
                    self.events += k - 1
                    break
                m = re.search(r'"REJECTED", (\d+)', out)
                mm = re.findall(r'<<"MISMATCH".*', out)
                if not m or not mm:
                    raise Broken("trace validation of %s (%s): %s" % (tfile, spec, out[-3000:]))
                at = int(m.group(1))
                idx = max(i for i, (s, _) in enumerate(starts) if s <= at)
                bad.append((n, group[idx][0], mm[:4], at - starts[idx][0]))
                self.traces += idx
                if len(bad) >= 3:
                    break
                group = group[idx + 1:]
            return bad

        for r in self.pool.map(one, tasks):
            rejected += r
        return rejected

    def count_actions(self, out):
        pass

    # ------------------------------------------------------------ reporting
    def violation(self, key, replay, text):
        """key: what identifies this failure, for the known findings"""
        for k in self.known:
            if k in text or k in json.dumps(replay):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
                return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s_%d.json" % (self.prop, re.sub(r"\W+", "_", key)[:40], len(self.violations)))
        replay = dict(replay, property=self.prop, text=text)
        with open(p, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((p, text))
        self.log("violation:", text[:1500])

    def finish(self, level, coverage_rule, assumptions):
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": {"states": self.states, "transitions": self.transitions,
                          "traces_validated_against_impl": self.traces, "events_validated": self.events,
                          "identical_traces_of_other_builds": self.duplicates, "models": self.models,
                          "actions": self.actions, "rule": coverage_rule, "samples": self.samples[:6]},
             "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        e["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for p, text in self.violations:
            print(text[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)), flush=True)
        self.log("done: %d traces, %d events, %d states, %d violations" %
                 (self.traces, self.events, self.states, len(self.violations)))
        return 1 if self.violations else 0


def unwrap(out):
    """TLC cuts the long tuples it prints into lines: one line for each again"""
    lines = []
    inside = False
    for l in out.split("\n"):
        if inside:
            lines[-1] += " " + l.strip()
        elif l.startswith("<<"):
            lines.append("<<" + l[2:].lstrip())
        else:
            lines.append(l)
            continue
        t = re.sub(r'"[^"]*"', "", lines[-1])
        inside = t.count("<<") > t.count(">>")
    return "\n".join(lines)


def load_known(prop):
    known = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append(m.group(2))
    except FileNotFoundError:
        pass
    return known


def sections(text):
    """Splits a script into sections starting at `seed` lines"""
    out = []
    for l in text:
        if l.startswith("seed "):
            out.append([])
        out[-1].append(l)
    return ["\n".join(s) + "\n" for s in out]


def split_trace(out, n):
    """Splits a trace at its reset events"""
    parts = out.split(b'{"e":"reset"}\n')
    return [b'{"e":"reset"}\n' + p for p in parts[1:]]


class Campaign:
    """Programs (source x variants), each given a script, whose traces are validated against one specification"""

    def __init__(self, check, spec):
        self.check, self.spec, self.items = check, spec, []

    def add(self, name, source, conf, script, variants, extra=()):
        """conf: JSON for the specification; script: list of lines made of sections"""
        self.items.append((name, source, conf, sections(script), list(variants), list(extra)))

    def run(self):
        ck = self.check
        tasks = []
        for n, (name, source, conf, secs, variants, extra) in enumerate(self.items):
            src = ck.path(name + ".cpp")
            with open(src, "w") as f:
                f.write(source)
            # large programs first
            tasks += [(len(source) * (2 if v.san else 1), n, v, src) for v in variants]
        tasks.sort(key=lambda t: -t[0])

        def work(t):
            _, n, v, src = t
            name, source, conf, secs, variants, extra = self.items[n]
            exe = ck.build(src, v, name, extra)
            if exe is None:
                return n, v, None, [], None
            out, problem = ck.execute(exe, "".join(secs))
            return n, v, exe, split_trace(out, len(secs)), problem

        results = list(ck.pool.map(work, tasks))
        ck.log("built and ran %d programs" % len(tasks))
        jobs, seen, exes = [(conf, []) for _, _, conf, _, _, _ in self.items], {}, {}
        for n, v, exe, traces, problem in sorted(results, key=lambda r: (r[0], r[1].name)):
            if exe is None:
                continue
            name, source, conf, secs, variants, extra = self.items[n]
            exes[n, v.name] = (exe, v)
            if problem:
                self.crashed(n, v, exe, len(traces), problem)
                traces = traces[:-1]
            elif len(traces) != len(secs):
                raise Broken("harness %s: %d traces for %d sections" % (name, len(traces), len(secs)))
            for i, t in enumerate(traces):
                h = (n, i, hashlib.md5(t).digest())
                if h in seen:
                    ck.duplicates += 1
                    continue
                seen[h] = True
                jobs[n][1].append(((n, i, v.name), t))
                for m in re.findall(rb'^\{"e":"(\w+)"', t, re.M):
                    m = m.decode()
                    ck.actions[m] = ck.actions.get(m, 0) + 1
        for conf, ss in jobs[:2]:
            if ss:
                sid, t = ss[len(ss) // 2]
                ck.samples.append({"program": self.items[sid[0]][0], "build": sid[2],
                                   "script": self.items[sid[0]][3][sid[1]].split("\n")[:8],
                                   "trace": [x[:300] for x in t.decode().split("\n")[:8]]})
        ck.log("validating %d traces (%d bytes)" % (sum(len(s) for _, s in jobs), sum(len(t) for _, s in jobs for _, t in s)))
        for n, (n2, i, vn), messages, at in ck.validate(self.spec, jobs):
            if len(ck.violations) >= 8:
                ck.log("more traces are rejected: 8 violations were confirmed, the others are not run again")
                break
            exe, v = exes[n, vn]
            self.confirm(n, i, v, exe, messages, at)
        ck.log("validated")

    def replay_of(self, n, i, v):
        name, source, conf, secs, variants, extra = self.items[n]
        return {"kind": "trace", "spec": self.spec, "name": name, "source": source, "conf": conf, "script": secs[i],
                "variant": vars(v), "extra": extra}

    def crashed(self, n, v, exe, count, problem):
        ck = self.check
        secs = self.items[n][3]
        i = max(0, count - 1)
        # the section alone, else everything up to it
        for script in (secs[i], "".join(secs[:i + 1])):
            for k in range(2):
                out, p2 = ck.execute(exe, script)
                if p2:
                    r = self.replay_of(n, i, v)
                    r["script"] = script
                    ck.violation("crash", r, "%s (%s): %s while executing: %s" %
                                 (self.items[n][0], v.name, p2, last_step(script, out)))
                    return
        ck.control()
        raise Broken("%s (%s) crashed once: %s" % (self.items[n][0], v.name, problem))

    def confirm(self, n, i, v, exe, messages, at):
        ck = self.check
        name, source, conf, secs, variants, extra = self.items[n]
        for script, k in ((secs[i], 0), ("".join(secs[:i + 1]), i), ("".join(secs), i), ("".join(secs), i)):
            out, problem = ck.execute(exe, script)
            if problem:
                r = self.replay_of(n, i, v)
                r["script"] = script
                ck.violation("crash", r, "%s (%s): %s while executing: %s" % (name, v.name, problem, last_step(script, out)))
                return
            tr = split_trace(out, 1)[:k + 1]
            bad = ck.validate(self.spec, [(conf, [(0, tr[-1])])])
            if bad:
                r = self.replay_of(n, i, v)
                r["script"] = script
                r["mismatch"] = bad[0][2]
                r["event"] = tr[-1].decode().split("\n")[max(0, bad[0][3])][:2000]
                ck.violation("trace", r, "%s (%s): %s in event %s" % (name, v.name, bad[0][2][0][:600], r["event"][:600]))
                return
        raise Broken("%s (%s): rejection not repeated: %s" % (name, v.name, messages))


def last_step(script, out):
    lines = [l for l in script.split("\n") if l and not l.startswith("seed")]
    k = out.count(b"\n")
    return (lines[k] if k < len(lines) else lines[-1])[:300]

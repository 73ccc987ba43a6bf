"""C20: the Python bindings against UpdPython.  C21: the asynchronous client against UpdClient.  C23: the import hook
against UpdImport."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import configs as cf
from core import REPO, VERIF, Broken, run, sections, split_trace
from model import Config, ENDIANS, MODES, SCALARS, declarator
from schedules import enumerate_schedules, get, put, rd, rep, script, wr
from scripts import Gen, no_min

PYTHON = "/opt/vp/venv/bin/python"
CXX = "g++-11"
ENV = {"CC": "gcc-11", "CXX": "g++-11", "CCACHE_DISABLE": "1", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
       "PYTHONHASHSEED": "0", "CPPFLAGS": ""}
EVERY = ["status", "used", "out", "loaded", "calls", "args", "counts", "live", "index", "packet", "result"]
u1, u2, u4, u8, s1, s2, s4, s8, b, v, arr = cf.u1, cf.u2, cf.u4, cf.u8, cf.s1, cf.s2, cf.s4, cf.s8, cf.b, cf.v, cf.arr

CONTROL = """#include <pybind11/pybind11.h>
#include <pybind11/functional.h>
#include <pybind11/stl.h>
PYBIND11_MODULE(control, m) { m.def("f", [](int x) { return x + 1; }); }
"""


class Package:
    """A directory with the Python package made from /repo and modules compiled beside it"""

    def __init__(self, ck, name="pkg"):
        self.ck, self.dir = ck, ck.path(name)
        os.makedirs(self.dir)
        pkg = os.path.join(self.dir, "unpadded")
        os.makedirs(pkg)
        src = os.path.join(REPO, "py", "unpadded")
        for root, dirs, files in os.walk(src):
            dirs[:] = [d for d in dirs if d != "include" and d != "__pycache__"]
            for f in files:
                if f.endswith(".py"):
                    to = os.path.join(pkg, os.path.relpath(root, src))
                    os.makedirs(to, exist_ok=True)
                    shutil.copy(os.path.join(root, f), to)
        shutil.copytree(os.path.join(REPO, "include"), os.path.join(pkg, "include"))
        c, out, err = run([PYTHON, "-m", "pybind11", "--includes"], 60)
        c2, out2, err2 = run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"], 60)
        if c or c2:
            raise Broken("python: %s %s" % (err[-1000:], err2[-1000:]))
        self.includes, self.suffix = out.decode().split(), out2.decode().strip()

    def control(self):
        src, exe = os.path.join(self.dir, "control.cpp"), os.path.join(self.dir, "control" + self.suffix)
        with open(src, "w") as f:
            f.write(CONTROL)
        c, _, err = run(self.command(src, exe, []), 300)
        c2, out, err2 = run([PYTHON, "-c", "import control; print(control.f(3))"], 60, env=dict(ENV, PYTHONPATH=self.dir))
        if c or c2 or out != b"4\n":
            raise Broken("python toolchain: %s %s" % (err.decode(errors="replace")[-1000:], err2.decode(errors="replace")[-1000:]))

    def command(self, src, exe, extra):
        return [CXX, "-std=c++17", "-O0", "-w", "-shared", "-fPIC", "-I%s/harness" % VERIF, "-I%s/include" % REPO] + \
            self.includes + list(extra) + [src, "-o", exe]

    def compile(self, src, exe, what, extra=()):
        cmd = self.command(src, exe, extra)
        for k in range(2):
            c, _, err = run(cmd, 600)
            if c == 0:
                return True
            self.ck.control()
            self.control()
        e = err.decode(errors="replace")
        if "error:" not in e:
            raise Broken("compiler: " + e[-1500:])
        first = [x[:400] for x in e.splitlines() if "error" in x][:3]
        self.ck.violation("compile", {"kind": "pycompile", "source": open(src).read(), "name": what, "errors": first},
                          "%s does not compile: %s" % (what, " | ".join(first)[:600]))
        return False

    def details(self):
        return self.compile(os.path.join(REPO, "py", "unpadded", "_details.cpp"),
                            os.path.join(self.dir, "unpadded", "_details" + self.suffix), "_details")

    def module(self, name, source):
        src = os.path.join(self.dir, name + ".src.cpp")
        with open(src, "w") as f:
            f.write(source)
        return self.compile(src, os.path.join(self.dir, name + self.suffix), name)


# ---------------------------------------------------------------------- C20
def module_source(c, name):
    """A Python module exposing the keyring c and a dispatcher made from it"""
    rnd = random.Random("py " + c.name)
    o = ['#include "base.hpp"', "#include <upd/keyring.hpp>", "#include <upd/python.hpp>"]
    w = o.append
    for j, (a, r) in enumerate(c.fns):
        ps = [c.param(t, rnd) for t in a]
        ret = c.cxx(r, rnd)
        decl = ", ".join(declarator(p, "x%d" % k) for k, p in enumerate(ps))
        body = "{ return vp::record<%s>(%s); }" % (ret, ", ".join([str(j), "0"] + ["x%d" % k for k in range(len(ps))]))
        # objects can be exposed as keys, but the library makes no buffered dispatcher from them
        form = rnd.randrange(4) if c.keys_only else 2 + rnd.randrange(2)
        if form == 0:
            w("struct { %s operator()(%s) %s } f%d;" % (ret, decl, body, j))
        elif form == 1:
            w("auto f%d = [](%s) -> %s %s;" % (j, decl, ret, body))
        else:
            w("%s%s f%d(%s) %s" % ("inline " if form == 2 else "", ret, j, decl, body))
    w("constexpr upd::keyring kr{upd::flist<%s>, upd::endianess_h<upd::endianess::%s>{}, upd::signed_mode_h<upd::signed_mode::%s>{}};"
      % (", ".join("f%d" % j for j in range(len(c.fns))), c.en, c.mo))
    w("PYBIND11_MODULE(%s, m) {" % name)
    w('  m.def("_vp_seed", [](unsigned long long s, bool n) { vp::seed(s); vp::no_min = n; vp::arm = 0; vp::invocations.clear(); });')
    w('  m.def("_vp_arm", [](long a) { vp::arm = a; });')
    w('  m.def("_vp_tick", []() { return vp::arm > 0 && --vp::arm == 0; });')
    w('  m.def("_vp_calls", []() { return vp::inv_json(); });')
    w('  upd::py::unpack_keyring(m, kr);' if c.keys_only else '  upd::py::declare_dispatcher(m, "Dispatcher", kr);')
    w("}")
    return "\n".join(o) + "\n"


def py_basic(en, mo, name):
    return Config(name, en, mo, [
        ([], v), ([], s4), ([u1], v), ([s2, b], b), ([arr(3, s2), u8], arr(5, u2)), ([arr(2, arr(2, s4)), s1], arr(3, b)),
        ([s8, u2, s1, b, u4], s2), ([b], u8), ([u1, u1], u1), ([s1], s1), ([s8], s8), ([arr(2, b)], u4)], replies=[1])


def py_tiny(en):
    return Config("pytiny_" + en, en, "TWOS_COMPLEMENT", [([], v), ([u1], u1), ([s2], u2), ([], u4)], replies=[1])


def py_many(n, en):
    rnd = random.Random("pymany")
    fns = [([rnd.choice([u1, s2, b]) for _ in range(rnd.randrange(2))], rnd.choice([v, u1, s2])) for _ in range(n)]
    return Config("pymany", en, "TWOS_COMPLEMENT", fns, replies=[1])


def py_wide(en):
    """Indices of two bytes"""
    fns = [([], v)] * 258
    for j in (0, 1, 2, 3, 127, 128, 254, 255, 256, 257):
        fns[j] = ([u1], s2) if j % 2 else ([s2], u1)
    return Config("pywide", en, "TWOS_COMPLEMENT", fns, hot=[0, 1, 2, 3, 127, 128, 254, 255, 256, 257], replies=[1])


def py_type(rnd):
    m = rnd.random()
    if m < 0.7:
        return rnd.choice(SCALARS)
    t = ("a", rnd.choice((1, 2, 3, 7)), rnd.choice(SCALARS))
    return t if m < 0.93 else ("a", 2, t)


def py_random(seed, k):
    rnd = random.Random("py config %d %d" % (seed, k))
    fns = [([py_type(rnd) for _ in range(rnd.choice((0, 1, 1, 2, 3, 5)))], v if rnd.random() < 0.2 else py_type(rnd))
           for _ in range(rnd.choice((1, 2, 4, 7)))]
    return Config("pyrandom_%d_%d" % (seed, k), rnd.choice(ENDIANS), rnd.choice(MODES), fns, replies=[1])


def without_char(c):
    """`char` is a string of one character in Python: the keyrings exposed use the other types"""
    plain = c.cxx

    def cxx(t, rnd):
        while True:
            s = plain(t, rnd)
            if s != "char" and "<char," not in s:
                return s
    c.cxx = cxx
    c.all_forms, c.keys_only = False, c.name.startswith("pykeys")
    return c


class PyCampaign:
    """Python programs given scripts, whose traces are validated"""

    def __init__(self, ck, spec, driver):
        self.ck, self.spec, self.driver, self.items = ck, spec, driver, []

    def add(self, name, args, conf, script_lines, replay):
        """args: directory and module; replay: what is needed to build the program again"""
        self.items.append((name, args, conf, sections(script_lines), replay))

    def execute(self, n, text):
        name, args, conf, secs, replay = self.items[n]
        cfile = os.path.join(args[0], name + ".conf.json")
        if not os.path.exists(cfile):
            with open(cfile, "w") as f:
                json.dump(conf, f)
        c, out, err = run([PYTHON, os.path.join(VERIF, "harness", self.driver)] + args + [cfile], 300, stdin=text.encode(),
                          env=dict(ENV, PYTHONFAULTHANDLER="1"))
        if c == 0:
            return out, None
        return out, "%s: %s" % ("timeout" if c == "timeout" else "exit status %s" % c, err.decode(errors="replace")[-1500:])

    def run(self):
        ck = self.ck
        jobs = [(conf, []) for _, _, conf, _, _ in self.items]
        results = list(ck.pool.map(lambda n: self.execute(n, "".join(self.items[n][3])), range(len(self.items))))
        for n, (out, problem) in enumerate(results):
            name, args, conf, secs, replay = self.items[n]
            traces = split_trace(out, len(secs))
            if problem:
                self.crashed(n, len(traces), problem)
                traces = traces[:-1]
            elif len(traces) != len(secs) and not (traces and b'"pfail"' in traces[-1]):
                raise Broken("%s: %d traces for %d sections" % (name, len(traces), len(secs)))
            for i, t in enumerate(traces):
                jobs[n][1].append((i, t))
                for m in re.findall(rb'^\{"e":\s?"(\w+)"', t, re.M):
                    ck.actions[m.decode()] = ck.actions.get(m.decode(), 0) + 1
            if traces:
                t = traces[len(traces) // 2]
                ck.samples.append({"program": name, "script": secs[len(traces) // 2].split("\n")[:8],
                                   "trace": [x[:300] for x in t.decode().split("\n")[:8]]})
        ck.log("ran %d programs, validating %d traces" % (len(self.items), sum(len(s) for _, s in jobs)))
        for n, i, messages, at in ck.validate(self.spec, jobs):
            if len(ck.violations) >= 8:
                break
            self.confirm(n, i, messages)
        ck.log("validated")

    def replay_of(self, n, text):
        name, args, conf, secs, replay = self.items[n]
        return {"kind": "python", "spec": self.spec, "driver": self.driver, "name": name, "conf": conf, "script": text, "build": replay}

    def crashed(self, n, count, problem):
        ck = self.ck
        secs = self.items[n][3]
        i = max(0, count - 1)
        for text in (secs[i], "".join(secs[:i + 1])):
            for _ in range(2):
                out, p2 = self.execute(n, text)
                if p2:
                    ck.violation("crash", self.replay_of(n, text), "%s: %s" % (self.items[n][0], p2[:1500]))
                    return
        raise Broken("%s crashed once: %s" % (self.items[n][0], problem))

    def confirm(self, n, i, messages):
        ck = self.ck
        name, args, conf, secs, replay = self.items[n]
        for text, k in ((secs[i], 0), ("".join(secs[:i + 1]), i), ("".join(secs), i)):
            out, problem = self.execute(n, text)
            if problem:
                ck.violation("crash", self.replay_of(n, text), "%s: %s" % (name, problem[:1500]))
                return
            t = split_trace(out, 1)[:k + 1][-1]
            bad = ck.validate(self.spec, [(conf, [(0, t)])])
            if bad:
                r = self.replay_of(n, text)
                r["mismatch"] = bad[0][2]
                r["event"] = t.decode().split("\n")[max(0, bad[0][3])][:2000]
                ck.violation("trace", r, "%s: %s in event %s" % (name, bad[0][2][0][:600], r["event"][:600]))
                return
        raise Broken("%s: rejection not repeated: %s" % (name, messages))


def keys_script(c, rnd, count, n=25):
    g = Gen(c, rnd)
    for _ in range(count):
        g.emit("seed", rnd.randrange(1, 1 << 40), int(no_min(c)))
        g.emit("reset")
        for _ in range(n):
            j = rnd.randrange(len(c.fns))
            if rnd.random() < 0.5:
                g.emit("enc", j)
            else:
                g.w["fault"] = 0.15
                bs = g.ret_bytes(c.rsize(j), False)
                g.emit("dec", j, 0, bs.hex() or "-")
    return g.out


def history_script(c, rnd, count, fault):
    g = Gen(c, rnd, kinds=("double",), pols=("any",), call=0, rep=1.5, fault=fault, ops=28, disps=(1, 2), forms=False)
    for _ in range(count):
        g.section(no_min(c))
    out = []
    alive = []
    for l in g.out:
        w = l.split()
        if w[0] == "seed":
            alive = []
        if alive and rnd.random() < 0.06:
            out.append("bad %s" % rnd.choice(alive))
        out.append(l)
        if w[0] == "new":
            alive.append(w[1])
    # the dispatchers are destroyed at the end of each section, and what they held with them
    final = []
    for sec in sections(out):
        ls = sec.split("\n")[:-1]
        final += ls + ["del %s" % l.split()[1] for l in ls if l.startswith("new ")]
    return final


def c20(ck):
    thorough = ck.tier == "thorough"
    pk = Package(ck)
    seed = ck.seed
    rnd = lambda *a: random.Random("C20 %d %s" % (seed, a))  # noqa: E731
    cs = [py_tiny("LITTLE"), py_tiny("BIG"), py_basic("BIG", "ONES_COMPLEMENT", "pykeys_b"),
          py_basic("LITTLE", "TWOS_COMPLEMENT", "pybasic_l"), py_random(seed, 0)]
    cs.insert(0, py_wide(rnd("wide").choice(ENDIANS)))
    if thorough:
        cs += [py_basic("LITTLE", "SIGNED_MAGNITUDE", "pybasic_s"), py_basic("BIG", "OFFSET_BINARY", "pybasic_o"), py_many(60, "BIG")] + \
            [py_random(seed, k) for k in range(1, 9)]
    cs = [without_char(c) for c in cs]
    todo = [lambda: pk.details()] + [lambda c=c: pk.module(c.name, module_source(c, c.name)) for c in cs]
    ok = list(ck.pool.map(lambda f: f(), todo))
    ck.log("built")
    if not all(ok):
        return RULE20
    ca = PyCampaign(ck, "TracePython", "py_keys.py")
    f = 10 if thorough else 1
    one = [{"d": 1, "kind": "double", "pol": "any"}]
    for c in cs:
        lines = keys_script(c, rnd(c.name, "k"), 12 * f)
        if not c.keys_only:
            lines += history_script(c, rnd(c.name, "h"), 25 * f, 0.0) + \
            history_script(c, rnd(c.name, "f"), 25 * f, 0.2)
        if c.name.startswith("pytiny"):
            # the operations of the binding on the small keyring, every schedule
            x = [1, 5] if c.en == "LITTLE" else [1, 9]
            ops = [put(0), put(1), put(*x), rd(2, 0, 1), put(3), put(9), rd(1, 7, arm=1), get(1), wr(), wr(1), rep(1, 0), rep(2, 7)]
            # nothing is left half received or pending at the end of a schedule
            found = enumerate_schedules(ck, c, "all", 3 if not thorough else 4, one, ops, c.name)
            found += enumerate_schedules(ck, c, "edges", 6, one, ops, c.name + "_e")
            r = rnd(c.name, "s")
            cap = 500 if not thorough else 6000
            if len(found) > cap:
                found = r.sample(found, cap)
            lines += script(found, one, c, r, False, True, int(no_min(c)))
        ca.add(c.name, [pk.dir, c.name], c.json(EVERY), lines, module_source(c, c.name))
    ca.run()
    return RULE20


RULE20 = ("Python modules are compiled from keyrings with unpack_keyring/declare_dispatcher; every encode, decode, index, and every "
          "put/get/read_from/write_to/is_loaded/replace of scripts (all schedules of a small alphabet up to a length enumerated by TLC, and "
          "random histories with failing getters, putters and callbacks, unrepresentable arguments and truncated payloads) is decided by "
          "TLC against UpdPython/UpdDispatcher, with the lifetimes of Python callbacks.")

# ---------------------------------------------------------------------- C21
def integer(x):
    m = abs(x)
    return {"t": "i", "s": int(x < 0), "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}


def good(t, rnd):
    k = t[0]
    if k == "b":
        return {"t": "b", "v": rnd.randrange(2)}
    if k == "a":
        return {"t": "l", "e": [good(t[2], rnd) for _ in range(t[1])]}
    n = 8 * t[1]
    lo, hi = (0, 2 ** n - 1) if k == "u" else (1 - 2 ** (n - 1), 2 ** (n - 1) - 1)
    return integer(rnd.choice((0, 1, lo, hi, rnd.randint(lo, hi), rnd.randint(lo, hi))))


OBJECTS, ERRORS = 18, 12     # of harness/py_client.py


class ClientGen:
    def __init__(self, c, rnd):
        self.c, self.rnd, self.out = c, rnd, []

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def arguments(self, j, wrong):
        r, ts = self.rnd, self.c.fns[j][0]
        a = [good(t, r) for t in ts]
        if wrong:
            if a and r.random() < 0.6:
                k = r.randrange(len(a))    # anything is true or false
                a[k] = {"t": "x"} if ts[k] == b else r.choice(({"t": "x"}, {"t": "n"}, integer(1 << 70), integer(-(1 << 70))))
            elif a and r.random() < 0.5:
                a.pop()
            else:
                a.append(integer(1))
        return a

    def response(self, j):
        r, n = self.rnd, self.c.rsize(j)
        m = r.random()
        if m < 0.55:
            b = [r.choice((0, 1, 127, 128, 255, r.randrange(256))) for _ in range(n)]
            b += [r.randrange(256) for _ in range(r.choice((0, 0, 0, 1, 3)))]
            return {"k": "bytes", "b": b}
        if m < 0.62:
            return {"k": "bytes", "b": [r.randrange(256) for _ in range(r.randint(0, n))]}
        if m < 0.85:
            return {"k": "obj", "id": r.randrange(OBJECTS)}
        return {"k": "err", "id": 1000 + r.randrange(500)}

    def start(self):
        self.emit("seed", 1, 0)
        self.emit("reset")

    def section(self, ops, most):
        r = self.rnd
        self.start()
        new, sent, answered, fn, n = [], [], [], {}, 0
        settled = True
        for _ in range(ops):
            m = r.random()
            if m < 0.35 and len(new) + len(sent) < most:
                n += 1
                j = r.randrange(len(self.c.fns))
                cl = 0 if r.random() < 0.05 else r.randint(1, 4)
                wrong = cl and r.random() < 0.1
                how = "raise" if r.random() < 0.08 else "wait"
                self.emit("acall", n, cl, j, how, json.dumps(self.arguments(j, wrong), separators=(",", ":")))
                new.append((n, wrong or not cl or how == "raise"))
                fn[n], settled = j, False
            elif m < 0.7 and sent:
                c = sent.pop(r.randrange(len(sent)))
                self.emit("answer", c, json.dumps(self.response(fn[c]), separators=(",", ":")))
                settled = False
            elif m < 0.75 and (sent or new):
                k = r.randrange(len(sent) + len(new))
                if k < len(sent):
                    c = sent.pop(k)
                else:
                    c = new.pop(k - len(sent))[0]
                self.emit("cancel", c)
                settled = False
            elif m < 0.8 and settled:
                self.emit("elapse")
            else:
                self.emit("run")
                sent += [c for c, ends in new if not ends]
                new, settled = [], True
        self.emit("run")
        self.emit("elapse")


def client_schedules(ck, c, mode, depth, calls, answers, name):
    kf, sf = ck.path("ck_%s.json" % name), ck.path("cs_%s.json" % name)
    json.dump(c.json([]), open(kf, "w"))
    json.dump(dict(mode=mode, depth=depth, calls=calls, answers=answers), open(sf, "w"))
    c_, out, gen, distinct = ck.tlc("MCClient.tla", "MCClient.cfg", env={"KEYRINGS": kf, "SCHEDULE": sf}, timeout=600,
                                    workers=4 if mode == "check" else 1)
    if "Model checking completed. No error has been found." not in out:
        raise Broken("MCClient %s: %s" % (name, out[-2000:]))
    ck.states += distinct
    ck.transitions += gen
    found = sorted(set(re.findall(r'<<"SCHEDULE", (<<.*>>)\s*>>', out)))
    ck.models.append({"module": "MCClient", "config": name, "mode": mode, "depth": depth, "distinct": distinct, "generated": gen,
                      "schedules": len(found)})
    return [[tuple(map(int, x)) for x in re.findall(r"<<(\d+), (\d+), (\d+)>>", s)] for s in found]


def client_script(g, schedules, calls, answers):
    """After each schedule, what is outstanding is answered in reverse order"""
    for s in schedules:
        g.start()
        open_ = []
        for op, x, y in s:
            if op == 1:
                p = calls[x - 1]
                g.emit("acall", p["c"], p["cl"], p["j"], p["how"], json.dumps(p["a"], separators=(",", ":")))
                if p["cl"] and p["how"] == "wait" and not p.get("wrong"):
                    open_.append((p["c"], p["j"]))
            elif op == 2:
                g.emit("answer", x, json.dumps(answers[y - 1], separators=(",", ":")))
                open_ = [o for o in open_ if o[0] != x]
            elif op == 3:
                g.emit("cancel", x)
                open_ = [o for o in open_ if o[0] != x]
            else:
                g.emit("run")
        g.emit("run")
        for c, j in reversed(open_):
            g.emit("answer", c, json.dumps(g.response(j), separators=(",", ":")))
        g.emit("run")
        g.emit("elapse")


def c21(ck):
    thorough = ck.tier == "thorough"
    seed = ck.seed
    rnd = lambda *a: random.Random("C21 %d %s" % (seed, a))  # noqa: E731
    pk = Package(ck)
    tiny = without_char(py_tiny("LITTLE"))
    wide = without_char(Config("pyclient", "BIG", "TWOS_COMPLEMENT", [
        ([], v), ([u1], u1), ([s4, b], s8), ([arr(3, s2)], arr(4, u2)), ([], b), ([u8], v), ([s1, s2], u4), ([b], arr(2, b))], replies=[1]))
    if not all(ck.pool.map(lambda f: f(), [pk.details, lambda: pk.module(wide.name, module_source(wide, wide.name))])):
        return RULE21
    ca = PyCampaign(ck, "TraceClient", "py_client.py")
    value = lambda x: {"t": "i", "s": 0, "m": [x]}  # noqa: E731
    calls = [dict(c=1, cl=1, j=1, a=[value(5)], how="wait"), dict(c=2, cl=2, j=3, a=[], how="wait"),
             dict(c=3, cl=1, j=2, a=[value(9)], how="wait"), dict(c=4, cl=3, j=0, a=[], how="wait")]
    mixed = [dict(c=1, cl=1, j=1, a=[value(5)], how="wait"), dict(c=2, cl=1, j=2, a=[value(1)], how="raise"),
             dict(c=3, cl=0, j=3, a=[], how="wait"), dict(c=4, cl=2, j=1, a=[{"t": "x"}], how="wait", wrong=1)]
    answers = [{"k": "bytes", "b": [7, 1, 2, 3]}, {"k": "obj", "id": 0}, {"k": "bytes", "b": []}, {"k": "err", "id": 1000}]
    few = answers[:1] + [{"k": "bytes", "b": [200]}]
    plans = [("check", 12 if thorough else 9, calls, answers, "check"), ("check", 12 if thorough else 9, mixed, answers, "check_mixed"),
             ("edges", 9, calls[:3], answers, "edges"), ("edges", 8, mixed, answers[:2], "edges_mixed"),
             ("all", 8 if thorough else 7, calls[:3], few[:1], "all")]
    found = list(ck.pool.map(lambda p: client_schedules(ck, tiny, *p), plans))
    ck.log("%s schedules" % [len(f) for f in found])
    g = ClientGen(tiny, rnd("schedules"))
    cap = 20000 if thorough else 1500
    for f, (_, _, cs, an, _) in zip(found, plans):
        client_script(g, f if len(f) <= cap else rnd("cap").sample(f, cap), cs, an)
    ca.add("-tiny", [pk.dir, "-tiny"], tiny.json(EVERY), g.out, None)
    k = 10 if thorough else 1
    for name, c in (("-tiny2", tiny), (wide.name, wide), ("-wide", wide)):
        g = ClientGen(c, rnd(name))
        for _ in range(150 * k):
            g.section(rnd(name, len(g.out)).choice((8, 20, 40)), 6)
        for _ in range(6 * k):
            g.section(300, 40)
        ca.add(name, [pk.dir, name], c.json(EVERY), g.out, None if name.startswith("-") else module_source(c, c.name))
    ca.run()
    return RULE21


RULE21 = ("Concurrent calls through unpadded.Client subclasses (futures, coroutines, other awaitables) on an event loop whose time is "
          "controlled: schedules enumerated by TLC from UpdClient (every order of calls, answers of each kind, failures and cancellations "
          "up to a length) and random ones; every request and outcome is decided by TLC.")

# ---------------------------------------------------------------------- C23
def cpp(m, v, mark=1, how="ok", needs=""):
    return dict(op="cpp", m=m, v=v, mark=mark, how=how, needs=needs)


def py(m, v, how="ok", needs=""):
    return dict(op="py", m=m, v=v, how=how, needs=needs)


def imp(m):
    return dict(op="imp", m=m)


PROC = dict(op="proc")


def hdr(h):
    return dict(op="hdr", h=h)


def extra(h):
    return dict(op="extra", h=h)


def delart(m):
    return dict(op="delart", m=m)


def corrupt(m):
    return dict(op="corrupt", m=m)


def import_schedules(ck, mode, depth, ops, name, simulate=0, seed=0, guard="spec"):
    sf = ck.path("is_%s.json" % name)
    json.dump(dict(mode=mode, depth=depth, ops=ops, guard=guard, shadow={"ma2": "ma"}), open(sf, "w"))
    args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(seed)] if simulate else []
    c, out, gen, distinct = ck.tlc("MCImport.tla", "MCImport.cfg", env={"SCHEDULE": sf}, timeout=600, args=args,
                                   workers=4 if mode == "check" else 1)
    ok = "Model checking completed. No error has been found." in out or (simulate and c == 0 and "Error:" not in out)
    if not ok:
        raise Broken("MCImport %s: %s" % (name, out[-2000:]))
    ck.states += distinct
    ck.transitions += gen
    found = sorted(set(re.findall(r'<<"SCHEDULE", <<([\d, ]+)>>\s*>>', out)))
    ck.models.append({"module": "MCImport", "config": name, "mode": "simulate" if simulate else mode, "depth": depth,
                      "operations": len(ops), "distinct": distinct, "generated": gen, "schedules": len(found)})
    return [[ops[int(k) - 1] for k in s.split(", ")] for s in found]


def import_line(o):
    if o["op"] == "cpp":
        return "cpp %s %d %d %s %s" % (o["m"], o["v"], o["mark"], o["how"], o["needs"] or "-")
    if o["op"] == "py":
        return "py %s %d %s %s" % (o["m"], o["v"], o["how"], o["needs"] or "-")
    if o["op"] in ("hdr", "extra"):
        return "%s %d" % (o["op"], o["h"])
    if o["op"] == "proc":
        return "proc"
    return "%s %s" % (o["op"], o["m"])


def trimmed(s):
    """Without what follows the last import"""
    k = max((i for i, o in enumerate(s) if o["op"] == "imp"), default=-1)
    return s[:k + 1]


def weight(s):
    return sum(1 for o in s if o["op"] == "imp")


def c23(ck):
    thorough = ck.tier == "thorough"
    seed = ck.seed
    rnd = random.Random("C23 %d" % seed)
    pk = Package(ck)
    ab = [cpp("ma", 1), cpp("ma", 2), cpp("ma", 3, how="broken"), cpp("ma", 0), imp("ma"), PROC]
    nested = [cpp("ma", 1, needs="mb"), cpp("mb", 1), cpp("mb", 2), py("mb", 1), cpp("mb", 0), imp("ma"), imp("mb"), PROC]
    mixed = [cpp("ma", 1), cpp("ma", 2, mark=0), py("ma", 1), py("ma", 0), cpp("ma", 3, how="raises"), cpp("ma", 0), imp("ma"), PROC,
             corrupt("ma"), delart("ma"), hdr(2)]
    wide = [cpp("ma", v) for v in (1, 2)] + [cpp("ma", 4, how=h) for h in ("broken", "raises", "dies", "extra")] + \
        [cpp("ma", 5, needs="mb"), cpp("ma", 6, mark=0), cpp("ma", 0), py("ma", 1), py("ma", 2, needs="mb"), py("ma", 3, how="dies"), py("ma", 0),
         cpp("mb", 1), cpp("mb", 2, needs="mc"), cpp("mb", 3, how="broken"), cpp("mb", 4, mark=0), cpp("mb", 0), py("mb", 1), py("mb", 2, needs="mc"),
         py("mb", 0), cpp("mc", 1), cpp("mc", 2), py("mc", 1), cpp("mc", 3, how="broken"), hdr(1), hdr(2), extra(0), extra(1), extra(2),
         corrupt("ma"), corrupt("mb"), delart("ma"), delart("mb")] + [PROC] * 3 + [imp("ma")] * 5 + [imp("mb")] * 3 + [imp("mc")] * 2 + [imp("md")]
    # modules of the same last name, one of which may need the other
    twins = [cpp("ma", 1, needs="ma2"), cpp("ma", 2), cpp("ma", 0), cpp("ma2", 3), cpp("ma2", 4, how="broken"), py("ma2", 6),
             py("ma2", 0), cpp("ma2", 0), py("ma", 7), imp("ma"), imp("ma2"), PROC]
    wide += [cpp("ma", 7, needs="ma2"), cpp("ma2", 1), cpp("ma2", 2, needs="mb"), py("ma2", 1), cpp("ma2", 3, how="broken"), cpp("ma2", 0), imp("ma2"), imp("ma2")]
    big = 1 if not thorough else 8
    plans = [("check", 7 if not thorough else 9, nested, "check_nested"), ("check", 6 if not thorough else 8, mixed, "check_mixed"),
             ("check", 6 if not thorough else 8, twins, "check_twins"),
             ("edges", 6, ab, "edges"), ("edges", 7, nested, "edges_nested"), ("edges", 6, mixed, "edges_mixed"),
             ("all", 4, ab, "all"), ("all", 9, twins, "random_twins", 25 * big, seed + 2), ("all", 16, wide, "random", 50 * big, seed), ("all", 30, wide, "random_long", 12 * big, seed + 1)]
    todo = [pk.details] + [lambda p=p: import_schedules(ck, *p) for p in plans]
    res = list(ck.pool.map(lambda f: f(), todo))
    if not res[0]:
        return RULE23
    found = []
    for f, p in zip(res[1:], plans):
        f = [s for s in map(trimmed, f) if s]
        seen, u = set(), []
        for s in f:
            k = json.dumps(s)
            if k not in seen:
                seen.add(k)
                u.append(s)
        cap = {"edges": 50, "edges_nested": 80, "edges_mixed": 80, "all": 40}.get(p[3], 100) * (12 if thorough else 1)
        if len(u) > cap:
            u = rnd.sample(u, cap)
        ck.log("%s: %d schedules of %d" % (p[3], len(u), len(f)))
        found += u
    found.append([cpp("ma", 1, how="real"), imp("ma")] + ([PROC, cpp("ma", 2, how="real"), imp("ma")] if thorough else []))
    found.sort(key=lambda s: -weight(s) - 20 * any(o.get("how") == "real" for o in s))
    ca = PyCampaign(ck, "TraceImport", "py_import.py")
    chunks = [[] for _ in range(8)]
    load = [0] * 8
    for s in found:
        k = load.index(min(load))
        chunks[k].append(s)
        load[k] += weight(s) + 0.2 + 20 * any(o.get("how") == "real" for o in s)
    for k, chunk in enumerate(chunks):
        rnd.shuffle(chunk)
        lines = []
        for s in chunk:
            lines += ["seed 1 %d" % rnd.randrange(3), "reset"] + [import_line(o) for o in s]
        mine, area = ck.path("pkg%d" % k), ck.path("area%d" % k)
        shutil.copytree(pk.dir, mine)
        os.makedirs(area)
        ca.add("imports%d" % k, [mine, area], {}, lines, None)
    ca.run()
    ck.extra["imports"] = ck.actions.get("imp", 0)
    return RULE23


RULE23 = ("Histories of edits of C++ and Python sources, headers and stale extension modules, of processes and imports, generated by TLC from "
          "UpdImport (transitions of small alphabets, all short histories, random walks of a wide one), are played with the real hook in scratch "
          "directories; TLC decides the result of each import.  The hook's algorithm (UpdHook) is checked against UpdImport by TLC.")

CHECKS = {"C20": c20, "C21": c21, "C23": c23}
ASSUME = {"C20": ["gcc 11, Python 3.12 and pybind11 2.11 as installed", "`char` parameters (strings for pybind11) are not exposed",
                  "callbacks are functions or objects at namespace scope, as the name extraction requires"],
          "C21": ["CPython 3.12's asyncio", "responses which are instances of subclasses of bytes, and bytearrays, are left out"],
          "C23": ["CPython 3.12, cppimport 26.4 and setuptools as installed", "one process and one thread import at a time",
                  "modules are imported once per process (no reload); an extension module whose initialization failed stays open in its process"]}
NOTES = {}


def replay(ck, r):
    pk = Package(ck)
    if r["kind"] == "pycompile":
        return 0 if pk.module(r["name"], r["source"]) else 1
    pk.details()
    ca = PyCampaign(ck, r["spec"], r["driver"])
    if r["build"] is not None:
        pk.module(r["name"], r["build"])
    area = ck.path("area")
    os.makedirs(area)
    ca.add(r["name"], [pk.dir, area if r["spec"] == "TraceImport" else r["name"]], r["conf"], r["script"].split("\n")[:-1], r["build"])
    ca.run()
    for p, text in ck.violations:
        print(text)
    return 1 if ck.violations else 0

"""C17: callers and callees connected by two byte channels, validated against UpdRpc."""
import json
import random
import re
import configs as cf
from checks_disp import ASSUME as DISP_ASSUME, C11, C17, C11P, C17P, C11S, C17S, limits
from core import Broken, Campaign, Variant
from scripts import no_min

O2 = Variant(17, opt=2)
WATCH = ["calls", "args", "value", "answered"]
CALL_FORMS = (0, 1, 2, 3, 7, 8, 10, 11, 12, 14, 16, 18, 31, 32, 33, 34, 35, 36, 40, 41, 42)
READ_FORMS = (0, 1, 2, 7, 8, 10, 11)       # those whose consumption is known
SEND_FORMS = (1, 2, 3, 7, 8, 10, 11, 12, 14, 15)
SERVE_FORMS = (0, 1, 2, 3, 4, 9, 12, 15, 16, 17, 18)


class Sim:
    """Lengths and positions: what the generator needs to keep scripts within what UpdRpc allows"""

    def __init__(self, c, kind):
        self.c, self.plain, self.single = c, kind == "plain", kind in ("single", "cust1")
        self.up = []          # items (function or None, bytes left)
        self.pending = 0      # response bytes held by the callee
        self.down = 0
        self.calls = []       # calls not taken
        self.started = False  # the first item of up was partly received

    def length(self, j):
        return self.c.iw + self.c.asize(j) if j is not None else self.c.iw

    def avail(self):
        return sum(n for _, n in self.up)

    def room(self):
        """How many bytes can be received before a request would complete while a response is waiting"""
        n, pend = 0, self.pending
        for j, left in self.up:
            if self.single and pend:
                return n
            if j is not None and pend:
                return n + left - 1
            n += left
            if j is not None:
                pend = self.c.rsize(j)
        return n

    def feed(self, n):
        while n:
            j, left = self.up[0]
            k = min(n, left)
            n -= k
            if k < left:
                self.up[0] = (j, left - k)
                self.started = True
            else:
                self.up.pop(0)
                self.started = False
                if j is not None:
                    self.pending = self.c.rsize(j)

    def flush(self, n):
        k = min(n, self.pending)
        self.pending -= k
        self.down += k

    def can_take(self):
        return self.calls and self.down >= self.c.rsize(self.calls[0])

    def take(self):
        j = self.calls.pop(0)
        self.down -= self.c.rsize(j)
        return j


class Gen:
    def __init__(self, c, rnd, forms=True):
        self.c, self.rnd, self.out = c, rnd, []
        self.all = forms and c.all_forms
        self.hooks = {}
        for h, (j, r) in enumerate(c.hooks):
            self.hooks.setdefault(j, []).append(h)

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def form(self, fs):
        return self.rnd.choice(fs) if self.all else self.rnd.choice([f for f in fs if f in (0, 2)] or [fs[0]])

    def call(self, s, j):
        self.emit("rcall", j, self.form(CALL_FORMS))
        s.up.append((j, s.length(j)))
        s.calls.append(j)

    def stray(self, s):
        top, n, r = 256 ** self.c.iw, len(self.c.fns), self.rnd
        if n >= top:
            return
        x = r.choice((n, top - 1, r.randrange(n, top)))
        self.emit("rstray", x.to_bytes(self.c.iw, self.c.en.lower()).hex())
        s.up.append((None, self.c.iw))

    def feed(self, s, n):
        self.emit("rfeed", n, self.form((0,) + READ_FORMS))
        s.feed(n)

    def flush(self, s, n):
        if n >= s.pending and self.rnd.random() < 0.5:
            n = s.pending
            self.emit("rflush", n, self.form(SEND_FORMS))
        else:
            self.emit("rflush", n, 0)
        s.flush(n)

    def serve(self, s):
        j, n = s.up[0]
        self.emit("rserve", self.form(SERVE_FORMS))
        s.feed(n)
        if j is not None:
            s.flush(s.pending)

    def take(self, s):
        j = s.take()
        if j in self.hooks and self.rnd.random() < 0.3:
            self.emit("rhook", self.rnd.choice(self.hooks[j]), self.rnd.randrange(2))
        else:
            self.emit("rtake", j, self.form(READ_FORMS))

    def drain(self, s):
        """Everything is delivered: every call must be answered"""
        while s.up or s.pending:
            if s.pending:
                self.flush(s, s.pending)
            elif s.plain:
                self.serve(s)
            else:
                self.feed(s, max(1, min(s.room(), s.up[0][1])))
        while s.can_take():
            self.take(s)
        assert not s.calls and not s.down

    def start(self, kind, pol):
        self.emit("seed", self.rnd.randrange(1, 1 << 40), int(no_min(self.c)))
        self.emit("reset")
        self.emit("new", 1, kind, pol, self.rnd.randrange(3))
        return Sim(self.c, kind)

    def section(self, kind, pol, calls=10, burst=12):
        r = self.rnd
        s = self.start(kind, pol)
        left = calls
        window = r.choice((1, 1, 2, 3, 8))
        while left or s.calls:
            ops = []
            if left and len(s.calls) < window:
                ops += ["call"] * 3
            if r.random() < 0.1:
                ops.append("stray")
            if s.up and s.plain:
                ops += ["serve"] * 3
            elif s.up and s.room():
                ops += ["feed"] * 6
                if not s.pending and r.random() < 0.3:
                    ops += ["serve"]
            if s.pending:
                ops += ["flush"] * 4
            if s.can_take():
                ops += ["take"] * 3
            if r.random() < 0.05 and not s.plain:
                ops.append("move")
            if r.random() < 0.05:
                ops.append("rep")
            if not ops:
                continue
            op = r.choice(ops)
            if op == "call":
                left -= 1
                self.call(s, r.choice(self.c.hot))
            elif op == "stray":
                self.stray(s)
            elif op == "serve":
                self.serve(s)
            elif op == "feed":
                n = r.choice((r.randint(1, burst), s.up[0][1], s.up[0][1] - 1, s.room()))
                self.feed(s, max(1, min(n, s.room())))
            elif op == "flush":
                self.flush(s, r.choice((1, r.randint(1, s.pending), s.pending)))
            elif op == "take":
                self.take(s)
            elif op == "move":
                self.emit("mv", 1, 1, 0)
            elif op == "rep":
                self.emit("rep", 1, r.choice(self.c.hot), r.randrange(17))
        self.drain(s)

    def schedule(self, ops, kind, pol):
        """A schedule enumerated by TLC, then everything which is left is delivered"""
        s = self.start(kind, pol)
        for o in ops:
            op = o["op"]
            if op == "call":
                self.call(s, o["j"])
            elif op == "stray":
                self.emit("rstray", bytes(o["w"]).hex())
                s.up.append((None, self.c.iw))
            elif op == "feed":
                self.feed(s, o["n"])
            elif op == "flush":
                self.flush(s, o["n"])
            elif op == "serve":
                self.serve(s)
            elif op == "take":
                self.take(s)
            elif op == "move":
                self.emit("mv", 1, 1, 0)
        self.drain(s)


def enumerate_schedules(ck, c, name, **plan):
    kf, sf = ck.path("rk_%s.json" % name), ck.path("rs_%s.json" % name)
    json.dump(c.json([]), open(kf, "w"))
    json.dump(plan, open(sf, "w"))
    _, out, gen, distinct = ck.tlc("MCRpcSchedule.tla", "MCRpcSchedule.cfg", env={"KEYRINGS": kf, "SCHEDULE": sf}, timeout=700)
    if "Model checking completed. No error has been found." not in out:
        raise Broken("MCRpcSchedule %s: %s" % (name, out[-2000:]))
    found = sorted(set(re.findall(r'<<"SCHEDULE", <<([\d, ]+)>>\s*>>', out)))
    ck.states += distinct
    ck.transitions += gen
    ck.models.append({"module": "MCRpcSchedule", "config": name, "mode": plan["mode"], "depth": plan["depth"], "distinct": distinct,
                      "generated": gen, "schedules": len(found)})
    return [[plan["ops"][int(k) - 1] for k in s.split(", ")] for s in found]


REAL = {"plain": ["plain"], "single": ["single", "cust1"], "double": ["double", "cust2"]}


def c17(ck):
    deep = ck.tier == "thorough"
    for k in ("double", "single", "plain"):
        ck.model("MCRpc.tla", "MCRpc_%s%s.cfg" % (k, "_deep" if deep else ""))
    rnd = random.Random("C17 %d" % ck.seed)
    ca = Campaign(ck, "TraceRpc")
    # every transition of the conversations of a small keyring
    t = cf.tiny()
    ops = [dict(op="call", j=j) for j in (0, 1, 2, 3)] + [dict(op="stray", w=[9])] + [dict(op="feed", n=n) for n in (1, 2, 3)] + \
        [dict(op="flush", n=n) for n in (1, 2)] + [dict(op="take"), dict(op="serve")]
    plans = []
    for kind in ("double", "single", "plain"):
        plans.append((kind, "edges", 40, 3 if deep else 2, 1, ops + [dict(op="move")]))
    plans.append(("double", "all", 8 if deep else 7, 2, 0, [o for o in ops if o.get("j", 1) in (1, 3) and o.get("n", 1) == 1]))
    found = list(ck.pool.map(lambda p: enumerate_schedules(ck, t, "%s_%s" % (p[0], p[1]), kind=p[0], mode=p[1], depth=p[2], calls=p[3],
                                                           strays=p[4], ops=p[5]), plans))
    lines = []
    for (kind, mode, *_), ss in zip(plans, found):
        cap = 30000 if deep else 2500
        if len(ss) > cap:
            ss = rnd.sample(ss, cap)
        g = Gen(t, rnd)
        for s in ss:
            g.schedule(s, rnd.choice(REAL[kind]), rnd.choice(("any", "weak")))
        lines += g.out
        ck.log("%s %s: %d schedules" % (kind, mode, len(ss)))
    ca.add("rpc_tiny", t.source(), t.json(WATCH), lines, [C11, C17S] if deep else [C17])
    # random conversations of richer keyrings
    pool = [C11, C17P, C17S, C11P, C17, C11S, O2]
    cs = [cf.basic(), cf.basic("LITTLE", "SIGNED_MAGNITUDE"), cf.basic("BIG", "OFFSET_BINARY"), cf.many(256, "BIG"), cf.no_args(),
          cf.only_void(), cf.args_larger(), cf.results_larger(), cf.handles()]
    cs += [cf.random_config(ck.seed + 700, k) for k in range(12 if deep else 3)]
    for k, c in enumerate(cs):
        g = Gen(c, random.Random("C17 %d %s" % (ck.seed, c.name)))
        heavy = c.max_args() + c.max_ret() > 600
        kinds = ("plain", "single", "double", "cust1", "cust2") if deep else [("plain", "double"), ("single", "double"), ("cust2", "cust1")][k % 3]
        for n in range((400 if deep else 50) // (4 if heavy else 1)):
            g.section(kinds[n % len(kinds)], ("any", "weak")[n // len(kinds) % 2], calls=6 if heavy else 12, burst=200 if heavy else 8)
        ca.add("rpc_" + c.name, c.source(), c.json(WATCH), g.out, pool[:4] if deep else [pool[k % len(pool)]],
               limits(kinds, ("any", "weak")))
    # conversations of many calls, calls of many bytes
    t = cf.tiny("BIG")
    g = Gen(t, random.Random("C17 long %d" % ck.seed))
    for kind in ("double", "single", "plain"):
        g.section(kind, rnd.choice(("any", "weak")), calls=700)
    ca.add("rpc_long", t.source(), t.json(WATCH), g.out, [C17] if not deep else [C11, C17S])
    t = cf.huge()
    g = Gen(t, random.Random("C17 huge %d" % ck.seed))
    for kind in ("double", "single"):
        g.section(kind, rnd.choice(("any", "weak")), calls=5, burst=40000)
    ca.add("rpc_huge", t.source(), t.json(WATCH), g.out, [C11], limits(("double", "single"), ("any", "weak")))
    ca.run()
    return ("every transition of small conversations (calls, stray packets, every cut and interleaving of both channels), random "
            "conversations of richer keyrings with pipelining, relocation and replacement; all end with every call answered")


CHECKS = {"C17": c17}
ASSUME = DISP_ASSUME + ["the callee sends a response before the request after it completes; callbacks do not fail"]

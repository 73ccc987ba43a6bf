"""Checks which exercise keys, actions and dispatchers: each drives the real code with scripts and schedules made for its
property, and has TLC decide whether what was recorded is a behaviour of UpdDispatcher."""
import os
import random
import configs as cf
from core import ALL, VERIF, Campaign, Variant
from schedules import act, call, cp, enumerate_schedules, get, mv, put, rd, rep, reply, script, wr
import scripts
from scripts import Gen, no_min

SPEC = "TraceDispatcher"
C11, C17, C11P, C17P = ALL
C11S, C17S = Variant(11, san=True), Variant(17, True, san=True)
EVERY = ["status", "used", "out", "loaded", "calls", "args", "counts", "guard", "live", "index", "reply", "packet",
         "result", "sizes"]
STREAM = ["status", "used", "out", "loaded", "calls", "args", "guard"]
BUFFERED = ("double", "cust2", "single", "cust1")
KINDS = {"plain": 1, "single": 2, "double": 4, "cust1": 8, "cust2": 16}


def limits(kinds=None, pols=None):
    """Flags which leave out the dispatchers a program does not use"""
    f = []
    if kinds:
        f.append("-DVP_KINDS=%d" % sum(KINDS[k] for k in set(kinds)))
    if pols:
        f.append("-DVP_POLICIES=%d" % sum({"any": 1, "weak": 2}[p] for p in pols))
    return f


def big(c):
    return c.max_args() + c.max_ret() > 600


class Plan:
    """A campaign over keyrings, with the amount of exploration of the tier"""

    def __init__(self, ck, watch):
        self.ck, self.watch = ck, watch
        self.campaign = Campaign(ck, SPEC)
        self.thorough = ck.tier == "thorough"
        self.factor = 8 if self.thorough else 1
        self.i = 0

    def rnd(self, *a):
        return random.Random("%s %d %s" % (self.ck.prop, self.ck.seed, a))

    def variants(self, *pool):
        """Quick: the variants take turns; thorough: all of them"""
        if self.thorough:
            return list(pool)
        self.i += 1
        return [pool[self.i % len(pool)]]

    def add(self, c, variants, sections=0, keys=0, holding=0, sizes=False, keyargs=None, extra=None, lines=(), limit=True, **w):
        g = Gen(c, self.rnd(c.name), **w)
        g.out += list(lines)
        many = 4 if big(c) else 1
        for _ in range(max(1, sections * self.factor // many) if sections else 0):
            g.section(no_min(c))
        for _ in range(max(1, keys * self.factor // many) if keys else 0):
            g.keys(25, no_min(c), **(keyargs or {}))
        for _ in range(max(1, holding * self.factor // many) if holding else 0):
            g.holding(30, no_min(c))
        if sizes:
            g.sizes()
        ex = list(extra or [])
        if limit:
            ex += limits(w.get("kinds"), w.get("pols"))
        self.campaign.add(c.name, c.source(), c.json(self.watch), g.out, variants, ex)

    def schedules(self, c, variants, plans, name, forms=True, kinds=None, pols=None, probe=True, cap=None):
        """plans: [(mode, depth, new, ops)]"""
        lines, rnd = [], self.rnd("schedules", name)
        found = self.ck.pool.map(lambda k: enumerate_schedules(self.ck, c, *plans[k], "%s_%d" % (name, k)), range(len(plans)))
        for s, (mode, depth, new, ops) in zip(found, plans):
            if cap and len(s) > cap:
                s = rnd.sample(s, cap)
            lines += script(s, new, c, rnd, forms and c.all_forms, probe, int(no_min(c)), kinds, pols)
        self.ck.log("%s: %d lines of schedules" % (name, len(lines)))
        self.campaign.add(name, c.source(), c.json(self.watch), lines, variants)

    def huge(self, variants=None, kinds=("double", "single")):
        """Requests and responses of more bytes than 16 bits can count"""
        c, rnd, lines = cf.huge(), self.rnd("huge"), []

        def some(n):
            return rnd.randbytes(n).hex()
        for kind in kinds:
            new = ["seed %d 0" % rnd.randrange(1, 1 << 30), "reset", "new 1 %s %s 0" % (kind, rnd.choice(("any", "weak")))]
            # a response retrieved in pieces which end around 2^16
            cut = rnd.choice((65535, 65536, 65537))
            lines += new + ["put 1 0105 0", "get 1 3", "get 1 %d" % (cut - 3), "get 1 2", "wr 1 0 0", "put 1 0305 0", "wr 1 0 0"]
            lines += new + ["put 1 0105 0", "wr 1 0 %d" % rnd.randrange(65530, 65540), "wr 1 0 0", "wr 1 0 0", "put 1 02 0", "wr 1 0 0"]
            lines += new + ["put 1 0107 0", "reply 1 0 0", "reply 1 1 0", "wr 1 0 0", "put 1 03ff 0", "wr 1 0 0"]
            # a request received in pieces
            cut = rnd.choice((65534, 65535, 65536, 65537))
            lines += new + ["put 1 00%s 0" % some(cut - 1), "rd 1 0 %s 0" % some(3), "put 1 %s 0" % some(70000 - cut - 5),
                            "rd 1 0 %s 0" % some(12), "wr 1 0 0", "call 1 0 0309 0 0"]
            lines += new + ["call 1 0 00%s 0 0" % some(70001), "call 1 2 0108 0 0", "put 1 03 0", "put 1 02 0", "wr 1 2 0"]
        self.campaign.add("huge_steps", c.source(), c.json(self.watch), lines, variants or self.variants(C11, C17), limits(kinds))

    def long(self, variants=None, **w):
        """Histories of more requests than 8 bits can count"""
        c = cf.tiny("BIG")
        self.add(c, variants or self.variants(C17, C11), **dict(dict(sections=3, ops=1300, disps=(1, 1), kinds=("double", "single"), put=8), **w))

    def randoms(self, n):
        return [cf.random_config(self.ck.seed, k) for k in range(n * (5 if self.thorough else 1))]

    def run(self):
        self.campaign.run()


def dispatchers(kind, pol="any", n=1):
    return [dict(d=i + 1, kind=kind, pol=pol) for i in range(n)]


SAME = {"double": ["double", "cust2"], "single": ["single", "cust1"]}
ASSUME = ["callbacks, sources and sinks do not use the dispatcher which is calling them",
          "the compilers (g++ 11, -O0), the C++ library and TLC are trusted",
          "a pending response is retrieved before a single-buffered dispatcher receives more bytes"]


def models(ck, *names):
    if "replace" in names:
        ck.model("MCActions.tla", "MCActions.cfg" if ck.tier == "thorough" else "MCActions_two.cfg")
    for n in names:
        ck.model("MCDispatcher.tla", "MCDispatcher_%s.cfg" % n)


# ---------------------------------------------------------------------------------------------------------- properties
def c05(ck):
    p = Plan(ck, ["packet", "sizes", "status", "guard"])
    fixed = [cf.basic(), cf.basic("LITTLE", "SIGNED_MAGNITUDE"), cf.basic("BIG", "OFFSET_BINARY"), cf.args_larger(),
             cf.many(255, "BIG"), cf.many(256, "BIG"), cf.many(257, "LITTLE"), cf.handles("BIG")]
    if p.thorough:
        fixed += [cf.basic(e, m) for e in cf.ENDIANS for m in cf.MODES] + [cf.many(254, "LITTLE"), cf.many(400, "BIG"), cf.huge()]
    for c in {c.name: c for c in fixed + p.randoms(3)}.values():
        lines = ["seed 1 1", "reset"] + ["ksize %d" % j for j in c.hot]
        if c.all_forms:
            lines += ["enc %d %d 0" % (j, f) for j in c.hot for f in scripts.ENCODES]
        p.add(c, p.variants(C11, C17, C17P, C11P) if not big(c) else p.variants(C11, C17), keys=14, keyargs=dict(dec=0, hook=0), forms=True,
              lines=lines, kinds=("double",), pols=("weak",))
    c = cf.huge()
    p.campaign.add("huge_packets", c.source(), c.json(p.watch), ["seed 8 0", "reset"] + ["ksize %d" % j for j in c.hot] +
                   ["enc %d %d 0" % (j, f) for j in c.hot for f in (0, 2)], p.variants(C11, C17), limits(("double",), ("weak",)))
    p.run()
    return "packets of every hot function of every keyring, in every output form, with boundary and random arguments"


def c06(ck):
    p = Plan(ck, ["status", "used", "out", "calls", "args", "counts", "index", "guard", "live"])
    fixed = [cf.basic(), cf.tiny(), cf.no_args(), cf.many(256, "BIG"), cf.many(255, "LITTLE"), cf.many(300, "LITTLE"), cf.only_void(),
             cf.args_larger()]
    for c in fixed + p.randoms(4):
        lines = []
        if c.iw == 1:   # every one-byte index
            lines = ["seed 5 %d" % no_min(c), "reset", "new 1 plain any 0"]
            for x in range(256):
                a = bytes(range(60)) * (1 + c.max_args() // 60)
                lines += ["disp 1 0 %02x%s 0 0" % (x, a[:c.max_args() + 2].hex()), "idx 1 %02x05" % x]
        else:
            lines = ["seed 5 %d" % no_min(c), "reset", "new 1 plain weak 0"]
            for x in list(range(0, 700)) + [255 * 256, 256 * 255 + 1, 65535, 0x8000, 0x0101, 0x4000]:
                lines += ["disp 1 0 %s%s 0 0" % (x.to_bytes(2, c.en.lower()).hex(), "07" * (c.max_args() + 2)),
                          "idx 1 %s05" % x.to_bytes(2, c.en.lower()).hex()]
        p.add(c, p.variants(C11, C17, C17S, C11P), sections=40, kinds=("plain",), act=3, rep=2, mv=1, cp=1, forms=True, fault=0.1,
              disps=(1, 2), lines=lines)
    p.run()
    return "every index byte, then random histories of plain dispatchers (requests, lookups, actions, replacements)"


def stream_ops(c):
    """The bytes of short schedules: every index, an invalid one"""
    return sorted(set(c.hot) | {len(c.fns), 255})


def c07(ck):
    models(ck, "double", "single")
    p = Plan(ck, ["status", "used", "loaded", "guard"])
    t = cf.tiny()
    ops = [put(x) for x in (0, 1, 2, 3, 9)] + [rd(1), rd(2, 0), rd(2, 1, 1), rd(9, 3), rd(0, 0), wr()]
    plans = [("edges", 60, dispatchers(k), ops) for k in ("double", "single")]
    plans += [("all", 5 if p.thorough else 4, dispatchers("double"), [put(x) for x in (0, 1, 2, 9)] + [rd(2, 1, 0), wr()])]
    p.schedules(t, p.variants(C11, C17), plans, "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    m = cf.many(256, "BIG")
    ops = [put(0), put(1), put(2), put(255), rd(0, 1, 1), rd(1, 0, 0), rd(255, 255), wr()]
    p.schedules(m, p.variants(C11), [("edges", 60, dispatchers("double"), ops)], "many_schedules", probe=False, cap=4000)
    for c in [cf.basic(), cf.only_void(), cf.lone_empty(), cf.many(255, "BIG"), cf.many(300, "LITTLE"), cf.args_larger(), cf.no_args(),
              cf.huge()][:8 if p.thorough else 7] + p.randoms(3):
        p.add(c, p.variants(C11, C17, C17P), sections=40, kinds=BUFFERED if p.thorough else ("double", "single"), invalid=0.3, put=8, rd=6,
              get=1, wr=2, call=3, mv=0, reply=1, act=0.5, rep=0.5)
    p.huge()
    p.long()
    p.run()
    return "every transition of the framing state machine of small keyrings, all short schedules, random streams cut anywhere"


def c08(ck):
    models(ck, "double", "single")
    p = Plan(ck, ["calls", "args", "counts", "guard"])
    t = cf.tiny()
    ops = [put(x) for x in (0, 1, 2, 3, 9)] + [put(1, 1, 1), rd(2, 1, 1), put(2, 2, 2, 2), call(3), wr(), rep(1, 1), rep(0, 2)]
    p.schedules(t, p.variants(C11), [("edges", 60, dispatchers("double"), ops), ("edges", 60, dispatchers("single"), ops)],
                "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    for c in [cf.basic(), cf.basic("LITTLE", "SIGNED_MAGNITUDE"), cf.one(), cf.args_larger(), cf.many(256, "BIG"), cf.handles("BIG"),
              cf.only_void()] + p.randoms(4):
        p.add(c, p.variants(C17, C11, C11P), sections=40, rep=1, act=0.5, reply=1, call=4, kinds=BUFFERED if p.thorough else ("double", "single"),
              invalid=0.15)
    p.huge()
    p.long(rep=0.1)
    p.run()
    return "every transition of small keyrings, random streams of valid and invalid packets cut anywhere, results and arguments random"


def c09(ck):
    models(ck, "double", "single")
    p = Plan(ck, ["out", "loaded", "status", "guard"])
    t = cf.tiny()
    ops = [put(x) for x in (0, 1, 2, 3, 9)] + [rd(3), rd(2, 1, 1), get(), get(2), wr(), wr(1), wr(2), call(3), call(0), call(9)]
    plans = [("edges", 60, dispatchers(k), ops) for k in ("double", "single")]
    plans += [("all", 5 if p.thorough else 4, dispatchers("double"), [put(3), put(9), put(0), get(), wr(1), wr()])]
    p.schedules(t, p.variants(C11, C17), plans, "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    for c in [cf.basic(), cf.results_larger(), cf.no_args(), cf.only_void(), cf.basic("LITTLE", "OFFSET_BINARY"), cf.wide_index()] + p.randoms(4):
        p.add(c, p.variants(C17, C11, C17P), sections=40, get=8, wr=3, call=4, reply=1, act=0.5, kinds=BUFFERED, fault=0.05)
    p.huge()
    p.long(get=8)
    p.run()
    return "every transition of small keyrings with byte-wise and failing retrievals, random histories with responses of 0 to 300 bytes"


def c10(ck):
    models(ck, "double")
    p = Plan(ck, STREAM)
    t = cf.tiny()
    ops = [put(x) for x in (1, 2, 3, 9)] + [put(2, 1), rd(3), rd(1), get(), wr(1), wr(), reply(1), reply(4)]
    plans = [("edges", 60, dispatchers("double"), ops),
             ("all", 6 if p.thorough else 5, dispatchers("double"), [put(3), put(1), put(9), get(), wr(1)])]
    p.schedules(t, p.variants(C11, C17), plans, "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    for c in [cf.basic(), cf.results_larger(), cf.args_larger(), cf.no_args(), cf.many(256, "BIG")] + p.randoms(4):
        p.add(c, p.variants(C17, C11), sections=50, get=10, wr=4, put=10, rd=6, call=1, reply=2, act=1, rep=1, kinds=("double", "cust2"), burst=(1, 4),
              ops=45, big=0.1)
    p.huge()
    p.long(get=10, wr=2, call=0, kinds=("double", "cust2"))
    p.run()
    return "all short interleavings of receptions and retrievals, random longer ones, on double-buffered dispatchers"


def c11(ck):
    models(ck, "double", "single")
    p = Plan(ck, ["guard", "out", "args", "calls", "used", "reply"])
    fixed = [cf.basic(), cf.results_larger(), cf.args_larger(), cf.no_args(), cf.only_void(), cf.many(256, "BIG"), cf.one(), cf.handles()]
    if p.thorough:
        fixed += [cf.huge(), cf.many(255, "BIG"), cf.lone_empty(), cf.tiny(), cf.basic("LITTLE", "SIGNED_MAGNITUDE")]
    for k, c in enumerate(fixed + p.randoms(3)):
        # pseudo-random garbage, then histories
        rnd = p.rnd("garbage", c.name)
        lines = []
        for kind in ("double", "cust2", "single", "cust1"):
            lines += ["seed %d %d" % (rnd.randrange(1, 1 << 30), no_min(c)), "reset", "new 1 %s any 0" % kind]
            for _ in range(30):
                n = rnd.choice((1, 3, 20, 60))
                b = bytes(rnd.choice((rnd.getrandbits(8), rnd.randrange(len(c.fns)) % 256, 0, 255)) for _ in range(n))
                if kind in ("double", "cust2"):
                    lines += ["put 1 %s 0" % b.hex(), "get 1 %d" % rnd.randrange(1, 5)]
                else:
                    for x in b:
                        lines += ["put 1 %02x 0" % x, "wr 1 0 0"]
        p.add(c, [C17S] if k % 2 else [C11S], sections=25, fault=0.15, reply=1, act=1, rep=1, mv=1, get=5, forms=k % 3 == 0, lines=lines,
              big=0.2, kinds=BUFFERED)
    p.huge([C17S], BUFFERED)
    p.run()
    return "arbitrary byte streams and histories on buffers surrounded by guard zones, under AddressSanitizer and UBSan"


def c12(ck):
    models(ck, "replace")
    p = Plan(ck, ["calls", "args", "counts", "live", "status", "out", "guard"])
    t = cf.tiny()
    for pol in ("any", "weak"):
        ops = [put(x) for x in (0, 1, 2)] + [wr(), rep(1, 1), rep(1, 4), rep(2, 7), act(1, 5), mv(1, 2), mv(2, 1), put(1, 1, d=2)]
        lines = [("edges", 60, dispatchers("double", pol), ops)]
        lines += [("all", 4, dispatchers("double", pol),
                   [put(1), put(2, 7, 7), wr()] + [rep(1, f) for f in (range(17) if p.thorough else (0, 3, 5, 7, 10, 11, 16))])]
        p.schedules(t, p.variants(C11, C17S), lines, "tiny_schedules_" + pol, kinds=SAME)
    for c in [cf.basic(), cf.many(255, "LITTLE"), cf.wide_index(), cf.only_void(), cf.one(), cf.no_args()] + p.randoms(3):
        # the form of C++17 takes the index through a template of its own
        p.add(c, [C11S, C17] if c.name.startswith("wide_index") else p.variants(C17S, C11, C17, C11S), sections=40, rep=8, act=3, mv=1, cp=1, held=6, holding=4,
              kinds=BUFFERED + ("plain",) if p.thorough else ("double", "single", "plain"), call=4)
    p.run()
    return "replacements in every form at every point of short schedules, random histories with functors, moves and copies"


def c13(ck):
    models(ck, "reloc")
    p = Plan(ck, EVERY)
    t = cf.tiny()
    for kind, pol in (("double", "any"), ("double", "weak"), ("single", "any"), ("single", "weak")):
        one = [put(x) for x in (1, 2, 3)] + [get(), wr(), rep(1, 3)]
        moves = [dict(mv(1, 2), how=0), dict(mv(2, 1), how=0)]
        if pol == "weak":
            moves += [dict(cp(1, 2), how=0)]
        ops = one + moves + [put(1, d=2), put(2, d=2), get(d=2)]
        two = [put(2), put(3), put(2, d=2), put(3, d=2), get(), get(d=2), dict(mv(1, 2), how=1), dict(mv(2, 1), how=1)]
        if pol == "weak":
            two += [dict(cp(1, 2), how=1), dict(cp(2, 1), how=1)]
        else:
            two += [dict(mv(1, 3), how=0), dict(mv(3, 1), how=0)]
        p.schedules(t, p.variants(C11, C17, C17S, C11S),
                    [("edges", 60, dispatchers(kind, pol), ops), ("edges", 60, dispatchers(kind, pol, 2), two),
                     ("all", 5 if p.thorough else 4, dispatchers(kind, pol), [put(2), put(3), get()] + moves + [put(1, d=2)])],
                    "tiny_%s_%s" % (kind, pol), forms=False, kinds=SAME, cap=20000 if p.thorough else 1000)
    w = cf.wide()
    ops = [put(0), put(1, 7), put(1, 7, 8), put(9, 10, 11), put(2), get(), wr(), dict(mv(1, 2), how=0), dict(mv(2, 1), how=0), put(1, 2, 3, d=2),
           put(4, 5, d=2)]
    p.schedules(w, p.variants(C11, C17), [("edges", 60, dispatchers(k), ops) for k in ("single", "double")], "wide_schedules", forms=False,
                kinds=SAME, pols=("any", "weak"), cap=3000)
    for c in [cf.basic(), cf.results_larger(), cf.args_larger(), cf.many(256, "BIG")] + p.randoms(3):
        p.add(c, p.variants(C17S, C11, C17, C11S), sections=40, mv=6, cp=4, rep=2, get=5, disps=(2, 4), act=1, held=3,
              kinds=BUFFERED + ("plain",))
    p.run()
    return "moves, copies and assignments between every two operations of short schedules, random histories with several objects"


def c14(ck):
    models(ck, "double", "single")
    p = Plan(ck, ["reply", "loaded", "out", "guard", "calls", "status"])
    t = cf.tiny()
    ops = [put(x) for x in (0, 3, 9)] + [put(1, 1), put(2, 1, 1), get(), wr(), wr(1)] + [reply(j) for j in range(5)] + [reply(2, lim=1), reply(4, lim=3)]
    plans = [("edges", 60, dispatchers(k), ops) for k in ("double", "single")]
    plans += [("all", 4, dispatchers("double"), [put(3), put(1, 1), get(), wr(1), reply(2), reply(3), reply(4)])]
    p.schedules(t, p.variants(C11, C17), plans, "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    for c in [cf.basic(), cf.results_larger(), cf.no_args(), cf.only_void(), cf.one(), cf.lone_empty(), cf.wide_index("LITTLE")] + p.randoms(4):
        p.add(c, p.variants(C17S, C11, C17, C11S), sections=50, reply=10, get=2, wr=1, call=0, rd=8, put=4, forms=True, big=0.5, fault=0.1,
              kinds=BUFFERED)
    p.run()
    return "replies with buffers smaller than, equal to and larger than every response, at every point of short schedules"


def c15(ck):
    p = Plan(ck, EVERY)
    confs = [cf.basic(), cf.tiny(), cf.results_larger(), cf.wide_index()] + p.randoms(1)
    if p.thorough:
        confs += [cf.only_void(), cf.args_larger(), cf.many(256, "BIG"), cf.basic("LITTLE", "SIGNED_MAGNITUDE"), cf.no_args()]
    programs = 0
    for c in confs:
        # the same history for every kind and policy
        lines = []
        n = (8 if big(c) else 14) * (3 if p.thorough else 1)
        for k in range(n):
            g = Gen(c, p.rnd(c.name, k), forms=k % 2 == 1, kinds=("single",), pols=("weak",), disps=(1, 1), rep=1, call=3, get=3,
                    act=1, asize=1, mv=1, fault=0.05 if k % 3 == 0 else 0)
            g.section(no_min(c))
            for kind in BUFFERED:
                for pol in ("any", "weak"):
                    lines += [l.replace(" single weak ", " %s %s " % (kind, pol)) for l in g.out]
        for k in range(4):
            g = Gen(c, p.rnd(c.name, "plain", k), kinds=("plain",), pols=("any",), disps=(1, 1), rep=1, act=1)
            g.section(no_min(c))
            lines += g.out + [l.replace(" plain any ", " plain weak ") for l in g.out]
            # whole packets: what a plain dispatcher does, a buffered one does
            g = Gen(c, p.rnd(c.name, "packets", k))
            seed = p.rnd(c.name, "seed", k).randrange(1, 1 << 40)
            packets = [g.packet() for _ in range(20)]
            for kind in BUFFERED + ("plain",):
                lines += ["seed %d %d" % (seed, no_min(c)), "reset", "new 1 %s any 0" % kind]
                lines += ["%s 1 0 %s 0 0" % ("disp" if kind == "plain" else "call", b.hex()) for b in packets]
        g = Gen(c, p.rnd(c.name, "keys"), forms=True)
        for _ in range(4):
            g.keys(25, no_min(c))
        g.sizes()
        # a small keyring: also with only one half of the platform declared
        builds = ALL + ([Variant(17, "ENDIANESS"), Variant(11, "SIGNED_MODE")] if p.thorough or c.name.startswith("tiny") else [])
        p.campaign.add(c.name, c.source(), c.json(EVERY), lines + g.out, builds, [os.path.join(VERIF, "harness", "other.cpp")])
        programs += len(builds)
    p.run()
    ck.extra["programs"] = programs
    ck.extra["disagreements_checked"] = ck.traces + ck.duplicates
    return "the same histories for every buffering, policy, standard and platform declaration, each decided by the same specification"


def c16(ck):
    p = Plan(ck, EVERY)
    confs = [cf.basic(), cf.tiny(), cf.results_larger(), cf.args_larger(), cf.no_args(), cf.wide_index("LITTLE")]
    for k, c in enumerate(confs + p.randoms(2)):
        # every form with the same bytes, for each operation
        rnd, lines = p.rnd("forms", c.name), []
        for kind in ("double", "single", "cust2"):
            for j in list(c.hot)[:6]:
                if c.asize(j) + c.rsize(j) > 320:
                    continue
                req = j.to_bytes(c.iw, c.en.lower()) + bytes(rnd.getrandbits(8) for _ in range(c.asize(j)))
                for f in range(scripts.READS):
                    lines += ["seed 77 %d" % no_min(c), "reset", "new 1 %s any 0" % kind, "rd 1 %d %s 0" % (f, (req + b"\x05\x06").hex()),
                              "wr 1 %d 0" % (f % scripts.WRITES)]
                for f in range(scripts.PAIRS):
                    lines += ["seed 77 %d" % no_min(c), "reset", "new 1 %s weak 0" % kind, "call 1 %d %s 0 0" % (f, (req + b"\x05\x06").hex()),
                              "act 1 %d %d %s 0 0" % (j, f, (req[1:] + b"\x05").hex()),
                              "act 1 %d %d %s 0 0" % (j, f + 64, (req[1:] + b"\x05").hex())]
        for j in list(c.hot)[:8]:
            lines += ["seed 79 %d" % no_min(c), "reset"]
            lines += ["enc %d %d 0" % (j, f) for f in scripts.ENCODES]
            b = bytes(rnd.getrandbits(8) for _ in range(c.rsize(j)))
            lines += ["dec %d %d %s" % (j, f, (b + b"\x05").hex()) for f in range(scripts.READS)]
        p.add(c, p.variants(C11, C17, C17S, C11P), sections=30, keys=4, holding=2, forms=True, act=4, reply=1, rd=6, wr=5, call=6,
              kinds=("plain", "single", "double", "cust2"), lines=lines)
    p.run()
    return "every stream form of every operation on the same bytes, and random mixtures of forms within one history"


def c18(ck):
    models(ck, "double", "single")
    p = Plan(ck, STREAM + ["reply"])
    t = cf.tiny()
    ops = [put(1, 1), put(1, 1, arm=1), put(3, arm=1), put(3), put(2), put(0, arm=1), rd(2, 1), rd(3, arm=1), rd(1), call(3, lim=1),
           call(3, lim=3), call(2, 1, 1, lim=2), call(3, arm=1), get(), wr(1), wr(2), wr(), reply(2, lim=1), reply(2, lim=3), reply(3)]
    plans = [("edges", 60, dispatchers(k), ops) for k in ("double", "single")]
    plans += [("all", 5 if p.thorough else 4, dispatchers("double"), [put(3, arm=1), put(3), put(2), rd(1), wr(1), call(3, lim=2)])]
    p.schedules(t, p.variants(C11, C17S), plans, "tiny_schedules", kinds=SAME, pols=("any", "weak"))
    for c in [cf.basic(), cf.no_args(), cf.results_larger(), cf.only_void(), cf.args_larger(), cf.many(256, "BIG"), cf.wide_index("LITTLE")] + p.randoms(3):
        p.add(c, p.variants(C17S, C11S, C17, C11), sections=50, fault=0.4, act=1, rep=1, call=6, wr=5, reply=2, forms=True,
              kinds=BUFFERED if p.thorough else ("double", "single", "cust1"))
    p.run()
    return "a callback, source or sink failing at every point of short schedules and at random points of long ones"


def c19(ck):
    p = Plan(ck, ["sizes", "packet", "guard", "used", "out"])
    fixed = [cf.basic(), cf.basic("LITTLE", "TWOS_COMPLEMENT"), cf.tiny(), cf.only_void(), cf.no_args(), cf.one(), cf.lone_empty(),
             cf.results_larger(), cf.args_larger(), cf.many(255, "BIG"), cf.many(256, "LITTLE"), cf.handles()]
    if p.thorough:
        fixed += [cf.huge(), cf.many(400, "BIG")] + [cf.basic(e, m) for e in cf.ENDIANS for m in cf.MODES[:2]]
    for c in {c.name: c for c in fixed + p.randoms(6)}.values():
        p.add(c, p.variants(C11, C17, C17P, C11P), sections=6, keys=2, sizes=True, asize=3, rep=1, act=1,
              kinds=("plain", "single", "double") if len(c.fns) < 20 else ("single", "double"), limit=True)
    c = cf.huge()
    g = Gen(c, p.rnd("huge"), kinds=("double", "single"))
    g.sizes()
    p.campaign.add("huge_sizes", c.source(), c.json(p.watch), g.out, p.variants(C11, C17), limits(("double", "single")))
    p.run()
    return "advertised sizes of keyrings, keys, actions (of every index, before and after replacement) and buffers, against the bytes exchanged"


def c22(ck):
    p = Plan(ck, ["result", "used", "calls", "args", "out", "status", "sizes", "live", "guard"])
    fixed = [cf.basic(), cf.basic("LITTLE", "SIGNED_MAGNITUDE"), cf.tiny(), cf.one(), cf.results_larger(), cf.basic("BIG", "OFFSET_BINARY"), cf.handles("BIG", "OFFSET_BINARY"),
             cf.wide_index("LITTLE", "SIGNED_MAGNITUDE")]
    if p.thorough:
        fixed += [cf.basic(e, m) for e in cf.ENDIANS for m in cf.MODES]
    for c in {c.name: c for c in fixed + p.randoms(4)}.values():
        lines = ["seed 3 %d" % no_min(c), "reset"]
        for h in range(len(c.hooks)):
            n = c.rsize(c.hooks[h][0])
            for form in range(7):
                for pat in (0, 1, 0x7f, 0x80, 0xff):
                    lines.append("hook %d %d 0 %s 0 0" % (h, form, (bytes([pat]) * n + b"\x11").hex()))
        for j in c.hot:
            for pat in (0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff):
                lines.append("dec %d 0 %s" % (j, (bytes([pat]) * c.rsize(j) + b"\x11").hex()))
        p.add(c, p.variants(C11, C17, C17S, C11P), keys=24, holding=12, forms=True, fault=0.1, keyargs=dict(enc=0, dec=2, hook=3), lines=lines,
              kinds=("double",), pols=("weak",))
    c, rnd = cf.huge(), p.rnd("huge")
    p.campaign.add("huge_responses", c.source(), c.json(p.watch), ["seed 8 0", "reset"] +
                   ["dec 1 %d %s" % (f, rnd.randbytes(66000 + x).hex()) for f, x in ((0, 5), (2, 0))] +
                   ["dec 2 0 010203", "dec 3 2 ff"], p.variants(C11, C17), limits(("double",), ("weak",)))
    p.run()
    return "responses made of boundary and random bytes decoded in every form, directly and through owning and non-owning hooks"


CHECKS = {"C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14,
          "C15": c15, "C16": c16, "C18": c18, "C19": c19, "C22": c22}

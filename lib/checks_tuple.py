"""Checks of the wire format, of tuples and of views: scripts drive the real code, TLC decides whether what was recorded is a
behaviour of UpdTuple / UpdCodec."""
import random
import tuples as tp
from configs import rand_type
from core import ALL, Campaign, Variant

C11, C17, C11P, C17P = ALL
C11S, C17S, C17PS, C11PS = Variant(11, san=True), Variant(17, san=True), Variant(17, True, True), Variant(11, True, True)
O2, CLANG = Variant(17, opt=2), Variant(17, True, cxx="clang++")
DEBUG = ["-D_GLIBCXX_DEBUG"]
ASSUME = ["values which a mode cannot express (the minimum in signed magnitude and ones' complement) are not written",
          "assignment between different tuple and view types is made from non-const rvalues, the only form the library accepts",
          "the compilers, the C++ library and TLC are trusted"]


def programs(ck, n):
    ps = [tp.basic_program(), tp.matrix_program(0), tp.matrix_program(1)]
    return ps + [tp.random_program(ck.seed, k) for k in range(n * (5 if ck.tier == "thorough" else 1))]


def scalars(ck, op, watch):
    ck.model("MCUpdCodec.tla", "MCUpdCodec.cfg")
    deep = ck.tier == "thorough"
    ca = Campaign(ck, "TraceTuple")
    p = tp.Program("scalars", [("BIG", "TWOS_COMPLEMENT", [("u", 1)])])
    everything = range(len(tp.SCALAR_TYPES))
    # the last two declare only one half of the platform
    variants = [C11, C17, C11P, C17P, C17S, C17PS, O2, CLANG, Variant(11, "ENDIANESS"), Variant(17, "SIGNED_MODE")] + ([C11S, C11PS, Variant(11, True, opt=2), Variant(17, opt=3)] if deep else [])
    ca.add("scalars", p.source(), p.json(watch),
           tp.scalar_script(random.Random("scalars %s %d" % (ck.prop, ck.seed)), op, everything, wide=1500 if deep else 400,
                            exhaustive16=(4, 5, 12) if deep else (4, 5)), variants)
    # the same in tuples of every kind
    for k, q in enumerate(programs(ck, 1)):
        g = tp.Gen(q, random.Random("%s %d %s" % (ck.prop, ck.seed, q.name)))
        for _ in range(80 if deep else 25):
            g.section(kinds=("ptr", "list", "rec"))
        ca.add(q.name, q.source(False), q.json(watch), g.out, [(C11, C17P, C17S, C11P)[k % 4]])
    ca.run()


def c01(ck):
    scalars(ck, "enc", ["encoding", "mem", "content", "sizes"])
    return ("every 8-bit value of every type in both orders, all modes and 5 places in tuples and views, every 16-bit value, boundary and "
            "random 32- and 64-bit values, under builds with and without a declared platform, then whole tuples")


def c02(ck):
    scalars(ck, "dec", ["decoding", "value"])
    return ("every byte (pair) sequence for 8-bit (16-bit) types in both orders, all modes and 5 places in tuples and views, boundary and "
            "random bytes for 32- and 64-bit types, under sanitizers and builds with and without a declared platform, then whole tuples")


def c03(ck):
    ck.model("MCTuple.tla", "MCTuple.cfg")
    deep = ck.tier == "thorough"
    ca = Campaign(ck, "TraceTuple")
    for k, p in enumerate(programs(ck, 4)):
        g = tp.Gen(p, random.Random("%s %d %s" % (ck.prop, ck.seed, p.name)))
        for _ in range(600 if deep else 60):
            g.section(ops=25, views=False, weights=dict(slice=1, copy=3, tuple=2, assign=4))
        for _ in range(100 if deep else 10):
            g.section(kinds=("ptr",), weights=dict(slice=0))
        vs = [C11, C17P, C17S, C11P, C17, C11S]
        ca.add(p.name, p.source(False), p.json(["mem", "value", "calls", "sizes", "content"]), g.out, vs if deep else [vs[k % 6]])
    ca.run()
    return "random layouts (arrays, nested and heap-backed user types), every operation in every form, storage observed after each"


def c04(ck):
    ck.model("MCTuple.tla", "MCTuple.cfg")
    deep = ck.tier == "thorough"
    ca = Campaign(ck, "TraceTuple")
    for k, p in enumerate(programs(ck, 4)):
        g = tp.Gen(p, random.Random("%s %d %s" % (ck.prop, ck.seed, p.name)))
        for _ in range(600 if deep else 50):
            g.section(ops=25, tuples=False, weights=dict(poke=4, region=1.2))
        for _ in range(400 if deep else 40):
            g.section(ops=25, weights=dict(slice=5, copy=0.5))
        vs = [C17S, C11S, C17PS, C11]
        ca.add(p.name, p.source(False), p.json(["mem", "access", "value", "calls", "sizes", "content"]), g.out,
               vs if deep else [vs[k % 4]], DEBUG if k % 2 else [])
    ca.run()
    return ("views on pointers at every alignment, lists, deques, forward lists and checking iterators, overlapping views, slices of "
            "tuples; exactly fitting allocations under sanitizers and checked iterators")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}

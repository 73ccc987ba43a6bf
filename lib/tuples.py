"""Programs and scripts about tuples, views and integers."""
import random
from configs import rand_type, USERS
from model import Config, ENDIANS, MODES, SCALARS

SCALAR_TYPES = [("bool", "b", 1), ("unsigned char", "u", 1), ("signed char", "s", 1), ("char", "s", 1), ("unsigned short", "u", 2),
                ("short", "s", 2), ("unsigned int", "u", 4), ("int", "s", 4), ("unsigned long", "u", 8), ("long", "s", 8),
                ("unsigned long long", "u", 8), ("long long", "s", 8), ("char16_t", "u", 2), ("char32_t", "u", 4), ("wchar_t", "s", 4)]
KINDS = ["ptr", "cptr", "rec", "vec", "deq", "list", "fwd"]
SHORT_OF = {"SIGNED_MAGNITUDE": 0, "ONES_COMPLEMENT": 1, "TWOS_COMPLEMENT": 2, "OFFSET_BINARY": 3}


class Program:
    """Layouts: [(en, mo, [types])]"""

    def __init__(self, name, layouts, users=(), slices=8):
        self.name, self.layouts = name, layouts
        self.c = Config(name, "BIG", "TWOS_COMPLEMENT", [([], ("v",))], users=users)
        rnd = random.Random("slices " + name)
        self.slices = []
        for en, mo, ts in layouts:
            all_s = [(i, l) for i in range(len(ts)) for l in range(1, len(ts) - i + 1)]
            if not ts:
                all_s = []
            self.slices.append(sorted(rnd.sample(all_s, min(slices, len(all_s)))))

    def sizes(self, k):
        return [self.c.size(t) for t in self.layouts[k][2]]

    def carray(self, k):
        return any(t[0] == "c" for t in self.layouts[k][2])

    def no_min(self, k):
        return int(self.layouts[k][1] in ("SIGNED_MAGNITUDE", "ONES_COMPLEMENT"))

    def json(self, watch):
        return {"layouts": [{"en": en, "mo": mo, "t": [self.c.desc(t) for t in ts]} for en, mo, ts in self.layouts],
                "watch": sorted(watch)}

    def source(self, scalars=True):
        rnd = random.Random("cxx " + self.name)
        src = self.c.source().split("namespace cfg {")[0]
        o = [src, '#include "tuple.hpp"', "namespace vp {"]
        for k, (en, mo, ts) in enumerate(self.layouts):
            cs = ["%s[%d]" % (self.c.cxx(t[2], rnd), t[1]) if t[0] == "c" else self.c.cxx(t, rnd) for t in ts]
            o.append("template<> struct layout<%d> { using types = list<%s>;" % (k, ", ".join(cs)))
            o.append("  static constexpr upd::endianess en = upd::endianess::%s;" % en)
            o.append("  static constexpr upd::signed_mode mo = upd::signed_mode::%s;" % mo)
            o.append("  using slices = ints<%s>; };" % ", ".join(str(100 * i + l) for i, l in self.slices[k]))
        o.append("using layouts_t = ints<%s>;" % ", ".join(map(str, range(len(self.layouts)))))
        o.append("using scalars_t = list<%s>;" % (", ".join(t[0] for t in SCALAR_TYPES) if scalars else ""))
        o.append("}")
        o.append('#include "tuple_run.hpp"')
        return "\n".join(o) + "\n"


def random_program(seed, k):
    rnd = random.Random("tuples %d %d" % (seed, k))
    users = [[("u", 1), ("s", 4)], ("heap", rnd.randint(9, 40)), [("a", 2, ("s", 2)), ("b",)]]
    users.append([rand_type(rnd, [], False) for _ in range(rnd.randint(1, 4))])
    users.append([("o", 0), ("s", 2)])     # made of another
    users.append(("intern", rnd.choice((2, 5, 34, 64))))
    layouts = []
    for _ in range(3):
        ts = []
        for _ in range(rnd.choice((1, 2, 3, 4, 5, 6))):
            t = rand_type(rnd, users, True)
            ts.append(t)
        layouts.append((rnd.choice(ENDIANS), rnd.choice(MODES), ts))
    return Program("tuples_%d_%d" % (seed, k), layouts, users)


def basic_program():
    u1, u2, u8, s1, s2, s4, s8, b = ("u", 1), ("u", 2), ("u", 8), ("s", 1), ("s", 2), ("s", 4), ("s", 8), ("b",)
    ls = [("BIG", "SIGNED_MAGNITUDE", [b, ("a", 3, s2), s8, u1]),
          ("LITTLE", "ONES_COMPLEMENT", [u1, s4, ("c", 2, s2), ("o", 0), b]),
          ("LITTLE", "OFFSET_BINARY", [("o", 1), s1, ("a", 2, u8), ("o", 2), ("a", 2, ("a", 3, s2)), b]),
          ("BIG", "TWOS_COMPLEMENT", [("o", 3), u1, ("o", 4), s2])]
    return Program("tuples_basic", ls, [[u1, s4], ("heap", 30), [("o", 0), ("a", 2, b)], ("intern", 40), ("heap", 250)])


class Gen:
    def __init__(self, prog, rnd):
        self.p, self.rnd, self.out = prog, rnd, []

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def section(self, ops=30, kinds=KINDS, tuples=True, views=True, weights=None):
        r, p = self.rnd, self.p
        ks = list(range(len(p.layouts)))
        nm = r.randrange(2)
        self.emit("seed", r.randrange(1, 1 << 40), 1)   # values every mode can express
        if nm:  # or only layouts which express every value
            full = [k for k in ks if not p.no_min(k)]
            if full:
                ks = full
                self.out[-1] = self.out[-1][:-1] + "0"
        self.emit("reset")
        kinds_of = {}
        objs, regs = {}, {}    # objs: id -> (region, offset, sizes, writable, layout or None)
        w = dict(set=8, get=6, assign=2, over=1.5, invoke=3, poke=3, size=1, slice=2, copy=1, tuple=1, region=0.6)
        w.update(weights or {})
        if not tuples:
            w["tuple"] = w["copy"] = w["slice"] = 0
        if not views:
            w["region"] = 0
        names, ws = zip(*w.items())
        todo = (["tuple"] if tuples else []) + (["region"] if views else [])
        n = 0
        while n < ops:
            op = todo.pop(0) if todo else r.choices(names, ws)[0]
            n += 1
            if op == "tuple":
                k = r.choice(ks)
                i = r.randrange(1, 3)
                for o in [o for o in objs if objs[o][0] == i]:
                    del objs[o]
                f = r.randrange(5) if p.layouts[k][2] else 0
                self.emit("tuple", i, k, f)
                objs[i] = (i, 0, p.sizes(k), True, k, p.carray(k))
                regs[i] = sum(p.sizes(k))
            elif op == "region":
                i = r.randrange(11, 13)
                for o in [o for o in objs if objs[o][0] == i]:
                    del objs[o]
                kind = r.choice(kinds)
                k = r.choice(ks)
                size = sum(p.sizes(k))
                before, after = r.choice((0, 0, 1, 2, 3, 7)), r.choice((0, 0, 0, 1, 4))
                self.emit("region", i, kind, r.randrange(8), bytes(r.getrandbits(8) for _ in range(before + size + after)).hex() or "-")
                regs[i] = before + size + after
                kinds_of[i] = kind
                self.emit("view", i, i, before, k, r.randrange(3))
                objs[i] = (i, before, p.sizes(k), kind != "cptr", None, p.carray(k))
                if r.random() < 0.6:    # another view, possibly overlapping
                    k2 = r.choice(ks)
                    room = regs[i] - sum(p.sizes(k2))
                    if room >= 0:
                        off = r.randint(0, room)
                        self.emit("view", i + 10, i, off, k2, r.randrange(3))
                        objs[i + 10] = (i, off, p.sizes(k2), kind != "cptr", None, p.carray(k2))
            elif not objs:
                continue
            elif op in ("set", "get"):
                o = r.choice(sorted(objs))
                reg, off, sz, wr, k, ca = objs[o]
                if sz and (op == "get" or wr):
                    self.emit(op, o, r.randrange(len(sz)), r.randrange(4))
            elif op == "assign":
                o = r.choice(sorted(objs))
                if objs[o][3] and objs[o][2] and not objs[o][5]:
                    self.emit("assign", o, r.randrange(5))
            elif op == "over":
                o = r.choice(sorted(objs))
                reg, off, sz, wr, k, ca = objs[o]
                if wr and sz and not ca:
                    room = regs[reg] - sum(sz)
                    lo = off if kinds_of.get(reg) in ("rec", "fwd") else 0
                    if lo <= room:
                        near = [x for x in range(lo, room + 1) if abs(x - off) < sum(sz) and x != off]
                        self.emit("over", o, (r.choice(near) if near and r.random() < 0.8 else r.randint(lo, room)) - off, off)
            elif op == "invoke":
                o = r.choice(sorted(objs))
                self.emit("invoke", o, r.randrange(9))
            elif op == "poke":
                reg = r.choice(sorted(regs))
                if regs[reg]:
                    self.emit("poke", reg, r.randrange(regs[reg]), r.choice((0, 1, 127, 128, 255, r.getrandbits(8))))
            elif op == "size":
                o = r.choice(sorted(objs))
                if objs[o][2] or objs[o][4] is None:
                    self.emit("size", o)
            elif op == "slice":
                cand = [o for o in objs if objs[o][4] is not None and p.slices[objs[o][4]]]
                if cand:
                    o = r.choice(sorted(cand))
                    reg, off, sz, wr, k, ca = objs[o]
                    i, l = r.choice(p.slices[k])
                    f = r.randrange(4)
                    self.emit("slice", 30 + o, o, i, l, f)
                    objs[30 + o] = (reg, off + sum(sz[:i]), sz[i:i + l], f < 2, None, ca)
            elif op == "copy":
                cand = [o for o in objs if objs[o][4] is not None and p.layouts[objs[o][4]][2]]
                if cand:
                    o = r.choice(sorted(cand))
                    to = 3 - o
                    same = to in objs and objs[to][4] == objs[o][4]
                    f = 2 if same and r.random() < 0.6 else r.randrange(2)
                    for x in [x for x in objs if objs[x][0] == to and (x != to or f != 2)]:
                        if f != 2:
                            del objs[x]
                    self.emit("copy", to, o, f)
                    objs[to] = (to, 0, objs[o][2], True, objs[o][4], objs[o][5])
                    regs[to] = sum(objs[o][2])


def patterns(n, rnd, count):
    """Boundary values of n bytes"""
    vs = set()
    pal = (0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff)
    for i in range(8 * n):
        for d in (-1, 0, 1):
            for s in (1, -1):
                vs.add((s * (1 << i) + d) % (1 << 8 * n))
    out = [v.to_bytes(n, "little") for v in sorted(vs)]
    while len(out) < count:
        out.append(bytes(rnd.choice(pal) for _ in range(n)) if rnd.random() < 0.6 else bytes(rnd.getrandbits(8) for _ in range(n)))
    return out[:max(count, len(vs))]


def scalar_script(rnd, op, types, wide=200, exhaustive16=None, forms=range(5)):
    """op: enc or dec.  One section per type and mode: exhaustive on 8 bits, on 16 bits for the types in exhaustive16"""
    out = []
    for t in types:
        name, k, n = SCALAR_TYPES[t]
        for en in range(2):
            for mo in range(4):
                lossy = k == "s" and mo < 2 and op == "enc"
                out += ["seed %d 0" % rnd.randrange(1, 1 << 40), "reset"]
                if n == 1:
                    for f in forms:
                        if k == "b":
                            vs = [b"\0", b"\1"] if op == "enc" else [bytes([x]) for x in range(256)]
                            out.append("%s %d %d %d %d %s" % (op, t, en, mo, f, b"".join(vs).hex()))
                        elif lossy:
                            out.append("%s %d %d %d %d %s" % (op, t, en, mo, f, bytes(x for x in range(256) if x != 128).hex()))
                        else:
                            out.append("%s256 %d %d %d %d 0" % (op, t, en, mo, f))
                    continue
                if n == 2 and exhaustive16 and t in exhaustive16:
                    for hi in range(256):
                        out.append("%s256 %d %d %d %d %d" % (op, t, en, mo, rnd.choice(list(forms)), hi))
                vs = patterns(n, rnd, wide)
                if lossy:
                    bad = (1 << 8 * n - 1).to_bytes(n, "little")
                    vs = [v for v in vs if v != bad]
                for f in forms:
                    for i in range(0, len(vs), 64):
                        out.append("%s %d %d %d %d %s" % (op, t, en, mo, f, b"".join(vs[i:i + 64]).hex()))
    return out


def matrix_program(k):
    """The layouts which between them mix every kind of element at every alignment, in every order and mode"""
    u1, u2, u4, u8, s1, s2, s4, s8, b = [("u", n) for n in (1, 2, 4, 8)] + [("s", n) for n in (1, 2, 4, 8)] + [("b",)]
    users = [[s2, b], ("heap", 12)]
    if k == 0:
        ls = [("LITTLE", "TWOS_COMPLEMENT", [u1, u2, b, s8, u1, s4, ("o", 0)]), ("BIG", "TWOS_COMPLEMENT", [s1, u8, b, ("a", 3, s4), u2]),
              ("LITTLE", "SIGNED_MAGNITUDE", [s8, s1, s4, s2, ("a", 2, ("a", 2, s2))])]
    else:
        ls = [("BIG", "ONES_COMPLEMENT", [s1, s8, ("c", 3, s4), s2, ("o", 0)]), ("BIG", "OFFSET_BINARY", [b, s8, s4, s2, s1, ("o", 1)]),
              ("LITTLE", "OFFSET_BINARY", [s1, ("a", 1, b), s4, u4, s8, ("c", 2, u8), ("a", 4, s2)])]
    return Program("tuples_matrix_%d" % k, ls, users)

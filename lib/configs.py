"""Keyrings under test: a fixed set and random ones."""
import random
from model import Config, ENDIANS, MODES, SCALARS

u1, u2, u4, u8 = [("u", n) for n in (1, 2, 4, 8)]
s1, s2, s4, s8 = [("s", n) for n in (1, 2, 4, 8)]
b, v = ("b",), ("v",)


def arr(n, t):
    return ("a", n, t)


def carr(n, t):
    return ("c", n, t)


USERS = [[u1, s4], [arr(2, s2), b, ("o", 0)], ("heap", 40), [s8, u1, s2, b], ("intern", 70), [("o", 4), s2]]


def basic(en="BIG", mo="ONES_COMPLEMENT", name=None):
    return Config(name or "basic_%s_%s" % (en, mo), en, mo, [
        ([], v), ([], s4), ([u1], v), ([s2, b], b), ([carr(3, s2), u8], arr(5, u2)), ([("o", 0), ("o", 2)], ("o", 1)),
        ([arr(2, s4), s1], ("o", 2)), ([("o", 1)], s8), ([s8, u2, s1, b, u4], s2), ([arr(2, arr(3, s2)), u1], arr(3, arr(2, s4)))],
        users=USERS, replies=[1, 4, 9, 10, 40, 64],
        hooks=[(0, s2), (1, v), (4, u1), (5, ("o", 0)), (3, v), (6, arr(3, s2)), (7, s8), (8, s2)])


def handles(en="LITTLE", mo="TWOS_COMPLEMENT"):
    """User types whose serialization is larger, or smaller, than the objects"""
    return Config("handles_%s" % en, en, mo, [
        ([("o", 0)], ("o", 1)), ([("o", 1), u1], ("o", 0)), ([("o", 2)], ("o", 3)), ([], ("o", 2)), ([("o", 3)], u2)],
        users=[("intern", 33), ("heap", 200), [u1, s8], [("o", 0), ("o", 2), s2]], replies=[9, 33, 44, 199, 200, 201],
        hooks=[(0, ("o", 0)), (1, v), (3, u1)])


def tiny(en="LITTLE", mo="TWOS_COMPLEMENT"):
    return Config("tiny_%s" % en, en, mo, [([], v), ([u1], u1), ([s2], u2), ([], u4)], replies=[1, 2, 3, 4, 8],
                  hooks=[(1, u2), (2, v), (3, u4)])


def wide(en="BIG", mo="OFFSET_BINARY"):
    """Requests longer than all responses"""
    return Config("wide_%s" % en, en, mo, [([], v), ([arr(3, u1), s4], u1), ([], s2)], replies=[1, 2, 3], hooks=[(1, u2), (2, s2)])


def wide_index(en="BIG", mo="TWOS_COMPLEMENT"):
    """An index of two bytes, with every form of everything for a few functions of a large keyring"""
    some = {0: ([], s2), 1: ([u1, s4], u4), 127: ([arr(5, u1)], v), 254: ([], v), 255: ([u1], u1), 256: ([s2], arr(9, u1)), 257: ([b, u1], s8),
            258: ([carr(3, u2)], b)}
    return Config("wide_index_%s" % en, en, mo, [some.get(j, ([u1], v) if j % 3 else ([], u2)) for j in range(260)], hot=sorted(some),
                  replies=[1, 2, 8, 9], hooks=[(256, u1), (257, s2), (254, u1)], reply_pad=253)


def only_void():
    return Config("only_void", "LITTLE", "SIGNED_MAGNITUDE", [([u4], v), ([], v), ([b, s1], v)], replies=[1, 2])


def no_args():
    return Config("no_args", "BIG", "OFFSET_BINARY", [([], s8), ([], v), ([], b)], replies=[1, 7, 8, 9], reply_pad=252)


def one():
    return Config("one", "BIG", "TWOS_COMPLEMENT", [([s4], s4)], replies=[3, 4, 5], hooks=[(0, s4)])


def lone_empty():
    return Config("lone_empty", "LITTLE", "TWOS_COMPLEMENT", [([], v)], replies=[1])


def results_larger():
    return Config("results_larger", "LITTLE", "OFFSET_BINARY",
                  [([u1], arr(300, u1)), ([], arr(9, s8)), ([u1], arr(256, u1)), ([u2], v), ([], arr(255, u1))],
                  replies=[72, 255, 256, 299, 300, 301], hooks=[(0, u1), (1, s8)], reply_pad=300)


def args_larger():
    return Config("args_larger", "BIG", "SIGNED_MAGNITUDE",
                  [([arr(300, u1)], u1), ([carr(128, u2), u1], u2), ([arr(255, u1)], b), ([u1], v), ([arr(254, u1)], u1), ([], s1)],
                  replies=[1, 2, 3])


def huge():
    c = Config("huge", "LITTLE", "TWOS_COMPLEMENT",
               [([arr(70000, u1)], u1), ([u1], arr(66000, u1)), ([], u2), ([u1], u1)], replies=[1, 66000])
    c.all_forms = False
    return c


def many(n, en):
    rnd = random.Random("many %d %s" % (n, en))
    fns = []
    for j in range(n):
        a = [rnd.choice([u1, s2, b]) for _ in range(rnd.randrange(3))]
        fns.append((a, rnd.choice([v, u1, s2])))
    hot = sorted({0, 1, 2, n // 2, 127, 128, 254, 255, 256, n - 2, n - 1} & set(range(n)))
    c = Config("many_%d_%s" % (n, en), en, "TWOS_COMPLEMENT", fns, hot=hot, replies=[1, 2])
    c.all_forms = False
    return c


def rand_type(rnd, users, param, depth=0):
    m = rnd.random()
    if m < 0.62 or depth:
        return rnd.choice(SCALARS)
    if m < 0.75:
        return ("a", rnd.choice((1, 2, 3, 5, 17)), rnd.choice(SCALARS))
    if m < 0.79:    # arrays of arrays
        t = ("a", rnd.choice((1, 2, 3)), rnd.choice(SCALARS))
        return (rnd.choice("aac") if param else "a", rnd.choice((1, 2, 3)), rnd.choice((t, ("a", 2, t))))
    if m < 0.85 and param:
        return ("c", rnd.choice((1, 2, 4, 7)), rnd.choice(SCALARS))
    if users:
        return ("o", rnd.randrange(len(users)))
    return rnd.choice(SCALARS)


def random_config(seed, k):
    rnd = random.Random("config %d %d" % (seed, k))
    users = []
    for i in range(rnd.randrange(4)):
        if rnd.random() < 0.2:
            users.append(rnd.choice((("heap", rnd.randint(20, 60)), ("heap", 260), ("intern", rnd.choice((3, 33, 64))))))
            continue
        u = []
        for _ in range(rnd.randint(1, 4)):
            t = rand_type(rnd, users, False)
            u.append(t)
        users.append(u)
    n = rnd.choice((1, 2, 3, 5, 7, 9))
    fns = []
    for _ in range(n):
        a = [rand_type(rnd, users, True) for _ in range(rnd.choice((0, 0, 1, 1, 2, 3, 4)))]
        r = v if rnd.random() < 0.2 else rand_type(rnd, users, False)
        fns.append((a, r))
    c = Config("random_%d_%d" % (seed, k), rnd.choice(ENDIANS), rnd.choice(MODES), fns, users=users)
    rs = sorted({max(1, c.rsize(j) + d) for j in range(n) for d in (-1, 0, 1)})
    c.replies = rs[:6]
    c.hooks = [(j, v if rnd.random() < 0.3 else rand_type(rnd, users, False)) for j in range(min(n, 4))]
    return c

"""Executes a script on the keys and the dispatcher of a module made with upd/python.hpp and records what happens.
Arguments: directory, module, descriptor file.  Script on the standard input, trace on the standard output."""
import gc
import json
import random
import sys
import weakref

sys.path.insert(0, sys.argv[1])
import unpadded  # noqa: E402

mod = __import__(sys.argv[2])
conf = json.load(open(sys.argv[3]))
FNS = conf["keyrings"][0]["fns"]
STATUS = {unpadded.PacketStatus.LOADING_PACKET: "L", unpadded.PacketStatus.RESOLVED_PACKET: "R",
          unpadded.PacketStatus.DROPPED_PACKET: "D"}
NAMES = {"LOADING_PACKET": "L", "RESOLVED_PACKET": "R", "DROPPED_PACKET": "D"}
rnd = random.Random()
no_min = False


class SourceEnd(Exception):
    pass


class SinkFull(Exception):
    pass


class CallbackError(Exception):
    pass


KINDS = {}


def failure(base, *args):
    """An exception of the given class, which is also of another one"""
    other = rnd.choice((None, None, None, StopIteration, RuntimeError, IndexError, KeyError, TypeError, ValueError, OverflowError, OSError,
                        MemoryError, StopAsyncIteration, ImportError, AttributeError, KeyboardInterrupt, GeneratorExit, SystemExit))
    if other is None:
        return base(*args)
    if (base, other) not in KINDS:
        KINDS[base, other] = type(base.__name__ + other.__name__, (base, other), {})
    return KINDS[base, other](*args)


def status(st):
    name = getattr(st, "name", repr(st))
    return NAMES.get(name, name) if isinstance(st, unpadded.PacketStatus) and STATUS.get(st) == NAMES.get(name) else "?" + repr(st)


# ------------------------------------------------------------------ objects
def obj(v):
    """Description of a Python object (UpdPython)"""
    if v is None:
        return {"t": "n"}
    if isinstance(v, bool):
        return {"t": "b", "v": int(v)}
    if type(v) is int:
        m = abs(v)
        return {"t": "i", "s": int(v < 0), "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}
    if isinstance(v, (list, tuple)):
        return {"t": "l", "e": [obj(x) for x in v]}
    return {"t": "x"}


def value(t):
    k = t["k"]
    if k == "b":
        return rnd.random() < 0.5
    if k == "a":
        return [value(t["e"]) for _ in range(t["c"])]
    if k == "v":
        return rnd.choice((None, None, 5, "ignored"))
    n = 8 * t["n"]
    lo, hi = (0, 2 ** n - 1) if k == "u" else (-2 ** (n - 1) + no_min, 2 ** (n - 1) - 1)
    return rnd.choice((0, 1, lo, hi, lo + 1, hi - 1, hi // 2, hi // 2 + 1, rnd.randint(lo, hi), rnd.randint(lo, hi),
                       min(hi, rnd.getrandbits(rnd.randrange(1, n + 1)))))


def bad(t):
    """An object which denotes no value of type t"""
    k = t["k"]
    if k == "b":
        return rnd.choice(("x", [True], object(), b"\x01"))
    if k == "a":
        good = value(t)
        m = rnd.randrange(5)
        if m == 0:
            return good[:-1]
        if m == 1:
            return good + [value(t["e"])]
        if m == 2:
            good[rnd.randrange(len(good))] = bad(t["e"])
            return good
        return rnd.choice((None, 7, {1: 2}, object()))
    n = 8 * t["n"]
    lo, hi = (0, 2 ** n - 1) if k == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    return rnd.choice((hi + 1, lo - 1, hi + rnd.randint(1, 1 << 66), lo - rnd.randint(1, 1 << 66), 2 ** n, 2 ** 64, -2 ** 63 - 1 - n, 2 ** 200,
                       None, "5", b"5", 3.0, [3], object()))


# ------------------------------------------------------------------ callbacks
class State:
    pass


S = State()


def reset():
    S.disp, S.live, S.pycalls, S.nextf = {}, {}, [], 10000
    S.raised = None


def run_callback(me, args):
    me.n += 1
    t = FNS[me.j]["r"]
    c = {"cb": me.id, "n": me.n, "x": 0, "j": me.j, "pa": [obj(a) for a in args], "pr": {"t": "n"}}
    S.pycalls.append(c)
    if mod._vp_tick():
        c["x"] = 1
        S.raised = failure(CallbackError, me.id)
        raise S.raised
    r = bad(t) if t["k"] != "v" and rnd.random() < me.faulty else value(t)
    if t["k"] == "a" and isinstance(r, list) and rnd.random() < 0.3:
        r = tuple(r)
    c["pr"] = obj(r)
    return r


class Callback:
    def __init__(self, ident, j, faulty):
        self.id, self.j, self.n, self.faulty = ident, j, 0, faulty

    def __call__(self, *args):
        return run_callback(self, args)

    def method(self, *args):
        return run_callback(self, args)


def make_callback(j, form, faulty):
    S.nextf += 1
    me = Callback(S.nextf, j, faulty)
    if form % 3 == 1:
        f = me.method
    elif form % 3 == 2:
        f = lambda *args: run_callback(me, args)  # noqa: E731
    else:
        f = me
    S.live[me.id] = weakref.ref(me)
    return me.id, f


def invocations():
    inv = json.loads(mod._vp_calls()) + S.pycalls
    S.pycalls = []
    return inv


def raised(e):
    """What made an operation fail"""
    if isinstance(e, SourceEnd):
        return "S"
    if isinstance(e, SinkFull):
        return "O"
    if S.raised is not None:
        return "X" if e is S.raised else "?another exception %r" % e
    return "X" if isinstance(e, RuntimeError) else "?%r" % e


def emit(e):
    sys.stdout.write(json.dumps(e, separators=(",", ":")) + "\n")


def live():
    gc.collect()
    return sorted(k for k, w in S.live.items() if w() is not None)


def arm(a):
    """The a-th next invocation throws, whichever kind of callback it is"""
    S.raised = None
    mod._vp_arm(a)


def source(data, how, counter):
    it = iter(data)

    def get():
        for x in it:
            counter[0] += 1
            return x
        if how == 1:
            counter[1] = 1
            return rnd.choice((256, -1, "a", None, 1.5))
        raise failure(SourceEnd)
    return get


def op_rd(w, d):
    data, a = bytes.fromhex(w[3].strip("-")), int(w[4])
    arm(a)
    n, how = [0, 0], rnd.choice((0, 0, 1))
    e = {"e": "rd", "d": int(w[1]), "b": list(data)}
    try:
        st = status(d.read_from(source(data, how, n)))
    except BaseException as x:
        st = "S" if n[1] else raised(x)
        del x
    e.update(st=st, used=n[0], inv=invocations(), ld=int(d.is_loaded()))
    S.raised = None
    emit(e)


def op_put(w, d):
    data, a = bytes.fromhex(w[2].strip("-")), int(w[3])
    arm(a)
    rle, used, inv = [], 0, []
    for x in data:
        try:
            st = status(d.put(x))
        except BaseException as ex:
            st = raised(ex)
            del ex
        used += 1
        ld = int(d.is_loaded())
        if rle and rle[-1][:2] == [st, ld]:
            rle[-1][2] += 1
        else:
            rle.append([st, ld, 1])
        inv += invocations()
        if st == "X" or st.startswith("?"):
            break
    S.raised = None
    emit({"e": "put", "d": int(w[1]), "b": list(data), "st": rle, "used": used, "inv": inv, "ld": int(d.is_loaded())})


def op_get(w, d):
    out = []
    for _ in range(int(w[2])):
        if d.is_loaded():
            out.append(d.get())
        else:
            d.get()
    emit({"e": "get", "d": int(w[1]), "n": int(w[2]), "out": out, "ld": int(d.is_loaded())})


def op_wr(w, d):
    lim, out = int(w[3]), []

    def dest(x):
        out.append(x)
        if len(out) == lim:
            raise failure(SinkFull)
    try:
        r = d.write_to(dest)
        st = "R" if r is None else "?%r" % (r,)
    except BaseException as x:
        st = raised(x)
        del x
    emit({"e": "wr", "d": int(w[1]), "lim": lim, "out": out, "st": st, "ld": int(d.is_loaded())})


def op_rep(w, d):
    j, f = int(w[2]), int(w[3])
    ident, fn = make_callback(j, f, 0.15 if f >= 6 else 0.0)
    d.replace(getattr(mod, "f%d" % j), fn)
    del fn
    emit({"e": "rep", "d": int(w[1]), "i": j, "f": ident, "ld": int(d.is_loaded()), "live": live()})


def op_bad(w, d):
    key = getattr(mod, "f%d" % rnd.randrange(len(FNS)))
    what = rnd.choice((lambda: d.put(rnd.choice((256, -1, "a", None, 3.5, b"a", 1 << 70))), lambda: d.put(), lambda: d.get(1),
                       lambda: d.replace(key, rnd.choice((3, "f", None))), lambda: d.replace(key), lambda: d.replace("f0", len),
                       lambda: d.replace(3, len), lambda: d.read_from(3), lambda: d.write_to("x"), lambda: d.is_loaded(1)))
    try:
        what()
        st = "R"
    except Exception as x:
        st = "E"
        del x
    emit({"e": "pbad", "d": int(w[1]), "st": st, "ld": int(d.is_loaded())})


def op_enc(w):
    j, how = int(w[1]), rnd.random()
    ts = FNS[j]["a"]
    args = [value(t) for t in ts]
    if how < 0.2 and ts:
        k = rnd.randrange(len(ts))
        args[k] = bad(ts[k])
    elif how < 0.25:
        args = args[:-1] if args and rnd.random() < 0.5 else args + [1]
    elif how < 0.4:
        args = [tuple(a) if isinstance(a, list) else a for a in args]
    e = {"e": "penc", "kr": 1, "j": j, "a": [obj(a) for a in args], "st": "R", "w": []}
    try:
        r = getattr(mod, "f%d" % j).encode(*args)
        if type(r) is not bytes:
            e["st"] = "?" + type(r).__name__
        e["w"] = list(r)
    except Exception:
        e["st"] = "E"
    emit(e)


def op_dec(w):
    j = int(w[1])
    data = bytes.fromhex(w[3].strip("-"))
    e = {"e": "pdec", "kr": 1, "j": j, "b": list(data), "st": "R", "v": {"t": "n"}}
    try:
        e["v"] = obj(getattr(mod, "f%d" % j).decode(data))
    except Exception:
        e["st"] = "E"
    emit(e)


def main():
    reset()
    for l in sys.stdin:
        try:
            step(l.split())
        except Exception as x:
            emit({"e": "pfail", "what": "%s: %r" % (l.strip()[:100], x)})
            break
    sys.stdout.flush()


def step(w):
    global no_min
    op = w[0]
    if op == "seed":
        rnd.seed(int(w[1]))
        no_min = int(w[2])
        mod._vp_seed(int(w[1]), bool(no_min))
    elif op == "reset":
        reset()
        gc.collect()
        emit({"e": "reset"})
        emit({"e": "pkeys", "kr": 1, "idx": [getattr(mod, "f%d" % j).index() for j in range(len(FNS))]})
    elif op == "new":
        S.disp[int(w[1])] = mod.Dispatcher()
        emit({"e": "new", "d": int(w[1]), "kr": 1, "kind": "double", "pol": "any", "ld": int(S.disp[int(w[1])].is_loaded())})
    elif op == "del":
        S.disp.pop(int(w[1]))
        emit({"e": "del", "d": int(w[1]), "live": live()})
    elif op == "enc":
        op_enc(w)
    elif op == "dec":
        op_dec(w)
    else:
        {"rd": op_rd, "put": op_put, "get": op_get, "wr": op_wr, "rep": op_rep, "bad": op_bad}[op](w, S.disp[int(w[1])])


main()

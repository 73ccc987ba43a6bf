"""Runs concurrent calls through unpadded.Client, with a transport which answers as the script says, and records what is
sent and how the calls end.  Arguments: directory, module (with - in front: stand-ins written in Python), descriptor."""
import asyncio
import contextvars
import gc
import json
import sys

sys.path.insert(0, sys.argv[1])
import unpadded  # noqa: E402

conf = json.load(open(sys.argv[3]))
KR = conf["keyrings"][0]
FNS = KR["fns"]
IW = 1 if len(FNS) < 256 else 2


def emit(e):
    sys.stdout.write(json.dumps(e, separators=(",", ":")) + "\n")


# ------------------------------------------------------------------ keys
def size(t):
    return {"u": lambda: t["n"], "s": lambda: t["n"], "b": lambda: 1, "a": lambda: t["c"] * size(t["e"]), "v": lambda: 0}[t["k"]]()


def encode(t, v):
    if t["k"] == "a":
        if not isinstance(v, list) or len(v) != t["c"]:
            raise TypeError("array")
        return b"".join(encode(t["e"], x) for x in v)
    if type(v) is not (bool if t["k"] == "b" else int):
        raise TypeError("scalar")
    return int(v).to_bytes(t["n"], KR["en"].lower(), signed=t["k"] == "s")


def decode(t, b):
    if t["k"] == "v":
        return None
    if len(b) < size(t):
        raise ValueError("short")
    if t["k"] == "a":
        n = size(t["e"])
        return [decode(t["e"], b[i * n:]) for i in range(t["c"])]
    x = int.from_bytes(b[:t["n"]], KR["en"].lower(), signed=t["k"] == "s")
    return x != 0 if t["k"] == "b" else x


class Key:
    def __init__(self, j):
        self.j = j

    def encode(self, *args):
        ts = FNS[self.j]["a"]
        if len(args) != len(ts):
            raise TypeError("arguments")
        return self.j.to_bytes(IW, KR["en"].lower()) + b"".join(encode(t, a) for t, a in zip(ts, args))

    def decode(self, payload):
        return decode(FNS[self.j]["r"], payload)

    def index(self):
        return self.j


if sys.argv[2].startswith("-"):
    KEYS = [Key(j) for j in range(len(FNS))]
else:
    mod = __import__(sys.argv[2])
    KEYS = [getattr(mod, "f%d" % j) for j in range(len(FNS))]


# ------------------------------------------------------------------ objects
def obj(v):
    if v is None:
        return {"t": "n"}
    if isinstance(v, bool):
        return {"t": "b", "v": int(v)}
    if type(v) is int:
        m = abs(v)
        return {"t": "i", "s": int(v < 0), "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}
    if isinstance(v, (list, tuple)):
        return {"t": "l", "e": [obj(x) for x in v]}
    return {"t": "x"}


def unobj(o):
    if o["t"] == "i":
        return int.from_bytes(bytes(o["m"]), "little") * (-1 if o["s"] else 1)
    if o["t"] == "b":
        return bool(o["v"])
    if o["t"] == "l":
        return [unobj(x) for x in o["e"]]
    return None if o["t"] == "n" else "text"


class Odd:
    """Neither true nor false, nor comparable"""

    def __bool__(self):
        raise RuntimeError("no truth value")

    def __eq__(self, other):
        raise RuntimeError("not comparable")

    def __len__(self):
        raise RuntimeError("no length")
    __hash__ = None


class TransportError(Exception):
    pass


OBJECTS = [None, 0, 1, "", "text", [], {}, False, True, 3.5, (), object(), Odd(), b"x".decode(), {"a": 1}, [b"1"], -1, 10 ** 30]
ERRORS = [TransportError, TimeoutError, ValueError, KeyError, ConnectionResetError, TypeError, NotImplementedError, RuntimeError, OSError,
          EOFError, AttributeError, asyncio.IncompleteReadError]

call_id = contextvars.ContextVar("call_id")


class State:
    pass


S = State()


class Loop(asyncio.SelectorEventLoop):
    offset = 0.0

    def time(self):
        return super().time() + self.offset


def reset():
    old = getattr(S, "loop", None)
    if old is not None:
        for t in S.tasks.values():
            t.cancel()
        settle()
        old.close()
    S.loop = Loop()
    S.loop.set_exception_handler(lambda *a: None)
    asyncio.set_event_loop(S.loop)
    S.tasks, S.futures, S.errors, S.given, S.sent, S.reported = {}, {}, {}, {}, [], set()
    S.clients = {0: unpadded.Client(), 1: Future(), 2: Coroutine(), 3: Awaitable(), 4: Future()}


def error(k):
    if k not in S.errors:
        c = ERRORS[k % len(ERRORS)]
        S.errors[k] = c(b"", 3) if c is asyncio.IncompleteReadError else c("error %d" % k)
    return S.errors[k]


def request(payload):
    """The transport takes a request: the future of its answer"""
    c = call_id.get()
    S.sent.append({"c": c, "w": list(payload) if type(payload) is bytes else [-1]})
    if S.how[c] == "raise":
        raise error(c)
    f = S.loop.create_future()
    S.futures.setdefault(c, f)
    return f


class Future(unpadded.Client):
    def new_request(self, payload):
        return request(payload)


class Coroutine(unpadded.Client):
    async def new_request(self, payload):
        return await request(payload)


class Awaitable(unpadded.Client):
    def new_request(self, payload):
        f = request(payload)

        class Waiter:
            def __await__(self):
                return (yield from f.__await__())
        return Waiter()


async def one(c, cl, j, args):
    call_id.set(c)
    return await S.clients[cl].call(KEYS[j], *args)


def settle():
    async def turns():
        for _ in range(25):
            await asyncio.sleep(0)
    S.loop.run_until_complete(turns())


def outcome(c, t):
    if t.cancelled():
        return {"k": "cancel"}
    e = t.exception()
    if e is not None:
        for k, x in S.errors.items():
            if x is e:
                return {"k": "err", "id": k}
        return {"k": "unimplemented" if isinstance(e, NotImplementedError) else "rejected"}
    r = t.result()
    if c in S.given and OBJECTS[S.given[c]] is r:
        return {"k": "obj", "id": S.given[c]}
    return {"k": "value", "v": obj(r)}


def seen():
    done = []
    for c, t in S.tasks.items():
        if t.done() and c not in S.reported:
            S.reported.add(c)
            done.append({"c": c, "r": outcome(c, t)})
    sent, S.sent = S.sent, []
    return dict(sent=sent, done=done)


def step(w, line):
    op = w[0]
    if op == "seed":
        pass
    elif op == "reset":
        reset()
        S.how = {}
        emit({"e": "reset"})
    elif op == "acall":
        c, cl, j, how = int(w[1]), int(w[2]), int(w[3]), w[4]
        a = json.loads(line.split(None, 5)[5])
        S.how[c] = how
        S.tasks[c] = S.loop.create_task(one(c, cl, j, [unobj(x) for x in a]))
        emit({"e": "acall", "c": c, "cl": cl, "j": j, "how": how, "a": a})
    elif op == "answer":
        c, r = int(w[1]), json.loads(line.split(None, 2)[2])
        emit({"e": "answer", "c": c, "r": r})
        f = S.futures.get(c)
        if f is None or f.done():
            return
        if r["k"] == "bytes":
            f.set_result(bytes(r["b"]))
        elif r["k"] == "obj":
            S.given[c] = r["id"]
            f.set_result(OBJECTS[r["id"]])
        else:
            f.set_exception(error(r["id"]))
    elif op == "cancel":
        emit({"e": "cancel", "c": int(w[1])})
        S.tasks[int(w[1])].cancel()
    elif op == "run":
        settle()
        emit(dict({"e": "run"}, **seen()))
    elif op == "elapse":
        S.loop.offset += 1e7
        settle()
        S.elapsed = getattr(S, "elapsed", 0) + 1
        if S.elapsed % 16 == 0:
            gc.collect()
        emit(dict({"e": "elapse"}, **seen()))


def main():
    for l in sys.stdin:
        try:
            step(l.split(), l)
        except Exception as x:
            emit({"e": "pfail", "what": "%s: %r" % (l.strip()[:100], x)})
            break
    sys.stdout.flush()


main()

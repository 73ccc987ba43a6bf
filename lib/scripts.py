"""Scripts for the harness: lists of sections, each an independent history starting with `reset`."""
import random

READS, WRITES, PAIRS, ENCODES = 18, 16, 19, list(range(37)) + [40, 41, 42]   # how many forms there are
READ_PADS = {4, 5, 6, 9, 12, 14}
PAIR_PADS = {5, 7, 8, 10, 14}
PAIR_FAIL = {0, 1, 2, 3, 4, 7, 10, 12, 15, 16, 17, 18}      # pair forms whose sink can fail
REPLY_FAIL = (0, 1, 2, 5)
WRITE_FAIL = {0, 1, 2, 7, 8, 10, 12, 14, 15}


def hexs(b):
    return bytes(b).hex() or "-"


class Sim:
    """What the generator needs to know of a dispatcher: where it is in the stream, whether it must be drained"""

    def __init__(self, cfg, kind, pol):
        self.c, self.kind, self.pol = cfg, kind, pol
        self.buf = b""
        self.pending = 0
        self.queue = b""

    @property
    def single(self):
        return self.kind in ("single", "cust1")

    def copy(self):
        s = Sim(self.c, self.kind, self.pol)
        s.buf, s.pending, s.queue = self.buf, self.pending, self.queue
        return s

    def feed(self, data, one, arm=0):
        """Bytes taken; stops after a packet if `one`, at the arm-th invocation, or when it would have to be drained"""
        c, used, calls = self.c, 0, 0
        for x in data:
            if self.single and self.pending and used:
                break
            self.buf += bytes([x])
            used += 1
            if len(self.buf) < c.iw:
                continue
            j = int.from_bytes(self.buf[:c.iw], c.en.lower())
            if j >= len(c.fns):
                self.buf = b""
                if one:
                    break
                continue
            if len(self.buf) == c.iw + c.asize(j):
                self.buf = b""
                calls += 1
                self.pending = 0 if calls == arm else c.rsize(j)
                if one or calls == arm:
                    break
        return used


class Gen:
    def __init__(self, cfg, rnd, **w):
        self.c, self.rnd, self.out = cfg, rnd, []
        self.w = dict(put=6, rd=4, get=3, wr=3, call=3, act=0, rep=0, mv=0, cp=0, reply=0, asize=0, held=0, fault=0.0, invalid=0.12,
                      forms=False, kinds=("double", "cust2", "single", "cust1"), pols=("any", "weak"),
                      disps=(1, 3), burst=(1, 12), ops=30, big=0.02)
        self.w.update(w)

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    # -- bytes
    def arg_bytes(self, j):
        n, r = self.c.asize(j), self.rnd
        m = r.random()
        if m < 0.25:
            return bytes([r.choice((0, 0xff, 0x80, 0x7f, 1))]) * n
        if m < 0.5:
            return bytes(r.choice((0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff)) for _ in range(n))
        if m < 0.6 and n:
            i = r.randrange(len(self.c.fns))     # bytes which look like a request
            return (self.index(i) * n)[:n]
        return bytes(r.getrandbits(8) for _ in range(n))

    def index(self, j):
        return j.to_bytes(self.c.iw, self.c.en.lower())

    def pick(self):
        """A function, rather a small one when some are large"""
        for _ in range(6):
            j = self.rnd.randrange(len(self.c.fns))
            if self.c.asize(j) + self.c.rsize(j) < 300 or self.rnd.random() < self.w["big"]:
                return j
        return j

    def packet(self):
        r, n, iw = self.rnd, len(self.c.fns), self.c.iw
        top = 256 ** iw
        if n < top and r.random() < self.w["invalid"]:
            x = r.choice([n, n, top - 1, min(top - 1, n + 1), r.randrange(n, top), (r.randrange(n) + 256) % top if iw > 1 else n])
            if iw > 1 and r.random() < 0.4:
                x = r.randrange(n) | (r.randrange(1, 256) << 8)
            x = x if x >= n else n
            return self.index(x)
        j = self.pick()
        return self.index(j) + self.arg_bytes(j)

    def more(self, s, n):
        while len(s.queue) < n:
            s.queue += self.packet()
        return s.queue[:n]

    def chunk(self, s):
        """Some bytes of the stream of s, often ending around a packet boundary"""
        r = self.rnd
        if r.random() < 0.5:
            self.more(s, 1)
            need = len(s.queue)
            n = max(1, min(need + r.choice((-2, -1, 0, 0, 0, 1, 2)), 4000))
        else:
            n = r.randint(*self.w["burst"])
        return self.more(s, n)

    # -- forms
    def form(self, n, few=3):
        if self.w["forms"] and self.c.all_forms:
            return self.rnd.randrange(n)
        return self.rnd.choice((0, 0, 2) if not self.c.all_forms else (0, 1, 2)[:few])

    def arm(self):
        return self.rnd.randint(1, 3) if self.rnd.random() < self.w["fault"] else 0

    def lim(self):
        return self.rnd.randint(1, 6) if self.rnd.random() < self.w["fault"] else 0

    # -- operations
    def section(self, no_min):
        r, w = self.rnd, self.w
        self.emit("seed", r.randrange(1, 1 << 40), int(no_min))
        self.emit("reset")
        d = {}
        for i in range(1, r.randint(*w["disps"]) + 1):
            k, p = r.choice(w["kinds"]), r.choice(w["pols"])
            d[i] = Sim(self.c, k, p)
            self.emit("new", i, k, p, r.randrange(3))
        self.held = {}
        ops = [(o, w[o]) for o in ("put", "rd", "get", "wr", "call", "act", "rep", "mv", "cp", "reply", "asize", "held") if w[o]]
        names, weights = zip(*ops)
        for _ in range(w["ops"]):
            i = r.choice(sorted(d))
            self.operation(r.choices(names, weights)[0], i, d)
        for i, s in sorted(d.items()):
            if s.kind != "plain" and r.random() < 0.7:
                self.emit("wr", i, 0, 0)

    def drain(self, i, s):
        if s.single and s.pending:
            if self.rnd.random() < 0.3:
                self.emit("get", i, s.pending)
            else:
                self.emit("wr", i, self.form(WRITES), 0)
            s.pending = 0

    def operation(self, op, i, d):
        s, r = d[i], self.rnd
        if s.kind == "plain" and op in ("put", "rd", "get", "wr", "call", "reply"):
            return self.plain(i, s, r.choice(("disp", "disp", "idx")))
        if op in ("put", "rd", "call"):
            self.drain(i, s)
        if op == "put":
            b, a = self.chunk(s), self.arm()
            n = s.feed(b, False, a)
            self.emit("put", i, hexs(b[:n]), a)
            s.queue = s.queue[n:]
        elif op in ("rd", "call"):
            f = self.form(READS) if op == "rd" else self.form(PAIRS)
            pads = READ_PADS if op == "rd" else PAIR_PADS
            if f in pads and self.c.iw + self.c.max_args() > 600:
                f = 0
            a = self.arm()
            b = self.chunk(s)
            if op == "rd":
                self.emit("rd", i, f, hexs(b), a)
            else:
                lim = self.lim() if f in PAIR_FAIL else 0
                self.emit("call", i, f, hexs(b), lim, a)
            n = s.feed(b, True, 1 if a == 1 else 0)
            s.queue = s.queue[n:]
            if f in pads:
                s.queue = b"" if s.buf else s.queue
                s.buf = b""
                s.pending = s.pending or self.c.max_ret()
            if op == "call":
                s.pending = s.pending if lim else 0
        elif op == "get":
            self.emit("get", i, r.randint(1, 8))
        elif op == "wr":
            f = self.form(WRITES)
            lim = self.lim() if f in WRITE_FAIL else 0
            self.emit("wr", i, f, lim)
            if not lim:
                s.pending = 0
        elif op == "act":
            self.act(i)
        elif op == "rep":
            j = r.choice(self.c.hot)
            self.emit("rep", i, j, r.randrange(17))
        elif op in ("mv", "cp"):
            if op == "cp" and s.pol == "any":
                return
            how = int(r.random() < 0.4)
            if op == "mv":
                t = [k for k in d if k != i and (d[k].kind, d[k].pol) == (s.kind, s.pol)]
                if how and t:
                    k = r.choice(t)
                else:
                    how, k = 0, max(d) + 1
                self.emit("mv", i, k, how)
                d[k] = s
                del d[i]
            else:
                t = [k for k in d if k != i and (d[k].kind, d[k].pol) == (s.kind, s.pol)]
                if len(d) >= 5 and not t:
                    return
                if (how or len(d) >= 5) and t:
                    k, how = r.choice(t), 1
                else:
                    how, k = 0, max(d) + 1
                self.emit("cp", i, k, how)
                d[k] = s.copy()
        elif op == "reply":
            f = r.randrange(6) if self.c.all_forms else 0
            self.emit("reply", i, r.randrange(len(self.c.replies)), f, self.lim() if f in REPLY_FAIL else 0)
            s.pending = s.pending  # may have been refused
        elif op == "asize":
            self.emit("asize", i, r.choice(self.c.hot))
        elif op == "held":
            self.actions(i, s)

    # -- actions on their own: slot -> (what, index, bytes it takes, owns)
    def actions(self, i, s):
        r, h = self.rnd, self.held
        op = r.choice(("keep", "fire", "fire", "fire", "fire", "swp", "swp", "kmv", "drop"))
        if op == "keep" or not h:
            self.keep()
            return
        k = r.choice(sorted(h))
        what, j, size, own = h[k]
        if op == "fire":
            self.fire(k)
        elif op == "swp":
            if s is not None and what == "f" and own == (s.pol == "any"):
                how = r.choice(("swp", "inst", "instc"))
                if how == "instc" and own:
                    how = "inst"
                self.emit(how, i, j, k)
                if how == "inst":
                    del h[k]
        elif op == "kmv":
            t = r.choice([x for x in range(1, 6) if x != k])
            if not own and r.random() < 0.5:
                self.emit("kcp", k, t)
                h[t] = h[k]
                return
            how = r.randrange(3) if t in h and h[t][3] == own else 0
            self.emit("kmv", k, t, how)
            h[t] = h.pop(k)
        else:
            self.emit("drop", k)
            del h[k]

    def keep(self, what=None, form=None, j=None, k=None):
        r = self.rnd
        k = k or r.randint(1, 5)
        what = what or r.choices("hf0", (4 if self.c.hooks else 0, 6, 0.3))[0]
        f = r.randrange(11) if form is None else form
        if what == "h":
            j = r.randrange(len(self.c.hooks)) if j is None else j
            size = self.c.rsize(self.c.hooks[j][0])
        elif what == "f":
            j = r.choice(self.c.hot) if j is None else j
            size = self.c.asize(j)
        else:
            j, size = 0, 0
        self.emit("keep", k, what, f, j)
        self.held[k] = (what, j, size, what == "0" or f < 8)

    def fire(self, k):
        r, size = self.rnd, self.held[k][2]
        f = self.form(PAIRS)
        if f in PAIR_PADS and size > 600:
            f = 0
        b = self.ret_bytes(size, False) if f not in PAIR_PADS else self.ret_bytes(size, True)
        lim = self.lim() if f in PAIR_FAIL else 0
        if r.random() < 0.1:
            f, lim = 200, 0
        elif r.random() < 0.3:
            f += 64
        self.emit("fire", k, f, hexs(b), lim, self.arm())

    def act(self, i):
        r = self.rnd
        j = self.pick()
        f = self.form(PAIRS)
        b = self.arg_bytes(j) + bytes(r.getrandbits(8) for _ in range(r.choice((0, 0, 1, 5))))
        if r.random() < self.w["fault"] and f not in PAIR_PADS:
            b = b[:r.randint(0, len(b))]
        if f in PAIR_PADS and self.c.max_args() > 600:
            f = 0
        if r.random() < 0.3:
            g = f + 64
        else:
            g = f
        self.emit("act", i, j, g, hexs(b), self.lim() if f in PAIR_FAIL else 0, self.arm())

    def plain(self, i, s, op):
        r = self.rnd
        b = self.packet() + bytes(r.getrandbits(8) for _ in range(r.choice((0, 0, 1, 9))))
        if op == "idx":
            self.emit("idx", i, hexs(b[:max(self.c.iw, len(b) if r.random() < 0.5 else 0)]))
            return
        f = self.form(PAIRS)
        if f in PAIR_PADS and self.c.max_args() > 600:
            f = 0
        if r.random() < self.w["fault"] and f not in PAIR_PADS:
            b = b[:r.randint(0, len(b))]
        self.emit("disp", i, f, hexs(b), self.lim() if f in PAIR_FAIL else 0, self.arm())

    # -- keys
    def keys(self, n, no_min, enc=1, dec=1, hook=1):
        r = self.rnd
        self.emit("seed", r.randrange(1, 1 << 40), int(no_min))
        self.emit("reset")
        what = ["enc"] * enc + ["dec"] * dec + (["hook"] * hook if self.c.hooks else [])
        for _ in range(n):
            op = r.choice(what)
            if op == "enc":
                j = r.choice(self.c.hot)
                f = r.choice(ENCODES) if self.w["forms"] and self.c.all_forms else r.choice((0, 2))
                self.emit("enc", j, f, 0)
            elif op == "dec":
                j = r.choice(self.c.hot)
                f = self.form(READS)
                if f in READ_PADS and self.c.iw + self.c.max_args() > 600:
                    f = 0
                b = self.ret_bytes(self.c.rsize(j), f in READ_PADS)
                self.emit("dec", j, f, hexs(b))
            else:
                h = r.randrange(len(self.c.hooks))
                f = self.form(PAIRS)
                if f in PAIR_PADS and self.c.max_args() > 600:
                    f = 0
                b = self.ret_bytes(self.c.rsize(self.c.hooks[h][0]), f in PAIR_PADS)
                self.emit("hook", h, r.randrange(7), f, hexs(b), self.lim() if f in PAIR_FAIL else 0, self.arm())

    def holding(self, n, no_min):
        """Actions on their own, without any dispatcher"""
        self.emit("seed", self.rnd.randrange(1, 1 << 40), int(no_min))
        self.emit("reset")
        self.held = {}
        for _ in range(n):
            self.actions(0, None)

    def ret_bytes(self, n, padded):
        r = self.rnd
        m = r.random()
        if m < 0.4:
            b = bytes(r.choice((0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff)) for _ in range(n))
        else:
            b = bytes(r.getrandbits(8) for _ in range(n))
        b += bytes(r.getrandbits(8) for _ in range(r.choice((0, 0, 1, 7))))
        if padded:
            b += bytes(max(0, n - len(b)))
        elif r.random() < self.w["fault"]:
            b = b[:r.randint(0, len(b))]
        return b

    def sizes(self):
        self.emit("seed", self.rnd.randrange(1, 1 << 40), 1)
        self.emit("reset")
        self.emit("sizes")
        for j in self.c.hot:
            self.emit("ksize", j)
        i = 0
        for k in self.w["kinds"]:
            for p in self.w["pols"]:
                i += 1
                self.emit("new", i, k, p, self.rnd.randrange(3))
                for j in range(len(self.c.fns)):
                    if len(self.c.fns) < 20 or j in self.c.hot:
                        self.emit("asize", i, j)
                for j in self.c.hot:
                    self.emit("rep", i, j, self.rnd.randrange(17))
                    self.emit("asize", i, j)


def no_min(cfg):
    return cfg.mo in ("SIGNED_MAGNITUDE", "ONES_COMPLEMENT")

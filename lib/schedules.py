"""Schedules enumerated by TLC from the specification (MCSchedule), as scripts for the harness."""
import json
import re
from scripts import hexs, READ_PADS, PAIR_PADS, PAIR_FAIL, WRITE_FAIL, REPLY_FAIL, READS, WRITES, PAIRS
from core import Broken

READ_OK = [f for f in range(READS) if f not in READ_PADS]
PAIR_OK = [f for f in range(PAIRS) if f not in PAIR_PADS]


def put(*bs, d=1, arm=0):
    return dict(op="put", d=d, b=list(bs), arm=arm)


def rd(*bs, d=1, arm=0):
    return dict(op="rd", d=d, b=list(bs), arm=arm)


def call(*bs, d=1, arm=0, lim=0):
    return dict(op="call", d=d, b=list(bs), arm=arm, lim=lim)


def get(n=1, d=1):
    return dict(op="get", d=d, n=n)


def wr(lim=0, d=1):
    return dict(op="wr", d=d, lim=lim)


def rep(i, f=0, d=1):
    return dict(op="rep", d=d, i=i, f=f)


def mv(d, d2):
    return dict(op="mv", d=d, d2=d2)


def cp(d, d2):
    return dict(op="cp", d=d, d2=d2)


def act(i, *bs, d=1):
    return dict(op="act", d=d, i=i, b=list(bs))


def reply(j, d=1, lim=0):
    return dict(op="reply", d=d, j=j, lim=lim)


def enumerate_schedules(ck, cfg, mode, depth, new, ops, name):
    """Runs TLC; list of schedules, each a list of operations"""
    kf, sf = ck.path("sk_%s.json" % name), ck.path("ss_%s.json" % name)
    json.dump(cfg.json([]), open(kf, "w"))
    json.dump(dict(mode=mode, depth=depth, new=new, ops=ops), open(sf, "w"))
    c, out, gen, distinct = ck.tlc("MCSchedule.tla", "MCSchedule.cfg", env={"KEYRINGS": kf, "SCHEDULE": sf}, timeout=600)
    if "Model checking completed. No error has been found." not in out:
        raise Broken("MCSchedule %s: %s" % (name, out[-2000:]))
    found = set(re.findall(r'<<"SCHEDULE", <<([\d, ]+)>>\s*>>', out))
    ck.states += distinct
    ck.transitions += gen
    ck.models.append({"module": "MCSchedule", "config": name, "mode": mode, "depth": depth, "operations": len(ops),
                      "distinct": distinct, "generated": gen, "schedules": len(found)})
    return [[ops[int(k) - 1] for k in s.split(", ")] for s in sorted(found)]


def line(o, rnd, forms):
    """One operation as a script line, in some form"""
    op, d = o["op"], o["d"]
    if op == "put":
        return "put %d %s %d" % (d, hexs(o["b"]), o["arm"])
    if op == "rd":
        return "rd %d %d %s %d" % (d, rnd.choice(READ_OK) if forms else 0, hexs(o["b"]), o["arm"])
    if op == "call":
        fs = [f for f in PAIR_OK if not o["lim"] or f in PAIR_FAIL]
        return "call %d %d %s %d %d" % (d, rnd.choice(fs) if forms else 0, hexs(o["b"]), o["lim"], o["arm"])
    if op == "get":
        return "get %d %d" % (d, o["n"])
    if op == "wr":
        fs = [f for f in range(WRITES) if not o["lim"] or f in WRITE_FAIL]
        return "wr %d %d %d" % (d, rnd.choice(fs) if forms else 0, o["lim"])
    if op == "rep":
        return "rep %d %d %d" % (d, o["i"], o["f"])
    if op in ("mv", "cp"):
        return "%s %d %d %d" % (op, d, o["d2"], o.get("how", rnd.randrange(2)))
    if op == "act":
        return "act %d %d %d %s 0 0" % (d, o["i"], rnd.choice(PAIR_OK) if forms else 0, hexs(o["b"]))
    if op == "reply":
        return "reply %d %d %d %d" % (d, o["j"], rnd.choice(REPLY_FAIL if o["lim"] else range(6)) if forms else 0, o["lim"])


def script(schedules, new, cfg, rnd, forms=True, probe=True, no_min=0, kinds=None, pols=None):
    """Sections for the schedules.  The probe which follows each makes hidden state observable: whatever is pending is
    retrieved, what is being received is completed, and every function is called."""
    out = []
    index = lambda j: j.to_bytes(cfg.iw, cfg.en.lower())
    for n, s in enumerate(schedules):
        out.append("seed %d %d" % (rnd.randrange(1, 1 << 40), no_min))
        out.append("reset")
        alive = set()
        k, p = new[0]["kind"], new[0]["pol"]   # the same for all: they are assigned to each other
        k = rnd.choice(kinds[k]) if kinds else k
        p = rnd.choice(pols) if pols else p
        for x in new:
            alive.add(x["d"])
            out.append("new %d %s %s %d" % (x["d"], k, p, rnd.randrange(3)))
        for o in s:
            out.append(line(o, rnd, forms))
            if o["op"] == "mv":
                alive.discard(o["d"])
                alive.add(o["d2"])
            elif o["op"] == "cp":
                alive.add(o["d2"])
        if not probe:
            continue
        for d in sorted(alive):
            out.append("wr %d 0 0" % d)
            # complete what is being received, whatever it is
            n = cfg.iw + cfg.max_args()
            if k in ("double", "cust2"):
                out.append("put %d %s 0" % (d, "00" * n))
                out.append("wr %d 0 0" % d)
            else:
                for _ in range(n):
                    out.append("put %d 00 0" % d)
                    out.append("wr %d 0 0" % d)
            for j in cfg.hot:
                out.append("rd %d 0 %s 0" % (d, (index(j) + bytes(rnd.getrandbits(8) for _ in range(cfg.asize(j)))).hex()))
                out.append("wr %d 0 0" % d)
    return out

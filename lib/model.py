"""Keyring descriptors and the C++ translation units made from them.

A type is a tuple: ("u", n) ("s", n) ("b",) ("a", count, elem) std::array
("c", count, elem) C array (parameters only) ("o", k) k-th user type ("v",).
"""
import random

CXX = {("u", 1): ["unsigned char", "std::uint8_t"], ("u", 2): ["unsigned short", "std::uint16_t"],
       ("u", 4): ["unsigned int", "std::uint32_t"], ("u", 8): ["unsigned long", "unsigned long long", "std::uint64_t"],
       ("s", 1): ["signed char", "char", "std::int8_t"], ("s", 2): ["short", "std::int16_t"],
       ("s", 4): ["int", "std::int32_t"], ("s", 8): ["long", "long long", "std::int64_t"]}
SCALARS = list(CXX) + [("b",)]
MODES = ["SIGNED_MAGNITUDE", "ONES_COMPLEMENT", "TWOS_COMPLEMENT", "OFFSET_BINARY"]
ENDIANS = ["LITTLE", "BIG"]


class Config:
    """A keyring, the user types it needs, its hooks and the keyring reply() uses"""

    def __init__(self, name, en, mo, fns, users=(), hot=None, replies=(1, 4), hooks=(), kinds=None, reply_pad=0):
        self.name, self.en, self.mo = name, en, mo
        self.users = list(users)    # each a list of member types, or ("heap", n), ("intern", n) for handles to n bytes
        self.fns = list(fns)        # each (param types, return type)
        self.hot = list(hot) if hot is not None else list(range(len(fns)))
        self.replies = list(replies)  # sizes of the buffers of the reply keyring
        self.reply_pad = reply_pad  # how many functions come before those which take these buffers
        self.reply_en = ENDIANS[(len(self.fns) + len(self.replies) + (en == "BIG")) % 2]
        self.hooks = list(hooks)    # each (target, return type)
        self.iw = 1 if len(fns) < 256 else 2 if len(fns) < 65536 else 4
        self.all_forms = True

    # -- sizes
    def size(self, t):
        k = t[0]
        if k in "us":
            return t[1]
        if k == "b":
            return 1
        if k in "ac":
            return t[1] * self.size(t[2])
        if k == "o":
            return sum(self.size(m) for m in self.members(t[1]))
        return 0

    def members(self, i):
        u = self.users[i]
        return [("a", u[1], ("u", 1))] if u[0] in ("heap", "intern") else u

    def asize(self, j):
        return sum(self.size(t) for t in self.fns[j][0])

    def rsize(self, j):
        return self.size(self.fns[j][1])

    def max_args(self):
        return max(self.asize(j) for j in range(len(self.fns)))

    def max_ret(self):
        return max(self.rsize(j) for j in range(len(self.fns)))

    # -- descriptors for TLC
    def desc(self, t):
        k = t[0]
        if k in "us":
            return {"k": k, "n": t[1]}
        if k == "b":
            return {"k": "b", "n": 1}
        if k in "ac":
            return {"k": "a", "c": t[1], "e": self.desc(t[2])}
        if k == "o":
            return {"k": "o", "f": [self.desc(m) for m in self.members(t[1])]}
        return {"k": "v"}

    def json(self, watch):
        k1 = {"en": self.en, "mo": self.mo,
              "fns": [{"a": [self.desc(t) for t in a], "r": self.desc(r)} for a, r in self.fns]}
        k2 = {"en": self.reply_en, "mo": self.mo,
              "fns": [{"a": [], "r": {"k": "v"}} for _ in range(self.reply_pad)] + [{"a": [self.desc(("a", n, ("u", 1)))], "r": {"k": "v"}} for n in self.replies]}
        hooks = [{"a": [] if self.fns[j][1] == ("v",) else [self.desc(self.fns[j][1])], "r": self.desc(r)}
                 for j, r in self.hooks]
        return {"keyrings": [k1, k2], "hooks": hooks, "watch": sorted(watch)}

    # -- C++
    def cxx(self, t, rnd):
        k = t[0]
        if k in "us":
            return rnd.choice(CXX[t])
        if k == "b":
            return "bool"
        if k in "ac":
            return "std::array<%s, %d>" % (self.cxx(t[2], rnd), t[1])
        if k == "o":
            return "vp::U%d" % t[1]
        return "void"

    def param(self, t, rnd):
        if t[0] == "c":
            return "const %s (&)[%d]" % (self.cxx(t[2], rnd), t[1])
        s = self.cxx(t, rnd)
        return "const %s &" % s if rnd.random() < 0.3 else s

    def source(self):
        rnd = random.Random("cxx " + self.name)
        o = ['#include "base.hpp"', "#include <upd/buffered_dispatcher.hpp>", "#include <upd/dispatcher.hpp>",
             "#include <upd/key.hpp>", "#include <upd/keyring.hpp>", "#include <upd/tuple.hpp>"]
        w = o.append
        for i, u in enumerate(self.users):
            w("namespace vp {")
            if u[0] == "heap":
                n = u[1]
                w("struct U%d { std::vector<unsigned char> v = std::vector<unsigned char>(%d); };" % (i, n))
                w("inline void canon(bytes &o, const U%d &u) { o.insert(o.end(), u.v.begin(), u.v.end()); }" % i)
                w("inline void gen(U%d &u) { for (auto &c : u.v) gen(c); }" % i)
                w("inline const unsigned char *uncanon(const unsigned char *p, U%d &u) { for (auto &c : u.v) p = uncanon(p, c); return p; }" % i)
                w("}")
                w("template<> struct upd_extension<vp::U%d> {" % i)
                w("  template<typename V> static void serialize(const vp::U%d &u, V &view) { std::array<unsigned char, %d> a;" % (i, n))
                w("    std::copy(u.v.begin(), u.v.end(), a.begin()); view.template set<0>(a); }")
                w("  static vp::U%d unserialize(std::array<unsigned char, %d> a) { vp::U%d u; u.v.assign(a.begin(), a.end()); return u; }" % (i, n, i))
                w("};")
                continue
            if u[0] == "intern":
                n = u[1]
                w("struct U%d { std::uint32_t h{}; using bytes_t = std::array<unsigned char, %d>;" % (i, n))
                w("  static std::deque<bytes_t> &table() { static std::deque<bytes_t> t(1); return t; }")
                w("  const bytes_t &get() const { return table()[h]; }")
                w("  void put(const bytes_t &a) { h = static_cast<std::uint32_t>(table().size()); table().push_back(a); } };")
                w("inline void canon(bytes &o, const U%d &u) { auto &a = u.get(); o.insert(o.end(), a.begin(), a.end()); }" % i)
                w("inline void gen(U%d &u) { U%d::bytes_t a; for (auto &c : a) gen(c); u.put(a); }" % (i, i))
                w("inline const unsigned char *uncanon(const unsigned char *p, U%d &u) { U%d::bytes_t a; for (auto &c : a) p = uncanon(p, c); u.put(a); return p; }" % (i, i))
                w("}")
                w("template<> struct upd_extension<vp::U%d> {" % i)
                w("  template<typename V> static void serialize(const vp::U%d &u, V &view) { view.template set<0>(u.get()); }" % i)
                w("  static vp::U%d unserialize(vp::U%d::bytes_t a) { vp::U%d u; u.put(a); return u; }" % (i, i, i))
                w("};")
                continue
            ms = [self.cxx(m, rnd) for m in u]
            w("struct U%d { %s };" % (i, " ".join("%s m%d{};" % (m, k) for k, m in enumerate(ms))))
            for sig, one in (("void canon(bytes &o, const U%d &u)", "canon(o, u.m%d);"), ("void gen(U%d &u)", "gen(u.m%d);")):
                w("inline " + sig % i + " { " + " ".join(one % k for k in range(len(ms))) + " }")
            w("inline const unsigned char *uncanon(const unsigned char *p, U%d &u) { %s return p; }"
              % (i, " ".join("p = uncanon(p, u.m%d);" % k for k in range(len(ms)))))
            w("}")
            w("template<> struct upd_extension<vp::U%d> {" % i)
            w("  template<typename V> static void serialize(const vp::U%d &u, V &view) { %s }"
              % (i, " ".join("view.template set<%d>(u.m%d);" % (k, k) for k in range(len(ms)))))
            w("  static vp::U%d unserialize(%s) { vp::U%d u; %s return u; }"
              % (i, ", ".join("%s a%d" % (m, k) for k, m in enumerate(ms)), i,
                 " ".join("u.m%d = a%d;" % (k, k) for k in range(len(ms)))))
            w("};")
        w("namespace cfg {")
        sigs = []
        hot = set(self.hot)
        for j, (a, r) in enumerate(self.fns):
            ps = [self.param(t, rnd) for t in a]
            ret = self.cxx(r, rnd)
            sigs.append((ps, ret))
            names = [("f%d" % j, j)]
            if j in hot:
                names += [("a%d_0" % j, 1000 + 2 * j), ("a%d_1" % j, 1001 + 2 * j)]
            for n, ident in names:
                w(function(n, ps, ret, ident))
            if j in hot:
                w(static_object("s%d" % j, ps, ret, 1001 + 2 * j, 3001 + 2 * j, j % 2))
        for j, n in enumerate(self.replies):
            p = "std::array<upd::byte_t, %d>" % n if j % 2 else "const upd::byte_t (&)[%d]" % n
            w(function("r%d" % j, [p], "void", -1))
        for h, (j, r) in enumerate(self.hooks):
            ret = self.fns[j][1]
            ps = [] if ret == ("v",) else [sigs[j][1] if h % 2 else "const %s &" % sigs[j][1]]
            w(function("h%d" % h, ps, self.cxx(r, rnd), 5000 + h))
            w(static_object("k%d" % h, ps, self.cxx(r, rnd), 5000 + h, 8000 + h, h % 2 == 0))
            sigs.append(None)
        en, mo = "upd::endianess::" + self.en, "upd::signed_mode::" + self.mo
        w("constexpr upd::endianess_h<%s> en{};" % en)
        w("constexpr upd::signed_mode_h<%s> mo{};" % mo)
        w("constexpr upd::endianess_h<upd::endianess::%s> reply_en{};" % self.reply_en)
        for j in range(self.reply_pad):
            w("inline void q%d() {}" % j)
        for k, e, names in (("K1", "en", ["f%d" % j for j in range(len(self.fns))]),
                            ("K2", "reply_en", ["q%d" % j for j in range(self.reply_pad)] + ["r%d" % j for j in range(len(self.replies))])):
            w("#if __cplusplus >= 201703L")
            default = k == "K1" and (self.en, self.mo) == ("LITTLE", "TWOS_COMPLEMENT")     # what a keyring is when not told
            w("constexpr upd::keyring var%s{upd::flist<%s>%s};" % (k, ", ".join(names), "" if default else ", %s, mo" % e))
            w("#else")
            w("constexpr auto var%s = upd::make_keyring(upd::make_flist(%s), %s, mo);"
              % (k, ", ".join("UPD_CTREF(%s)" % f for f in names), e))
            w("#endif")
        w("}")
        w("namespace vp {")
        w("using K1 = typename std::remove_cv<decltype(cfg::varK1)>::type;")
        w("using K2 = typename std::remove_cv<decltype(cfg::varK2)>::type;")
        w("using hot_t = ints<%s>;" % ", ".join(map(str, self.hot)))
        w("using reply_t = ints<%s>;" % ", ".join(map(str, range(len(self.replies)))))
        w("using hooks_t = ints<%s>;" % ", ".join(map(str, range(len(self.hooks)))))
        w("constexpr long VP_REPLY_FIRST = %d;" % self.reply_pad)
        w("constexpr std::size_t VP_PADDING = %d, VP_CAPACITY = %d;" % (self.iw + self.max_args(), self.max_ret() + 16))
        w("template<int KR, int I> struct fn; template<int H> struct hook;")
        for j in self.hot:
            ps, ret = sigs[j]
            w("template<> struct fn<1, %d> {" % j)
            w("  using sig = %s(%s);" % (ret, ", ".join(ps)))
            for m, n in (("orig", "f%d" % j), ("alt0", "a%d_0" % j), ("alt1", "a%d_1" % j)):
                w("  using %s = upd::unevaluated<decltype(cfg::%s) *, &cfg::%s>;" % (m, n, n))
            w("  static sig *alt(int k) { return k ? &cfg::a%d_1 : &cfg::a%d_0; }" % (j, j))
            w("#if __cplusplus >= 201703L")
            w("  static constexpr auto &alt1_ref = cfg::a%d_1; static constexpr auto &object = cfg::s%d;" % (j, j))
            w("  static auto key() { return cfg::varK1.get<cfg::f%d>(); }" % j)
            w("#else")
            w("  static K1::key_t<orig> key() { return cfg::varK1.get(UPD_CTREF(cfg::f%d)); }" % j)
            w("#endif")
            w("};")
        for j in range(len(self.replies)):
            w("template<> struct fn<2, %d> { using ref = upd::unevaluated<decltype(cfg::r%d) *, &cfg::r%d>;" % (j, j, j))
            w("  static K2::key_t<ref> key() { return cfg::varK2.get(UPD_CTREF(cfg::r%d)); } };" % j)
        for h, (j, r) in enumerate(self.hooks):
            w("template<> struct hook<%d> { enum { target = %d }; using sig = decltype(cfg::h%d);" % (h, j, h))
            w("  using ref = upd::unevaluated<decltype(cfg::h%d) *, &cfg::h%d>;" % (h, h))
            w("#if __cplusplus >= 201703L")
            w("  static constexpr auto &object = cfg::k%d;" % h)
            w("#endif")
            w("  static constexpr auto &fn_ref = cfg::h%d; };" % h)
        w("}")
        w("#define VP_ALL_FORMS %d" % (1 if self.all_forms else 0))
        w('#include "run.hpp"')
        return "\n".join(o) + "\n"


def static_object(name, ps, ret, itself, copy, const):
    """A functor with static storage duration, which tells whether it or a copy of it is called"""
    c = "const " if const else ""
    params = ", ".join(declarator(p, "x%d" % k) for k, p in enumerate(ps))
    return "struct T%s { %s operator()(%s) %s; bool set = true; }; %sT%s %s{}; inline %s T%s::operator()(%s) %s{ return vp::record<%s>(%s); }" % (
        name, ret, params, c.strip(), c, name, name, ret, name, params, c, ret,
        ", ".join(["this == &%s ? %d : %d" % (name, itself, copy), "0"] + ["x%d" % k for k in range(len(ps))]))


def declarator(p, name):
    return p.replace("(&)", "(&%s)" % name) if "(&)" in p else "%s %s" % (p, name)


def function(name, ps, ret, ident):
    return "inline %s %s(%s) { return vp::record<%s>(%s); }" % (
        ret, name, ", ".join(declarator(p, "x%d" % k) for k, p in enumerate(ps)), ret,
        ", ".join([str(ident), "0"] + ["x%d" % k for k in range(len(ps))]))

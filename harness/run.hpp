// Keys and the script interpreter
#pragma once
#include "disp.hpp"
#include <tuple>

namespace vp {

// ---------------------------------------------------------------- keys
template<typename T>
using plain = typename std::remove_cv<typename std::remove_reference<T>::type>::type;

inline void gen_each() {}
template<typename T, typename... Ts>
void gen_each(T &v, Ts &...vs) {
  gen(v);
  gen_each(vs...);
}

template<std::size_t... Is>
struct seq {};
template<std::size_t N, std::size_t... Is>
struct make_seq : make_seq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct make_seq<0, Is...> {
  using type = seq<Is...>;
};

template<typename Sig>
struct args_of;
template<typename R, typename... A>
struct args_of<R(A...)> {
  std::tuple<plain<A>...> values;
  template<std::size_t... Is>
  void generate(seq<Is...>) {
    gen_each(std::get<Is>(values)...);
  }
  template<std::size_t... Is>
  void canonical(bytes &o, seq<Is...>) {
    canon_all(o, std::get<Is>(values)...);
  }
  // packets which outlive the arguments, or are output along with other ones
  template<typename Key, std::size_t... Is>
  void held(Key k, long form, output &out, seq<Is...> is) {
    args_of other;
    other.generate(is);
    bytes before, ignored;
    auto ignore = [&](unsigned char c) { ignored.push_back(c); };
    switch (form) {
    default: {
      const auto m = k(std::get<Is>(values)...);
      std::swap(values, other.values);
      m.write_to(out.fn());
      std::swap(values, other.values);
      break;
    }
    case 36: {
      auto m = k(std::get<Is>(values)...);
      m >> out.own();
      break;
    }
    case 32: {
      auto m = k(std::get<Is>(values)...);
      const auto o = k(std::get<Is>(other.values)...);
      o.write_to(ignore);
      m >> out.it();
      break;
    }
    case 33: {
      auto m = k(std::get<Is>(values)...);
      m.write_to(ignore);
      auto m2 = std::move(m);
      m2.write_to(ignore);
      m2 >> out.fn();
      break;
    }
    case 34: {
      auto m = k(std::get<Is>(other.values)...);
      m = k(std::get<Is>(values)...);
      m.write_to(out.it());
      break;
    }
    case 35: {
      const auto m = k(std::get<Is>(values)...);
      const auto o = k(std::get<Is>(other.values)...);
      auto left = (std::size_t)(rnd() % (Key::payload_length + 1));
      try {
        m.write_to([&](unsigned char) {
          if (!left--)
            throw 0;
        });
      } catch (int) {}
      o >> ignore;
      m >> out.fn();
      break;
    }
    }
  }
  template<typename Key, std::size_t... Is>
  void encode(Key k, event &, long form, output &out, seq<Is...>) {
    if (form >= 40) {
      // a tuple of the arguments invoked on the key
      auto t = upd::tuple<Key::endianess, Key::signed_mode, plain<A>...>{std::get<Is>(values)...};
      const auto m = t.invoke(k);
      switch (form) {
      default: m.write_to(out.fn()); break;
      case 41: m >> out.it(); break;
      case 42:
        for (auto &byte : t)
          byte = (upd::byte_t)~byte;
        m.write_to(out.fn());
        break;
      }
      return;
    }
    if (form >= 31) {
      held(k, form, out, seq<Is...>{});
      return;
    }
    auto m = k(std::get<Is>(values)...);
    if (form >= 16) {
      const auto &cm = m;
      VP_WRITE(cm, form - 16, out)
      return;
    }
    if (form == 15) {
      k(std::get<Is>(values)...).write_to(out.ptr());
      return;
    }
    VP_WRITE(m, form, out)
  }
  using is = typename make_seq<sizeof...(A)>::type;
};

template<int I>
void encode(long form, long lim) {
  event e{"enc"};
  auto k = fn<1, I>::key();
  args_of<typename fn<1, I>::sig> a;
  a.generate(typename decltype(a)::is{});
  bytes c;
  a.canonical(c, typename decltype(a)::is{});
  output out{lim, k.payload_length + 16};
  char st = attempt([&]() -> char {
    a.encode(k, e, form, out, typename decltype(a)::is{});
    return 'R';
  });
  e.num("kr", 1).num("j", I).raw("a", c).str("st", status(st)).num("lim", lim);
  out.report(e, "w");
  e.end();
}

template<typename R>
struct decoder {
  template<typename Key>
  static void run(Key k, long form, input &in, bytes &v) {
#define VP_CANON(x)                                                                                                    \
  R r = x;                                                                                                             \
  canon(v, r)
#define VP_CANON_BLOCK(x)                                                                                              \
  {                                                                                                                    \
    const auto r = x;                                                                                                  \
    canon(v, r);                                                                                                       \
  }
    VP_READ(VP_CANON_BLOCK, k, form, in)
  }
};
template<>
struct decoder<void> {
#define VP_PLAIN(x) x
  template<typename Key>
  static void run(Key k, long form, input &in, bytes &) {
    VP_READ(VP_PLAIN, k, form, in)
  }
};

template<int I>
void decode(long form, const bytes &b) {
  event e{"dec"};
  auto k = fn<1, I>::key();
  input in{b, read_pads(form), padding};
  bytes v;
  char st = attempt([&]() -> char {
    decoder<typename decltype(k)::return_t>::run(k, form, in, v);
    return 'R';
  });
  e.num("kr", 1).num("j", I).str("st", status(st)).raw("v", v);
  in.report(e);
  e.end();
}

template<typename A>
void run_action(A &a, event &e, long form, const bytes &b, long lim) {
  input in{b, pair_pads(form), padding};
  output out{lim, capacity};
  char st = attempt([&]() -> char {
    VP_PAIR(VP_DISCARD, a, form, in, out)
    return 'R';
  });
  in.report(e);
  out.report(e, "out");
  e.num("lim", lim).str("st", status(st)).text("inv", inv_json());
  e.num("insz", (long long)a.input_size()).num("outsz", (long long)a.output_size());
}
template<int H>
void run_hook(long hform, long form, const bytes &b, long lim) {
  event e{"hook"};
  auto k = fn<1, hook<H>::target>::key();
  using sig = typename hook<H>::sig;
  e.num("kr", 1).num("h", H);
  switch (hform) {
  default:
  case 0: {
    auto a = k.with_hook(functor<sig>{5000 + H});
    run_action(a, e, form, b, lim);
    break;
  }
  case 1: {
    const auto a = k.with_hook(typename hook<H>::ref{});
    run_action(a, e, form, b, lim);
    break;
  }
  case 2: {
#if __cplusplus >= 201703L
    auto a = k.template with_hook<hook<H>::fn_ref>();
#else
    auto a = k.with_hook(typename hook<H>::ref{});
#endif
    run_action(a, e, form, b, lim);
    break;
  }
  case 3: {
    functor<sig> f{5000 + H};
    const auto a = k.with_hook(f);
    run_action(a, e, form, b, lim);
    break;
  }
  case 4: {
    auto a = k.with_hook(hook<H>::fn_ref);
    auto b2 = std::move(a);
    run_action(b2, e, form, b, lim);
    break;
  }
#if __cplusplus >= 201703L
  case 6: {
    const auto a = k.template with_hook<hook<H>::object>();
    run_action(a, e, form, b, lim);
    break;
  }
#endif
  case 5: {
    // response only: the result of the hook is discarded
    auto a = k.with_hook(functor<sig>{5000 + H});
    input in{b, false, 0};
    char st = attempt([&]() -> char {
      a(in.fn());
      return 'R';
    });
    in.report(e);
    e.num("lim", 0).str("st", status(st)).text("inv", inv_json()).num("noout", 1).raw("out", {});
    e.num("insz", (long long)a.input_size()).num("outsz", (long long)a.output_size());
    break;
  }
  }
  e.end();
}
template<int I>
void key_sizes() {
  auto k = fn<1, I>::key();
  args_of<typename fn<1, I>::sig> a;
  a.generate(typename decltype(a)::is{});
  bytes o;
  output out{0, 0};
  event dummy{"x"};
  a.encode(k, dummy, 0, out, typename decltype(a)::is{});
  event{"ksize"}.num("kr", 1).num("j", I).num("idx", (long long)k.index).num("plen", (long long)k.payload_length)
      .num("wlen", (long long)out.s.b.size()).end();
}

// ---------------------------------------------------------------- actions held on their own
struct held {
  bool empty = false;
  virtual ~held() {}
  virtual void fire(event &e, long form, const bytes &b, long lim) = 0;
  virtual std::unique_ptr<held> relocate() = 0;
  virtual std::unique_ptr<held> duplicate() = 0;
  virtual bool assign(held &from, long how) = 0;
  virtual bool exchange(box &d, long i) = 0;
  virtual bool install(box &d, long i, bool move) = 0;
};
inline upd::action duplicate_action(const upd::action &) { return {}; }
inline upd::no_storage_action duplicate_action(const upd::no_storage_action &a) { return a; }
inline void respond(const upd::action &a, input &in) { a(in.fn()); }
inline void respond(const upd::no_storage_action &a, input &in) { a(in.fn(), [](unsigned char) {}); }
template<typename A>
struct held_action : held {
  A a;
  explicit held_action(A &&x) : a{std::move(x)} {}
  void fire(event &e, long form, const bytes &b, long lim) override {
    if (form == 200) {
      // the result is discarded
      input in{b, false, 0};
      char st = attempt([&]() -> char {
        respond(a, in);
        return 'R';
      });
      in.report(e);
      e.num("lim", 0).str("st", status(st)).text("inv", inv_json()).num("noout", 1).raw("out", {});
    } else {
      input in{b, pair_pads(form & 63), padding};
      output out{lim, capacity};
      const A &c = a;
      char st = attempt([&]() -> char {
        if (form & 64) {
          VP_PAIR(VP_DISCARD, c, form & 63, in, out)
        } else {
          VP_PAIR(VP_DISCARD, a, form & 63, in, out)
        }
        return 'R';
      });
      in.report(e);
      out.report(e, "out");
      e.num("lim", lim).str("st", status(st)).text("inv", inv_json());
    }
    if (!empty)
      e.num("insz", (long long)a.input_size()).num("outsz", (long long)a.output_size());
  }
  std::unique_ptr<held> relocate() override {
    std::unique_ptr<held> p{new held_action<A>{std::move(a)}};
    p->empty = empty;
    return p;
  }
  std::unique_ptr<held> duplicate() override {
    std::unique_ptr<held> p;
    if (std::is_same<A, upd::no_storage_action>::value)
      p.reset(new held_action<A>{duplicate_action(a)});
    return p;
  }
  bool assign(held &from, long how) override {
    auto *f = dynamic_cast<held_action<A> *>(&from);
    if (!f)
      return false;
    if (how == 2)
      std::swap(a, f->a);
    else
      a = std::move(f->a);
    std::swap(empty, f->empty);
    return true;
  }
  bool install(box &d, long i, bool move) override { return !empty && d.install(i, &a, move); }
  bool exchange(box &d, long i) override { return !empty && d.exchange(i, &a); }
};
static std::map<long, std::unique_ptr<held>> kept;
template<typename A>
void keep(long s, A &&a) {
  kept[s].reset(new held_action<typename std::decay<A>::type>{std::forward<A>(a)});
}
// The same for what a key plans and what is wrapped by hand
template<typename Wrap>
struct keep_lambda {
  long s;
  Wrap w;
  template<typename Lambda>
  void operator()(Lambda &f) const {
    keep(s, w(f));
  }
};
template<typename Sig, typename Wrap>
bool keep_functor(long s, long form, Wrap w) {
  switch (form) {
  case 0: keep(s, w(functor<Sig>{last_functor})); return true;
  case 1: {
    functor<Sig> f{last_functor};
    keep(s, w(f));
    f.t.n = 5000;
    return true;
  }
  case 2: {
    std::unique_ptr<const_functor<Sig>> f{new const_functor<Sig>{last_functor}};
    const auto &c = *f;
    keep(s, w(c));
    c.t.n = 5000;
    return true;
  }
  case 3: lambdas<Sig>::with(last_functor, keep_lambda<Wrap>{s, w}); return true;
  case 4: keep(s, w(unique_functor<Sig>{last_functor})); return true;
  case 5: keep(s, w(std::function<Sig>{functor<Sig>{last_functor}})); return true;
  case 6: {
    lvalue_functor<Sig> f{last_functor};
    keep(s, w(f));
    f.t.n = 5000;
    return true;
  }
  }
  return false;
}
struct kept_as {
  long cb;
  bool own;
};
template<typename Key>
struct plan_with {
  Key k;
  template<typename F>
  upd::action operator()(F &&f) const {
    return k.with_hook(std::forward<F>(f));
  }
};
struct wrap_by_hand {
  template<typename F>
  upd::action operator()(F &&f) const {
    return upd::action{std::forward<F>(f), upd::endianess_h<K1::endianess>{}, upd::signed_mode_h<K1::signed_mode>{}};
  }
};
template<int H>
kept_as keep_hook(long s, long form) {
  const auto k = fn<1, hook<H>::target>::key();
  using sig = typename hook<H>::sig;
  switch (form) {
  case 7: keep(s, k.with_hook(hook<H>::fn_ref)); return {5000 + H, true};
  case 8: keep(s, k.with_hook(typename hook<H>::ref{})); return {5000 + H, false};
#if __cplusplus >= 201703L
  case 9: keep(s, k.template with_hook<hook<H>::fn_ref>()); return {5000 + H, false};
  case 10: keep(s, k.template with_hook<hook<H>::object>()); return {5000 + H, false};
#else
  case 9:
  case 10: keep(s, k.with_hook(typename hook<H>::ref{})); return {5000 + H, false};
#endif
  }
  ++last_functor;
  keep_functor<sig>(s, form, plan_with<typename std::decay<decltype(k)>::type>{k});
  return {last_functor, true};
}
template<int I>
kept_as keep_callback(long s, long form) {
  constexpr upd::endianess_h<K1::endianess> en{};
  constexpr upd::signed_mode_h<K1::signed_mode> mo{};
  using sig = typename fn<1, I>::sig;
  switch (form) {
  case 7: keep(s, upd::action{*fn<1, I>::alt(0), en, mo}); return {1000 + 2 * I, true};
  case 8: keep(s, upd::no_storage_action{typename fn<1, I>::alt0{}, en, mo}); return {1000 + 2 * I, false};
  case 9: keep(s, upd::no_storage_action{typename fn<1, I>::alt1{}, en, mo}); return {1001 + 2 * I, false};
#if __cplusplus >= 201703L
  case 10:
    keep(s, upd::no_storage_action{upd::unevaluated<decltype(fn<1, I>::object), fn<1, I>::object>{}, en, mo});
    return {1001 + 2 * I, false};
#else
  case 10: keep(s, upd::no_storage_action{typename fn<1, I>::alt1{}, en, mo}); return {1001 + 2 * I, false};
#endif
  }
  ++last_functor;
  keep_functor<sig>(s, form, wrap_by_hand{});
  return {last_functor, true};
}

#define VP_EACH(NAME, LIST, CALL)                                                                                      \
  template<int... Is>                                                                                                  \
  bool NAME(long i, const script &s, ints<Is...>) {                                                                    \
    bool done = false;                                                                                                 \
    (void)s;                                                                                                           \
    (void)std::initializer_list<int>{0, (i == Is ? (CALL, done = true, 0) : 0)...};                                    \
    return done;                                                                                                       \
  }
VP_EACH(do_encode, hot, encode<Is>(s.num(2), s.num(3)))
VP_EACH(do_decode, hot, decode<Is>(s.num(2), s.hex(3)))
VP_EACH(do_ksize, hot, key_sizes<Is>())
#define VP_KEEP(NAME, CALL)                                                                                            \
  template<int... Is>                                                                                                  \
  bool NAME(long i, long s, long form, kept_as &r, ints<Is...>) {                                                      \
    bool done = false;                                                                                                 \
    (void)std::initializer_list<int>{0, (i == Is ? (r = CALL<Is>(s, form), done = true, 0) : 0)...};                   \
    return done;                                                                                                       \
  }
VP_KEEP(do_keep_hook, keep_hook)
VP_KEEP(do_keep_callback, keep_callback)
VP_EACH(do_hook, hooks, run_hook<Is>(s.num(2), s.num(3), s.hex(4), s.num(5)))

// ---------------------------------------------------------------- a caller and a callee connected by two channels
static bytes up, down;
inline bytes shift(bytes &b, std::size_t n) {
  n = std::min(n, b.size());
  bytes r(b.begin(), b.begin() + (long)n);
  b.erase(b.begin(), b.begin() + (long)n);
  return r;
}
template<int I>
void remote_call(long form) {
  event e{"rcall"};
  auto k = fn<1, I>::key();
  args_of<typename fn<1, I>::sig> a;
  a.generate(typename decltype(a)::is{});
  bytes c;
  a.canonical(c, typename decltype(a)::is{});
  output out{0, k.payload_length + 16};
  attempt([&]() -> char {
    a.encode(k, e, form, out, typename decltype(a)::is{});
    return 'R';
  });
  const bytes &w = out.content();
  up.insert(up.end(), w.begin(), w.end());
  e.num("j", I).raw("a", c).end();
}
// Takes the response of a call made to I, as the result of read_from()
template<int I>
void remote_take(long form) {
  event e{"rtake"};
  auto k = fn<1, I>::key();
  input in{down, false, 0};
  bytes v;
  char st = attempt([&]() -> char {
    decoder<typename decltype(k)::return_t>::run(k, form, in, v);
    return 'R';
  });
  shift(down, in.taken());
  e.num("j", I).str("st", status(st)).raw("v", v).end();
}
// The same, through a hook
template<int H>
void remote_hook(long hform) {
  event e{"rtake"};
  auto k = fn<1, hook<H>::target>::key();
  input in{down, false, 0};
  output out{0, capacity};
  char st = attempt([&]() -> char {
    if (hform) {
      auto a = k.with_hook(typename hook<H>::ref{});
      a(in.fn(), out.fn());
    } else {
      auto a = k.with_hook(functor<typename hook<H>::sig>{5000 + H});
      a(in.single());
    }
    return 'R';
  });
  shift(down, in.taken());
  e.num("j", hook<H>::target).num("h", H).str("st", status(st)).text("inv", inv_json()).end();
}
VP_EACH(do_rcall, hot, remote_call<Is>(s.num(2)))
VP_EACH(do_rtake, hot, remote_take<Is>(s.num(2)))
VP_EACH(do_rhook, hooks, remote_hook<Is>(s.num(2)))

// ---------------------------------------------------------------- dispatchers
#ifndef VP_KINDS
#define VP_KINDS 31  // plain, single, double, cust1, cust2
#endif
#ifndef VP_POLICIES
#define VP_POLICIES 3  // any, weak
#endif
template<bool Enabled, typename D, upd::action_features F>
struct if_enabled {
  static std::unique_ptr<box> create(long form) { return box_impl<D, F>::create(form); }
};
template<typename D, upd::action_features F>
struct if_enabled<false, D, F> {
  static std::unique_ptr<box> create(long) { return nullptr; }
};
template<typename K, upd::action_features F, bool On>
std::unique_ptr<box> create(const std::string &kind, long form) {
  using plain_t = upd::dispatcher<K, F>;
  if (kind == "plain")
    return if_enabled<On && VP_KINDS & 1, plain_t, F>::create(form);
  if (kind == "single")
    return if_enabled<On && VP_KINDS & 2, upd::single_buffered_dispatcher<plain_t>, F>::create(form);
  if (kind == "double")
    return if_enabled<On && VP_KINDS & 4, upd::double_buffered_dispatcher<plain_t>, F>::create(form);
  if (kind == "cust1")
    return if_enabled<On && VP_KINDS & 8, custom1<plain_t>, F>::create(form);
  if (kind == "cust2")
    return if_enabled<On && VP_KINDS & 16, custom2<plain_t>, F>::create(form);
  return nullptr;
}

static void bad(const char *what) {
  std::fprintf(stderr, "script error: %s\n", what);
  std::exit(3);
}

inline int interpret(std::FILE *f) {
  std::map<long, std::unique_ptr<box>> d;
  script s{f, {}};
  auto at = [&](long i) -> box & {
    auto it = d.find(i);
    if (it == d.end())
      bad("no such dispatcher");
    return *it->second;
  };
  // What surrounds an operation: guard zones and live functors
  auto finish = [&](event &e, long id) {
    bool ok = true, ld = false;
    for (auto &p : d)
      ok = ok && p.second->intact();
    auto it = d.find(id);
    if (it != d.end())
      ld = it->second->loaded();
    e.num("ld", ld).num("g", ok).nums("live", alive_ids()).end();
  };
  auto held_at = [&](long i) -> held & {
    auto it = kept.find(i);
    if (it == kept.end())
      bad("no such action");
    return *it->second;
  };
  using W = upd::action_features;
  padding = VP_PADDING;    // from the generator, not from the library
  capacity = VP_CAPACITY;

  while (s.next()) {
    if (s.w.empty() || s.w[0][0] == '#')
      continue;
    const std::string &op = s.w[0];
    const long i = s.num(1);
    arm = 0;
    if (op == "seed") {
      seed((u64)i);
      no_min = s.num(2);
    } else if (op == "reset") {
      d.clear();
      kept.clear();
      alive.clear();
      up.clear();
      down.clear();
      last_functor = 9999;
      event{"reset"}.end();
    } else if (op == "new") {
      const bool any = s.w[3] == "any";
      auto b = any ? create<K1, W::ANY, (VP_POLICIES & 1) != 0>(s.w[2], s.num(4))
                   : create<K1, W::WEAK_REFERENCE, (VP_POLICIES & 2) != 0>(s.w[2], s.num(4));
      if (!b)
        bad("kind");
      event e{"new"};
      e.num("d", i).num("kr", 1).str("kind", b->kind()).str("pol", s.w[3]);
      d[i] = std::move(b);
      finish(e, i);
    } else if (op == "del") {
      event e{"del"};
      e.num("d", i);
      d.erase(i);
      finish(e, i);
    } else if (op == "put") {
      arm = s.num(3);
      event e{"put"};
      e.num("d", i);
      at(i).put(e, s.hex(2));
      finish(e, i);
    } else if (op == "rd") {
      arm = s.num(4);
      event e{"rd"};
      e.num("d", i);
      at(i).read(e, s.num(2), s.hex(3));
      finish(e, i);
    } else if (op == "get") {
      event e{"get"};
      e.num("d", i);
      at(i).get(e, s.num(2));
      finish(e, i);
    } else if (op == "wr") {
      event e{"wr"};
      e.num("d", i);
      at(i).write(e, s.num(2), s.num(3));
      finish(e, i);
    } else if (op == "call" || op == "disp") {
      arm = s.num(5);
      event e{op.c_str()};
      e.num("d", i);
      at(i).process(e, s.num(2), s.hex(3), s.num(4));
      finish(e, i);
    } else if (op == "act") {
      arm = s.num(6);
      event e{"act"};
      e.num("d", i);
      at(i).run(e, s.num(2), s.num(3), s.hex(4), s.num(5));
      finish(e, i);
    } else if (op == "idx") {
      event e{"idx"};
      e.num("d", i);
      at(i).lookup(e, s.hex(2));
      finish(e, i);
    } else if (op == "rep") {
      event e{"rep"};
      long id = 0;
      if (!at(i).replace(s.num(2), s.num(3), id))
        continue;  // a form this policy does not have
      e.num("d", i).num("i", s.num(2)).num("f", id);
      finish(e, i);
    } else if (op == "mv" || op == "cp") {
      const long j = s.num(2);
      box &from = at(i);
      event e{op.c_str()};
      e.num("d", i).num("d2", j);
      const bool move = op == "mv";
      if (s.num(3) == 1 && d.count(j)) {
        if (!d[j]->assign(from, move))
          continue;
      } else {
        auto b = move ? from.relocate() : from.duplicate();
        if (!b)
          continue;
        d[j] = std::move(b);
      }
      if (move && i != j) {
        e.nums("mid", alive_ids());
        d.erase(i);
      }
      finish(e, j);
    } else if (op == "reply") {
      event e{"reply"};
      e.num("d", i).num("kr", 2).num("j", VP_REPLY_FIRST + s.num(2));
      at(i).reply(e, s.num(2), s.num(3), s.num(4));
      finish(e, i);
    } else if (op == "rcall") {
      do_rcall(i, s, hot_t{});
    } else if (op == "rtake") {
      do_rtake(i, s, hot_t{});
    } else if (op == "rhook") {
      do_rhook(i, s, hooks_t{});
    } else if (op == "rstray") {
      const bytes b = s.hex(1);
      up.insert(up.end(), b.begin(), b.end());
      event{"rstray"}.raw("b", b).end();
    } else if (op == "rfeed") {
      event e{"rfeed"};
      at(1).receive(e, s.num(2), shift(up, (std::size_t)i));
      e.end();
    } else if (op == "rflush") {
      event e{"rflush"};
      const bytes b = at(1).send(e, s.num(2), i);
      down.insert(down.end(), b.begin(), b.end());
      e.end();
    } else if (op == "rserve") {
      event e{"rserve"};
      bytes w;
      shift(up, at(1).serve(e, i, up, w));
      down.insert(down.end(), w.begin(), w.end());
      e.end();
    } else if (op == "asize") {
      event e{"asize"};
      e.num("d", i);
      at(i).asize(e, s.num(2));
      finish(e, i);
    } else if (op == "enc") {
      do_encode(i, s, hot_t{});
    } else if (op == "dec") {
      do_decode(i, s, hot_t{});
    } else if (op == "hook") {
      arm = s.num(6);
      do_hook(i, s, hooks_t{});
    } else if (op == "keep") {
      // keep SLOT h|f|0 FORM INDEX
      const std::string &what = s.w[2];
      kept_as r{-1, true};
      event e{"keep"};
      e.num("s", i);
      kept.erase(i);
      if (what == "0")
        keep(i, upd::action{}), kept[i]->empty = true;
      else if (!(what == "h" ? do_keep_hook(s.num(4), i, s.num(3), r, hooks_t{}) : do_keep_callback(s.num(4), i, s.num(3), r, hot_t{})))
        bad("keep");
      e.num("kr", 1).str("what", what).num("i", s.num(4)).num("f", r.cb).num("own", r.own);
      finish(e, 0);
    } else if (op == "fire") {
      arm = s.num(5);
      event e{"fire"};
      e.num("s", i);
      held_at(i).fire(e, s.num(2), s.hex(3), s.num(4));
      finish(e, 0);
    } else if (op == "kmv" || op == "kcp") {
      const long j = s.num(2), how = s.num(3);
      event e{op.c_str()};
      e.num("s", i).num("t", j);
      held &from = held_at(i);
      if (op == "kmv" && how && kept.count(j)) {
        if (!kept[j]->assign(from, how))
          continue;
      } else {
        auto p = op == "kmv" ? from.relocate() : from.duplicate();
        if (!p)
          continue;
        kept[j] = std::move(p);
      }
      if (op == "kmv") {
        if (how != 2) // the actions were not exchanged
          e.nums("mid", alive_ids());
        kept.erase(i);
      }
      finish(e, 0);
    } else if (op == "swp") {
      event e{"swp"};
      e.num("d", i).num("i", s.num(2)).num("s", s.num(3));
      if (!held_at(s.num(3)).exchange(at(i), s.num(2)))
        continue;
      finish(e, i);
    } else if (op == "inst" || op == "instc") {
      event e{op.c_str()};
      e.num("d", i).num("i", s.num(2)).num("s", s.num(3));
      if (!held_at(s.num(3)).install(at(i), s.num(2), op == "inst"))
        continue;
      e.nums("mid", alive_ids());
      if (op == "inst")
        kept.erase(s.num(3));
      finish(e, i);
    } else if (op == "drop") {
      event e{"drop"};
      e.num("s", i);
      kept.erase(i);
      finish(e, 0);
    } else if (op == "ksize") {
      do_ksize(i, s, hot_t{});
    } else if (op == "sizes") {
      using S = upd::single_buffered_dispatcher<upd::dispatcher<K1, W::WEAK_REFERENCE>>;
      using D = upd::double_buffered_dispatcher<upd::dispatcher<K1, W::ANY>>;
      using S2 = upd::single_buffered_dispatcher<upd::dispatcher<K1, W::ANY>>;
      using D2 = upd::double_buffered_dispatcher<upd::dispatcher<K1, W::WEAK_REFERENCE>>;
      event{"sizes"}.num("kr", 1).num("n", (long long)K1::size).num("iw", sizeof(K1::index_t))
          .num("ib", (long long)D::input_buffer_size).num("ob", (long long)D::output_buffer_size)
          .num("sb", (long long)S::buffer_size).end();
      event{"sizes"}.num("kr", 1).num("n", (long long)upd::dispatcher<K1, W::ANY>::size)
          .num("iw", sizeof(upd::dispatcher<K1, W::WEAK_REFERENCE>::index_t))
          .num("ib", (long long)D2::input_buffer_size).num("ob", (long long)D2::output_buffer_size)
          .num("sb", (long long)S2::buffer_size).end();
    } else
      bad(op.c_str());
  }
  d.clear();
  kept.clear();
  return 0;
}

} // namespace vp

int main() { return vp::interpret(stdin); }

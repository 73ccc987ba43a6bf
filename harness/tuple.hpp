// Tuples, views and integers: drives the public API from a script and records what is observed.
#pragma once
#include "base.hpp"
#include <forward_list>
#include <tuple>
#include <upd/tuple.hpp>

namespace vp {

// ---------------------------------------------------------------- regions of memory
static std::vector<long> accesses;  // positions a checking iterator was dereferenced at

// A minimal forward iterator which records where it is dereferenced
struct rec_iterator {
  using iterator_category = std::forward_iterator_tag;
  using value_type = unsigned char;
  using difference_type = std::ptrdiff_t;
  using pointer = unsigned char *;
  using reference = unsigned char &;

  rec_iterator() : base{nullptr}, at{0}, size{0} {}
  rec_iterator(unsigned char *b, long n) : base{b}, at{0}, size{n} {}
  reference operator*() const {
    if (at < 0 || at >= size) {
      accesses.push_back(-1000 - at);
      static unsigned char nowhere;
      return nowhere;
    }
    accesses.push_back(at);
    return base[at];
  }
  pointer operator->() const { return &**this; }
  rec_iterator &operator++() {
    ++at;
    return *this;
  }
  rec_iterator operator++(int) {
    rec_iterator r = *this;
    ++at;
    return r;
  }
  bool operator==(const rec_iterator &o) const { return at == o.at; }
  bool operator!=(const rec_iterator &o) const { return at != o.at; }

private:
  unsigned char *base;
  long at, size;
};

struct region {
  virtual ~region() {}
  virtual bytes content() = 0;
  virtual void poke(long at, unsigned char x) = 0;
  bool recording = false;
};

// The end of the block is the end of the allocation; the alignment of its start is chosen
struct block {
  block(const bytes &b, long align) : all{(unsigned char *)std::malloc(b.size() + (std::size_t)align + (b.empty() && !align))} {
    p = all + align;
    std::copy(b.begin(), b.end(), p);
  }
  ~block() { std::free(all); }
  block(const block &) = delete;
  unsigned char *all, *p;
};
template<typename It>
struct region_impl;
struct block_region : region {
  block_region(const bytes &b, long align) : m{b, align}, n{(long)b.size()} {}
  bytes content() override { return bytes(m.p, m.p + n); }
  void poke(long at, unsigned char x) override { m.p[at] = x; }
  block m;
  long n;
};
template<>
struct region_impl<unsigned char *> : block_region {
  using block_region::block_region;
  unsigned char *begin() { return m.p; }
};
template<>
struct region_impl<const unsigned char *> : block_region {
  using block_region::block_region;
  const unsigned char *begin() { return m.p; }
};
template<>
struct region_impl<rec_iterator> : block_region {
  region_impl(const bytes &b, long align) : block_region(b, align) { recording = true; }
  rec_iterator begin() { return rec_iterator{m.p, n}; }
};
template<typename C>
struct sequence_region : region {
  sequence_region(const bytes &b, long align) { fill(c, b, align); }
  template<typename D>
  static void fill(D &d, const bytes &b, long) {
    d.assign(b.begin(), b.end());
  }
  // A deque keeps its content in blocks: one of them ends soon after the beginning
  static void fill(std::deque<unsigned char> &d, const bytes &b, long align) {
    const long junk = align ? 512 - (3 * align - 2) % 512 : 0;
    for (long i = 0; i < junk; i++)
      d.push_back(0x77);
    for (unsigned char x : b)
      d.push_back(x);
    for (long i = 0; i < junk; i++)
      d.pop_front();
  }
  bytes content() override { return bytes(c.begin(), c.end()); }
  void poke(long at, unsigned char x) override { *std::next(c.begin(), at) = x; }
  typename C::iterator begin() { return c.begin(); }
  C c;
};
#define VP_REGION(C)                                                                                                   \
  template<>                                                                                                           \
  struct region_impl<C::iterator> : sequence_region<C> {                                                               \
    using sequence_region<C>::sequence_region;                                                                         \
  };
VP_REGION(std::vector<unsigned char>)
VP_REGION(std::deque<unsigned char>)
VP_REGION(std::list<unsigned char>)
VP_REGION(std::forward_list<unsigned char>)

static std::map<long, std::unique_ptr<region>> regions;

// ---------------------------------------------------------------- values
template<typename T>
struct slot {
  T v;
};
template<typename... Ts>
struct list {};
template<std::size_t... Is>
struct seq {};
template<std::size_t N, std::size_t... Is>
struct make_seq : make_seq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct make_seq<0, Is...> {
  using type = seq<Is...>;
};

template<typename L>
struct values;
template<typename... Ts>
struct values<list<Ts...>> {
  std::tuple<slot<Ts>...> t;
  using is = typename make_seq<sizeof...(Ts)>::type;
  void generate() { generate(is{}); }
  bytes canonical() const { return canonical(is{}); }
  template<std::size_t... Is>
  void generate(seq<Is...>) {
    (void)std::initializer_list<int>{0, (gen(std::get<Is>(t).v), 0)...};
  }
  template<std::size_t... Is>
  bytes canonical(seq<Is...>) const {
    bytes b;
    (void)std::initializer_list<int>{0, (canon(b, std::get<Is>(t).v), 0)...};
    return b;
  }
};

inline std::string bytes_json(const bytes &b) {
  std::string save, r;
  std::swap(save, line);
  line.clear();
  put_bytes(b);
  r = line;
  std::swap(save, line);
  return r;
}

// A functor tuples are invoked with; arguments by reference or by value
static std::vector<bytes> received;
static long received_calls;
template<typename... As>
long receive(const As &...as) {
  ++received_calls;
  (void)std::initializer_list<int>{0, ([&] {
                                     bytes b;
                                     canon(b, as);
                                     received.push_back(b);
                                   }(), 0)...};
  return 4242 + received_calls;
}
template<typename T>
struct by_value {
  using type = T;
};
template<typename T, std::size_t N>
struct by_value<T[N]> {
  using type = const T (&)[N];
};
template<typename... Ts>
struct by_ref_functor {
  long operator()(const Ts &...as) const { return receive(as...); }
};
template<typename... Ts>
struct by_value_functor {
  int state = 0;
  long operator()(typename by_value<Ts>::type... as) {
    ++state;
    return receive(static_cast<const Ts &>(as)...);
  }
};
template<typename... Ts>
long by_ref_function(const Ts &...as) {
  return receive(as...);
}
static void *void_result;
template<typename... Ts>
struct void_functor {
  void operator()(const Ts &...as) const { void_result = (void *)receive(as...); }
};

// ---------------------------------------------------------------- tuples and views
struct tbox {
  virtual ~tbox() {}
  virtual void set(event &, long i, long form) = 0;
  virtual void get(event &, long i, long form) = 0;
  virtual void assign(event &, long form) = 0;
  virtual void over(long delta) = 0;
  virtual void invoke(event &, long form) = 0;
  virtual void inspect(event &) = 0;
  virtual std::unique_ptr<tbox> slice(long i, long l, long form) = 0;
  virtual std::unique_ptr<tbox> copy(tbox *to, long form) = 0;
  long reg = 0;
};

constexpr upd::endianess other(upd::endianess e) {
  return e == upd::endianess::LITTLE ? upd::endianess::BIG : upd::endianess::LITTLE;
}
// Another mode which can express the same values
constexpr upd::signed_mode other(upd::signed_mode m) {
  return m == upd::signed_mode::SIGNED_MAGNITUDE  ? upd::signed_mode::ONES_COMPLEMENT
         : m == upd::signed_mode::ONES_COMPLEMENT ? upd::signed_mode::SIGNED_MAGNITUDE
         : m == upd::signed_mode::TWOS_COMPLEMENT ? upd::signed_mode::OFFSET_BINARY
                                                  : upd::signed_mode::TWOS_COMPLEMENT;
}

// Operations common to tuples and views
template<typename O, bool Writable, upd::endianess E, upd::signed_mode M, typename L>
struct ops;
template<typename O, bool Writable, upd::endianess E, upd::signed_mode M, typename... Ts>
struct ops<O, Writable, E, M, list<Ts...>> {
  using is = typename make_seq<sizeof...(Ts)>::type;
  using types = std::tuple<slot<Ts>...>;
  template<std::size_t I>
  using type = decltype(std::tuple_element<I, types>::type::v);

  template<std::size_t I>
  static void set1(O &o, event &e, long form, std::true_type) {
    using T = typename std::remove_reference<decltype(std::declval<typename std::tuple_element<I, types>::type &>().v)>::type;
    slot<T> s;
    gen(s.v);
    bytes b;
    canon(b, s.v);
    switch (form) {
    case 0: o.template set<I>(s.v); break;
    case 1: upd::set<I>(o, s.v); break;
    default: {
      const slot<T> c = s;
      upd::set<I>(o, c.v);
    }
    }
    e.raw("v", b);
  }
  template<std::size_t I>
  static void set1(O &, event &, long, std::false_type) {}
  template<std::size_t... Is>
  static void set(O &o, event &e, long i, long form, seq<Is...>) {
    (void)std::initializer_list<int>{
        0, (i == (long)Is ? (set1<Is>(o, e, form, std::integral_constant<bool, Writable>{}), 0) : 0)...};
  }
  template<std::size_t I>
  static void get1(O &o, event &e, long form) {
    const O &c = o;
    bytes b;
    switch (form) {
    case 0: {
      auto x = o.template get<I>();
      canon(b, x);
      break;
    }
    case 1: {
      auto x = upd::get<I>(o);
      canon(b, x);
      break;
    }
    case 2: {
      const auto &x = c.template get<I>();
      canon(b, x);
      break;
    }
    default: {
      const typename std::tuple_element<I, O>::type x = upd::get<I>(c);
      canon(b, x);
    }
    }
    e.raw("v", b);
  }
  template<std::size_t... Is>
  static void get(O &o, event &e, long i, long form, seq<Is...>) {
    (void)std::initializer_list<int>{0, (i == (long)Is ? (get1<Is>(o, e, form), 0) : 0)...};
  }
  template<typename T>
  struct ref_arg {
    using type = const T &;
  };
  // All the elements at once: by name where the language allows it
  template<typename... Vs>
  static long bound(const Vs &...vs) {
    received.clear();
    ++received_calls;
    (void)std::initializer_list<int>{0, (received.emplace_back(), canon(received.back(), vs), 0)...};
    return 4243;
  }
  template<std::size_t... Is>
  static long get_all(O &o, seq<Is...>) {
    static_assert(std::tuple_size<O>::value == sizeof...(Is), "");
    return bound(upd::get<Is>(o)...);
  }
#if __cplusplus >= 201703L
#define VP_BIND(HOW)                                                                                                          \
  if constexpr (sizeof...(Ts) == 1) { HOW[a1] = o; return bound(a1); }                                                        \
  else if constexpr (sizeof...(Ts) == 2) { HOW[a1, a2] = o; return bound(a1, a2); }                                           \
  else if constexpr (sizeof...(Ts) == 3) { HOW[a1, a2, a3] = o; return bound(a1, a2, a3); }                                   \
  else if constexpr (sizeof...(Ts) == 4) { HOW[a1, a2, a3, a4] = o; return bound(a1, a2, a3, a4); }                           \
  else if constexpr (sizeof...(Ts) == 5) { HOW[a1, a2, a3, a4, a5] = o; return bound(a1, a2, a3, a4, a5); }                   \
  else if constexpr (sizeof...(Ts) == 6) { HOW[a1, a2, a3, a4, a5, a6] = o; return bound(a1, a2, a3, a4, a5, a6); }           \
  else return get_all(o, is{});
  static long bind_copy(O &o) { VP_BIND(auto) }
  static long bind_ref(O &o) { VP_BIND(auto &) }
  static long bind_const(const O &c) { O &o = const_cast<O &>(c); VP_BIND(const auto &) }
#else
  static long bind_copy(O &o) { return get_all(o, is{}); }
  static long bind_ref(O &o) { return get_all(o, is{}); }
  static long bind_const(O &o) { return get_all(o, is{}); }
#endif
  static void invoke(O &o, event &e, long form) {
    received.clear();
    received_calls = 0;
    long r = 0;
    const O &c = o;
    switch (form) {
    case 0: r = o.invoke(by_ref_functor<Ts...>{}); break;
    case 1: {
      by_value_functor<Ts...> f;
      r = o.invoke(f);
      if (f.state != 1)
        r = -1;
      break;
    }
    case 2: r = c.invoke(by_ref_function<Ts...>); break;
    case 3: r = c.invoke(&by_ref_function<Ts...>); break;
    case 4: r = o.invoke([](const Ts &...as) { return receive(as...); }); break;
    case 5: c.invoke(void_functor<Ts...>{}); r = (long)void_result; break;
    case 6: r = bind_copy(o); break;
    case 7: r = bind_ref(o); break;
    default: r = bind_const(o);
    }
    std::string j = "[";
    for (auto &b : received)
      j += (j.size() > 1 ? "," : "") + bytes_json(b);
    e.text("v", j + "]").num("calls", received_calls).num("ret", r == 4243);
  }
  template<typename V, std::size_t... Is>
  static void fill(V &v, values<list<Ts...>> &vs, seq<Is...>) {
    (void)std::initializer_list<int>{0, (v.template set<Is>(std::get<Is>(vs.t).v), 0)...};
  }
  static void assign(O &o, event &e, long form, std::true_type) {
    values<list<Ts...>> vs;
    vs.generate();
    O *r = nullptr;
    switch (form) {
    case 0: {
      upd::tuple<E, M, Ts...> t;
      fill(t, vs, is{});
      r = &(o = std::move(t));
      break;
    }
    case 1: {
      upd::tuple<other(E), other(M), Ts...> t;
      fill(t, vs, is{});
      r = &(o = std::move(t));
      break;
    }
    case 2: {
      unsigned char b[O::size + 2];
      upd::tuple_view<unsigned char *, other(E), M, Ts...> t{b + 1};
      fill(t, vs, is{});
      r = &(o = std::move(t));
      break;
    }
    case 3: {
      std::list<unsigned char> b(O::size);
      upd::tuple_view<std::list<unsigned char>::iterator, E, other(M), Ts...> t{b.begin()};
      fill(t, vs, is{});
      r = &(o = upd::tuple_view<std::list<unsigned char>::iterator, E, other(M), Ts...>{b.begin()});
      break;
    }
    default: {
      upd::tuple<E, other(M), Ts...> t;
      fill(t, vs, is{});
      const auto u = t;
      r = &(o = upd::tuple<E, other(M), Ts...>(u));
    }
    }
    e.raw("v", vs.canonical()).num("self", r == &o);
  }
  static void assign(O &, event &, long, std::false_type) {}

  // Assignment of a view of bytes of the same sequence, delta bytes further
  template<typename It>
  static void over1(O &o, It it, long delta) {
    std::advance(it, delta);
    o = upd::tuple_view<It, other(E), M, Ts...>{it};
  }
  static void over(O &o, long delta, std::true_type) { over1(o, o.begin(), delta); }
  static void over(O &, long, std::false_type) {}
};
template<upd::endianess E, upd::signed_mode M, bool W, typename It, typename... Ts>
std::unique_ptr<tbox> view_box(const It &it, list<Ts...>, long form);

// Tuples which contain C arrays can not be assigned
template<typename... Ts>
struct assignable : std::true_type {};
template<typename T, typename... Ts>
struct assignable<T, Ts...> : std::integral_constant<bool, !std::is_array<T>::value && assignable<Ts...>::value> {};

template<typename O, bool W, upd::endianess E, upd::signed_mode M, typename... Ts>
struct common_box : tbox {
  using op = ops<O, W, E, M, list<Ts...>>;
  explicit common_box(O x) : o(std::move(x)) {}
  common_box() {}
  void set(event &e, long i, long form) override { op::set(o, e, i, form, typename op::is{}); }
  void get(event &e, long i, long form) override { op::get(o, e, i, form, typename op::is{}); }
  void assign(event &e, long form) override { op::assign(o, e, form, std::integral_constant<bool, W && assignable<Ts...>::value>{}); }
  void over(long delta) override { op::over(o, delta, std::integral_constant<bool, W && assignable<Ts...>::value>{}); }
  void invoke(event &e, long form) override { op::invoke(o, e, form); }
  template<typename B>
  static void contents(event &e, const B &b, const B &end) {
    e.raw("b", bytes(b, end));
  }
  void inspect(event &e) override {
    const O &c = o;
    e.num("n", (long long)O::size).num("c", (long long)std::tuple_size<O>::value);
    contents(e, c.begin(), c.end());
  }
  std::unique_ptr<tbox> slice(long, long, long) override { return nullptr; }
  std::unique_ptr<tbox> copy(tbox *, long) override { return nullptr; }
  O o;
};
template<bool W, upd::endianess E, upd::signed_mode M, typename It, typename... Ts>
struct view_impl : common_box<upd::tuple_view<It, E, M, Ts...>, W, E, M, Ts...> {
  using common_box<upd::tuple_view<It, E, M, Ts...>, W, E, M, Ts...>::common_box;
};
template<upd::endianess E, upd::signed_mode M, bool W, typename It, typename... Ts>
std::unique_ptr<tbox> view_box(const It &it, list<Ts...>, long form) {
  using box_t = view_impl<W, E, M, It, Ts...>;
  using view_t = upd::tuple_view<It, E, M, Ts...>;
  switch (form) {
  case 0: return std::unique_ptr<tbox>(new box_t(view_t{it}));
  case 1: return std::unique_ptr<tbox>(new box_t(upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<M>{}, it)));
  default: {
    view_t v{it};
    view_t w{v};
    return std::unique_ptr<tbox>(new box_t(std::move(w)));
  }
  }
}

// The storage of a tuple object as a region
template<typename T>
struct tuple_region : region {
  explicit tuple_region(T *t) : t{t} {}
  bytes content() override { return bytes(t->begin(), t->end()); }
  void poke(long at, unsigned char x) override {
    if (at & 1)
      (*t)[(std::size_t)at] = x;
    else
      *(t->begin() + at) = x;
  }
  T *t;
};

// Slices of a tuple: Slices is a list of std::integral_constant<int, 100 * i + l>
template<typename L, std::size_t I, std::size_t N>
struct sub_list;
template<typename... Us>
struct sub_acc {};
template<typename Acc, typename L, std::size_t I, std::size_t N>
struct sub_impl;
template<typename... Us, typename... Ts>
struct sub_impl<sub_acc<Us...>, list<Ts...>, 0, 0> {
  using type = list<Us...>;
};
template<typename... Us, typename T, typename... Ts>
struct sub_impl<sub_acc<Us...>, list<T, Ts...>, 0, 0> {
  using type = list<Us...>;
};
template<typename... Us, typename T, typename... Ts, std::size_t N>
struct sub_impl<sub_acc<Us...>, list<T, Ts...>, 0, N> {
  using type = typename sub_impl<sub_acc<Us..., T>, list<Ts...>, 0, N - 1>::type;
};
template<typename... Us, typename T, typename... Ts, std::size_t I, std::size_t N>
struct sub_impl<sub_acc<Us...>, list<T, Ts...>, I, N> {
  using type = typename sub_impl<sub_acc<Us...>, list<Ts...>, I - 1, N>::type;
};

// The static type of the view must be the one which is expected
template<upd::endianess E, upd::signed_mode M, bool W, typename It, typename V, typename... Ts>
std::unique_ptr<tbox> slice_box(V v, list<Ts...>) {
  using view_t = upd::tuple_view<It, E, M, Ts...>;
  static_assert(std::is_same<V, view_t>::value, "type of a slice");
  return std::unique_ptr<tbox>(new view_impl<W, E, M, It, Ts...>(v));
}

template<typename Slices, upd::endianess E, upd::signed_mode M, typename... Ts>
struct tuple_impl;
template<int... Ss, upd::endianess E, upd::signed_mode M, typename... Ts>
struct tuple_impl<ints<Ss...>, E, M, Ts...> : common_box<upd::tuple<E, M, Ts...>, true, E, M, Ts...> {
  using base = common_box<upd::tuple<E, M, Ts...>, true, E, M, Ts...>;
  using base::base;
  using base::o;

  template<int S>
  std::unique_ptr<tbox> slice1(long form) {
    constexpr std::size_t I = S / 100, N = S % 100;
    using sub = typename sub_impl<sub_acc<>, list<Ts...>, I, N>::type;
    const auto &c = o;
    switch (form) {
    case 0: return slice_box<E, M, true, unsigned char *>(o.template view<I, N>(), sub{});
    case 1: return slice_box<E, M, true, unsigned char *>(upd::make_view<I, N>(o), sub{});
    case 2: return slice_box<E, M, false, const unsigned char *>(c.template view<I, N>(), sub{});
    default: return slice_box<E, M, false, const unsigned char *>(upd::make_view<I, N>(c), sub{});
    }
  }
  std::unique_ptr<tbox> slice(long i, long l, long form) override {
    std::unique_ptr<tbox> r;
    (void)std::initializer_list<int>{0, (Ss == i * 100 + l ? (r = slice1<Ss>(form), 0) : 0)...};
    return r;
  }
  std::unique_ptr<tbox> copy(tbox *to, long form) override {
    switch (form) {
    case 0: return std::unique_ptr<tbox>(new tuple_impl(o));
    case 1: {
      auto t = o;
      return std::unique_ptr<tbox>(new tuple_impl(std::move(t)));
    }
    default: {
      auto *p = dynamic_cast<tuple_impl *>(to);
      if (p)
        p->o = o;
      return nullptr;
    }
    }
  }
};
template<typename Slices, upd::endianess E, upd::signed_mode M, typename... Ts, std::size_t... Is>
std::unique_ptr<tbox> make(event &e, long form, list<Ts...>, seq<Is...>) {
  using T = upd::tuple<E, M, Ts...>;
  using box_t = tuple_impl<Slices, E, M, Ts...>;
  constexpr upd::endianess_h<E> en{};
  constexpr upd::signed_mode_h<M> mo{};
  if (form == 0)
    return std::unique_ptr<tbox>(new box_t(T{}));
  if (form == 1)
    return std::unique_ptr<tbox>(new box_t(upd::make_tuple<Ts...>(en, mo)));
  values<list<Ts...>> vs;
  vs.generate();
  e.raw("v", vs.canonical());
  switch (form) {
  case 2: return std::unique_ptr<tbox>(new box_t(T(std::get<Is>(vs.t).v...)));
#if __cplusplus >= 201703L
  case 3: return std::unique_ptr<tbox>(new box_t(upd::tuple{en, mo, std::get<Is>(vs.t).v...}));
#endif
  default: return std::unique_ptr<tbox>(new box_t(upd::make_tuple(en, mo, std::get<Is>(vs.t).v...)));
  }
}
template<typename Slices, upd::endianess E, upd::signed_mode M, typename L>
struct maker {
  using T = tuple_impl<Slices, E, M>;
  template<typename... Ts>
  static std::unique_ptr<tbox> create(event &e, long id, long form, list<Ts...> l) {
    auto b = make<Slices, E, M>(e, form, l, typename make_seq<sizeof...(Ts)>::type{});
    attach<Ts...>(b.get(), id);
    return b;
  }
  template<typename... Ts>
  static void attach(tbox *b, long id) {
    auto &o = static_cast<tuple_impl<Slices, E, M, Ts...> *>(b)->o;
    regions[id].reset(new tuple_region<upd::tuple<E, M, Ts...>>(&o));
    b->reg = id;
  }
};

template<int K>
struct layout;  // types, slices, en, mo: made by the generator

template<int K, typename It, bool W>
std::unique_ptr<tbox> view_in(region *r, long off, long form) {
  auto *p = dynamic_cast<region_impl<It> *>(r);
  if (!p)
    return nullptr;
  It it = p->begin();
  std::advance(it, off);
  return view_box<layout<K>::en, layout<K>::mo, W>(it, typename layout<K>::types{}, form);
}
template<int K>
std::unique_ptr<tbox> any_view(region *r, long off, long form) {
  std::unique_ptr<tbox> b;
  if (!b)
    b = view_in<K, unsigned char *, true>(r, off, form);
  if (!b)
    b = view_in<K, const unsigned char *, false>(r, off, form);
  if (!b)
    b = view_in<K, rec_iterator, true>(r, off, form);
  if (!b)
    b = view_in<K, std::vector<unsigned char>::iterator, true>(r, off, form);
  if (!b)
    b = view_in<K, std::deque<unsigned char>::iterator, true>(r, off, form);
  if (!b)
    b = view_in<K, std::list<unsigned char>::iterator, true>(r, off, form);
  if (!b)
    b = view_in<K, std::forward_list<unsigned char>::iterator, true>(r, off, form);
  return b;
}
template<int... Ks>
std::unique_ptr<tbox> make_view(long k, region *r, long off, long form, ints<Ks...>) {
  std::unique_ptr<tbox> b;
  (void)std::initializer_list<int>{0, (k == Ks ? (b = any_view<Ks>(r, off, form), 0) : 0)...};
  return b;
}
template<int K>
std::unique_ptr<tbox> one_tuple(event &e, long id, long form) {
  using L = layout<K>;
  return maker<typename L::slices, L::en, L::mo, typename L::types>::create(e, id, form, typename L::types{});
}
template<int... Ks>
std::unique_ptr<tbox> make_tuple_of(event &e, long k, long id, long form, ints<Ks...>) {
  std::unique_ptr<tbox> b;
  (void)std::initializer_list<int>{0, (k == Ks ? (b = one_tuple<Ks>(e, id, form), 0) : 0)...};
  return b;
}
template<int K, typename... Ts>
void attach_as(tbox *b, long id, list<Ts...>) {
  using L = layout<K>;
  maker<typename L::slices, L::en, L::mo, typename L::types>::template attach<Ts...>(b, id);
}
template<int... Ks>
void attach_copy(long k, tbox *b, long id, ints<Ks...>) {
  (void)std::initializer_list<int>{0, (k == Ks ? (attach_as<Ks>(b, id, typename layout<Ks>::types{}), 0) : 0)...};
}

// ---------------------------------------------------------------- integers on their own
// Form: where in which sequence
template<typename T, upd::endianess E, upd::signed_mode M>
struct coder {
  static void enc(bytes &o, T v, long form) {
    switch (form) {
    case 0: {
      upd::tuple<E, M, T> t{v};
      o.insert(o.end(), t.begin(), t.end());
      break;
    }
    case 1: {
      upd::tuple<E, M, unsigned char, T, unsigned short> t;
      t.template set<1>(v);
      o.insert(o.end(), t.begin() + 1, t.begin() + 1 + sizeof(T));
      break;
    }
    case 2: {
      std::list<unsigned char> l(2 + sizeof(T), 0x5a);
      auto w = upd::make_view<bool, T>(upd::endianess_h<E>{}, upd::signed_mode_h<M>{}, l.begin());
      w.template set<1>(v);
      o.insert(o.end(), std::next(l.begin()), std::next(l.begin(), 1 + (long)sizeof(T)));
      break;
    }
    case 3: {
      upd::tuple<E, M, bool, std::array<T, 3>> t;
      std::array<T, 3> a{{T(0), v, T(1)}};
      t.template set<1>(a);
      o.insert(o.end(), t.begin() + 1 + sizeof(T), t.begin() + 1 + 2 * sizeof(T));
      break;
    }
    default: {  // at an odd address, exactly fitting
      unsigned char *p = (unsigned char *)std::malloc(1 + sizeof(T));
      upd::tuple_view<unsigned char *, E, M, T> w{p + 1};
      w.template set<0>(v);
      o.insert(o.end(), p + 1, p + 1 + sizeof(T));
      std::free(p);
    }
    }
  }
  static T dec(const unsigned char *b, long form) {
    switch (form) {
    case 0: {
      upd::tuple<E, M, T> t;
      std::copy(b, b + sizeof(T), t.begin());
      return t.template get<0>();
    }
    case 1: {
      upd::tuple<E, M, unsigned char, T, unsigned short> t;
      t[0] = t[1 + sizeof(T)] = t[2 + sizeof(T)] = b[0] ^ 0xff;
      std::copy(b, b + sizeof(T), t.begin() + 1);
      return upd::get<1>(t);
    }
    case 2: {
      std::list<unsigned char> l(b, b + sizeof(T));
      l.push_front(0xff);
      return upd::make_view<bool, T>(upd::endianess_h<E>{}, upd::signed_mode_h<M>{}, l.begin()).template get<1>();
    }
    case 3: {
      upd::tuple<E, M, bool, std::array<T, 3>> t;
      std::copy(b, b + sizeof(T), t.begin() + 1 + sizeof(T));
      return t.template get<1>()[1];
    }
    default: {
      unsigned char *p = (unsigned char *)std::malloc(1 + sizeof(T));
      std::copy(b, b + sizeof(T), p + 1);
      T r = upd::tuple_view<const unsigned char *, E, M, T>{p + 1}.template get<0>();
      std::free(p);
      return r;
    }
    }
  }
};
template<typename T>
T from_canon(const unsigned char *p) {
  T v;
  uncanon(p, v);
  return v;
}
template<typename T, upd::endianess E, upd::signed_mode M>
void code(const std::string &op, long form, const bytes &b, long hi, event &e) {
  using C = coder<T, E, M>;
  bytes o;
  constexpr std::size_t N = sizeof(T);
  if (op == "enc") {
    for (std::size_t i = 0; i < b.size(); i += N)
      C::enc(o, from_canon<T>(&b[i]), form);
    e.num("c", (long long)(b.size() / N)).raw("v", b).raw("b", o);
  } else if (op == "dec") {
    for (std::size_t i = 0; i < b.size(); i += N)
      canon(o, C::dec(&b[i], form));
    e.num("c", (long long)(b.size() / N)).raw("b", b).raw("v", o);
  } else {
    const bool inexpressible = std::is_signed<T>::value && op == "enc256" &&
                               (M == upd::signed_mode::SIGNED_MAGNITUDE || M == upd::signed_mode::ONES_COMPLEMENT);
    bool skip = false;
    for (int x = 0; x < 256; ++x) {
      unsigned char w[8] = {(unsigned char)x, (unsigned char)hi};
      if (op == "enc256") {
        if (inexpressible && (N == 1 ? x == 0x80 : x == 0 && hi == 0x80)) {
          if (N == 1)  // in the middle: the generator does not ask for it
            std::abort();
          skip = true;
          continue;
        }
        C::enc(o, from_canon<T>(w), form);
      } else
        canon(o, C::dec(w, form));
    }
    e.num("hi", hi).num("skip", skip).raw(op == "enc256" ? "b" : "v", o);
  }
}
template<typename T, upd::endianess E>
void code_mode(const std::string &op, long mode, long form, const bytes &b, long hi, event &e) {
  static const char *const names[] = {"SIGNED_MAGNITUDE", "ONES_COMPLEMENT", "TWOS_COMPLEMENT", "OFFSET_BINARY"};
  e.str("mo", names[mode]);
  switch (mode) {
  case 0: return code<T, E, upd::signed_mode::SIGNED_MAGNITUDE>(op, form, b, hi, e);
  case 1: return code<T, E, upd::signed_mode::ONES_COMPLEMENT>(op, form, b, hi, e);
  case 2: return code<T, E, upd::signed_mode::TWOS_COMPLEMENT>(op, form, b, hi, e);
  default: return code<T, E, upd::signed_mode::OFFSET_BINARY>(op, form, b, hi, e);
  }
}
template<typename T>
void code_type(const std::string &op, long endian, long mode, long form, const bytes &b, long hi) {
  event e{op.c_str()};
  e.str("k", std::is_same<T, bool>::value ? "b" : std::is_signed<T>::value ? "s" : "u").num("n", sizeof(T));
  e.str("en", endian ? "BIG" : "LITTLE");
  if (endian)
    code_mode<T, upd::endianess::BIG>(op, mode, form, b, hi, e);
  else
    code_mode<T, upd::endianess::LITTLE>(op, mode, form, b, hi, e);
  e.end();
}
template<typename... Ts>
void code_any(const std::string &op, long t, long endian, long mode, long form, const bytes &b, long hi, list<Ts...>) {
  long k = 0;
  (void)std::initializer_list<int>{0, (t == k++ ? (code_type<Ts>(op, endian, mode, form, b, hi), 0) : 0)...};
}

} // namespace vp

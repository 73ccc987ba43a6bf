// Script interpreter driving dispatchers, actions and keys through their public API, one trace event per call.
// The generated file defines, before including this one:
//   namespace cfg: user types, functions, keyrings (K1 the one under test, K2 the one used by reply()),
//   fn<KR, I> descriptors, hot (list of the indices which are instantiated), hook<H> descriptors.
#pragma once
#include "base.hpp"
#include <functional>

namespace vp {

template<int KR, int I>
struct fn;
template<int H>
struct hook;

// ---------------------------------------------------------------- byte streams in every form
// Forms which cannot fail at the end of the bytes are given padding
// Functors which keep their own position and cannot be copied
struct own_source {
  source s;
  explicit own_source(const bytes *b) : s{b} {}
  own_source(const own_source &) = delete;
  unsigned char operator()() {
    unsigned char c = s.at(s.pos);
    ++s.pos;
    return c;
  }
};
struct own_sink {
  sink s;
  own_sink() = default;
  own_sink(const own_sink &) = delete;
  void operator()(unsigned char c) { s.take(c); }
};
struct input {
  bytes b;
  bool padded;
  source s;
  own_source mine;
  std::list<unsigned char> l;
  std::vector<signed char> chars;
  std::stringbuf sb;
  std::istream is;
  long kind = 0;  // how consumption is observed: 0 position, 1 bytes looked at, 2 not at all, 3 stringbuf, 4 its own
  input(bytes in, bool pad, std::size_t padding)
      : b(std::move(in)), padded{pad}, s{&b}, mine{&b}, sb(std::ios::in), is(&sb) {
    if (pad)
      for (std::size_t i = 0; i < padding; ++i)
        b.push_back((unsigned char)(rnd() >> 13));
  }
  own_source &own() {
    kind = 4;
    return mine;
  }
  src_fn fn() { return src_fn{&s}; }
  count_it single() { return count_it{&s}; }
  fwd_it multi() {
    kind = 1;
    return fwd_it{&s};
  }
  const unsigned char *ptr() {
    kind = 2;
    return b.data();
  }
  std::list<unsigned char>::const_iterator list() {
    kind = 2;
    l.assign(b.begin(), b.end());
    return l.begin();
  }
  std::istreambuf_iterator<char> stream() {
    kind = 3;
    sb.str(std::string(b.begin(), b.end()));
    return std::istreambuf_iterator<char>(is);
  }
  std::vector<signed char>::const_iterator signed_chars() {
    kind = 2;
    chars.assign(b.begin(), b.end());
    return chars.cbegin();
  }
  // a plain function
  static source *&current() {
    static source *p;
    return p;
  }
  static unsigned char next() { return src_fn{current()}(); }
  static int next_int() { return src_fn{current()}(); }
  input &here() {
    current() = &s;
    return *this;
  }
  std::size_t taken() const { return kind == 4 ? mine.s.pos : std::max(s.pos, s.seen); }
  void report(event &e) {
    e.raw("b", b);
    if (kind == 2)
      e.num("nu", 1);
    else if (kind == 3)
      e.num("used", (long)b.size() - (long)sb.in_avail());
    else
      e.num("used", (long)taken());
  }
};
struct output {
  sink s;
  bytes area;
  std::list<unsigned char> l;
  std::stringbuf sb;
  std::ostream os;
  bytes back;
  int kind = 0;
  std::size_t cap;
  explicit output(long lim, std::size_t c) : sb(std::ios::out), os(&sb), cap{c} { s.lim = lim; }
  own_sink mine;
  own_sink &own() {
    kind = 5;
    mine.s.lim = s.lim;
    return mine;
  }
  dest_fn fn() { return dest_fn{&s}; }
  const_dest_fn cfn() { return const_dest_fn{&s}; }
  sink_it it() { return sink_it{&s}; }
  unsigned char *ptr() {
    kind = 1;
    area.assign(cap, guard_byte);
    return area.data();
  }
  char *chars() { return reinterpret_cast<char *>(ptr()); }
  static sink *&current() {
    static sink *p;
    return p;
  }
  static void accept(unsigned char c) { current()->take(c); }
  output &here() {
    current() = &s;
    return *this;
  }
  std::list<unsigned char>::iterator list() {
    kind = 2;
    l.assign(cap, guard_byte);
    return l.begin();
  }
  std::ostreambuf_iterator<char> stream() {
    kind = 3;
    return std::ostreambuf_iterator<char>(os);
  }
  std::back_insert_iterator<bytes> inserter() {
    kind = 4;
    return std::back_inserter(back);
  }
  const bytes &content() const { return kind == 4 ? back : kind == 5 ? mine.s.b : s.b; }
  void report(event &e, const char *name) {
    switch (kind) {
    case 0:
    case 5: e.raw(name, content()); break;
    case 1: e.raw(name, area).num("cap", 1); break;
    case 2: e.raw(name, bytes(l.begin(), l.end())).num("cap", 1); break;
    case 3: {
      std::string t = sb.str();
      e.raw(name, bytes(t.begin(), t.end()));
      break;
    }
    case 4: e.raw(name, content()); break;
    }
  }
};

// Whether a form is given padding (it cannot signal the end of the bytes)
inline bool read_pads(long f) { return f == 3 + 1 || f == 5 || f == 6 || f == 9 || f == 12 || f == 14; }
inline bool pair_pads(long f) { return f == 5 || f == 7 || f == 8 || f == 10 || f == 14; }

#ifndef VP_ALL_FORMS
#define VP_ALL_FORMS 1
#endif

// op(src), as read_from / operator<< of o
#define VP_READ(RET, o, form, in)                                                                                      \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = in.fn();                                                                                                  \
    RET(o.read_from(f));                                                                                               \
    break;                                                                                                             \
  }                                                                                                                    \
  case 1: RET(o.read_from(in.fn())); break;                                                                            \
  case 2: RET(o.read_from(in.single())); break;                                                                        \
  case 3: RET(o.read_from(in.multi())); break;                                                                         \
  case 4: RET(o.read_from(in.ptr())); break;                                                                           \
  case 5: RET(o.read_from(in.list())); break;                                                                          \
  case 6: RET(o.read_from(in.stream())); break;                                                                        \
  case 7: RET(o << in.fn()); break;                                                                                    \
  case 8: RET(o << in.single()); break;                                                                                \
  case 9: RET(o << in.ptr()); break;                                                                                   \
  case 10: {                                                                                                           \
    RET(o.read_from(in.own()));                                                                                        \
    break;                                                                                                             \
  }                                                                                                                    \
  case 11: {                                                                                                           \
    std::function<unsigned char()> f = in.fn();                                                                        \
    RET(o << f);                                                                                                       \
    break;                                                                                                             \
  }                                                                                                                    \
  case 12: RET(o << in.stream()); break;                                                                               \
  case 13: RET(o.read_from([&]() -> int { return in.fn()(); })); break;                                                \
  case 14: RET(o.read_from(in.signed_chars())); break;                                                                 \
  case 15: RET(o.read_from(in.here().next)); break;                                                                    \
  case 16: RET(o << &in.here().next_int); break;                                                                        \
  case 17: RET(o << in.own()); break;                                                                       \
  }

#define VP_WRITE(o, form, out)                                                                                         \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = out.fn();                                                                                                 \
    o.write_to(f);                                                                                                     \
    break;                                                                                                             \
  }                                                                                                                    \
  case 1: o.write_to(out.cfn()); break;                                                                                \
  case 2: o.write_to(out.it()); break;                                                                                 \
  case 3: o.write_to(out.inserter()); break;                                                                           \
  case 4: o.write_to(out.ptr()); break;                                                                                \
  case 5: o.write_to(out.list()); break;                                                                               \
  case 6: o.write_to(out.stream()); break;                                                                             \
  case 7: o >> out.fn(); break;                                                                                        \
  case 8: o >> out.it(); break;                                                                                        \
  case 9: o >> out.ptr(); break;                                                                                       \
  case 10: {                                                                                                           \
    o.write_to(out.own());                                                                                             \
    break;                                                                                                             \
  }                                                                                                                    \
  case 11: o >> out.inserter(); break;                                                                                 \
  case 12: o.write_to([&](int c) { out.s.take((unsigned char)c); }); break;                                            \
  case 13: o.write_to(out.chars()); break;                                                                             \
  case 14: o >> out.here().accept; break;                                                                               \
  case 15: o >> out.own(); break;                                                                              \
  }

// o(src, dest)
#if VP_ALL_FORMS
#define VP_PAIR(RET, o, form, in, out)                                                                                 \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = in.fn();                                                                                                  \
    auto g = out.fn();                                                                                                 \
    RET(o(f, g));                                                                                                      \
    break;                                                                                                             \
  }                                                                                                                    \
  case 1: RET(o(in.fn(), out.cfn())); break;                                                                           \
  case 2: RET(o(in.single(), out.it())); break;                                                                        \
  case 3: RET(o(in.single(), out.fn())); break;                                                                        \
  case 4: RET(o(in.fn(), out.it())); break;                                                                            \
  case 5: RET(o(in.ptr(), out.ptr())); break;                                                                          \
  case 6: RET(o(in.multi(), out.inserter())); break;                                                                   \
  case 7: RET(o(in.list(), out.fn())); break;                                                                          \
  case 8: RET(o(in.stream(), out.stream())); break;                                                                    \
  case 9: {                                                                                                            \
    auto f = in.fn();                                                                                                  \
    RET(o(f, out.inserter()));                                                                                         \
    break;                                                                                                             \
  }                                                                                                                    \
  case 10: {                                                                                                           \
    auto g = out.fn();                                                                                                 \
    RET(o(in.ptr(), g));                                                                                               \
    break;                                                                                                             \
  }                                                                                                                    \
  case 11: RET(o(in.fn(), out.ptr())); break;                                                                          \
  case 12: {                                                                                                           \
    RET(o(in.own(), out.own()));                                                                                       \
    break;                                                                                                             \
  }                                                                                                                    \
  case 13: RET(o(in.multi(), out.list())); break;                                                                      \
  case 14: RET(o(in.signed_chars(), out.chars())); break;                                                              \
  case 15: RET(o(in.here().next, out.here().accept)); break;                                                           \
  case 16: RET(o(&in.here().next, out.it())); break;                                                                    \
  case 17: RET(o(in.own(), out.it())); break;                                                                           \
  case 18: RET(o(in.single(), out.own())); break;                                                                   \
  }
#else
#define VP_PAIR(RET, o, form, in, out)                                                                                 \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = in.fn();                                                                                                  \
    auto g = out.fn();                                                                                                 \
    RET(o(f, g));                                                                                                      \
    break;                                                                                                             \
  }                                                                                                                    \
  case 2: RET(o(in.single(), out.it())); break;                                                                        \
  }
#endif
#if !VP_ALL_FORMS
#undef VP_READ
#define VP_READ(RET, o, form, in)                                                                                      \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = in.fn();                                                                                                  \
    RET(o.read_from(f));                                                                                               \
    break;                                                                                                             \
  }                                                                                                                    \
  case 2: RET(o.read_from(in.single())); break;                                                                        \
  }
#undef VP_WRITE
#define VP_WRITE(o, form, out)                                                                                         \
  switch (form) {                                                                                                      \
  default:                                                                                                             \
  case 0: {                                                                                                            \
    auto f = out.fn();                                                                                                 \
    o.write_to(f);                                                                                                     \
    break;                                                                                                             \
  }                                                                                                                    \
  case 2: o.write_to(out.it()); break;                                                                                 \
  }
#endif
#define VP_DISCARD(x) (void)(x)

// ---------------------------------------------------------------- user-provided buffers
// Heap memory of an exact size: guard zones, or the address sanitizer's
struct heap_buffer {
  std::size_t n;
#ifdef __SANITIZE_ADDRESS__
  std::unique_ptr<unsigned char[]> p;
  explicit heap_buffer(std::size_t size) : n{size}, p{new unsigned char[size]} { std::memset(p.get(), guard_byte, n); }
  unsigned char *data() { return p.get(); }
  bool intact() { return true; }
#else
  std::unique_ptr<guarded> p;
  explicit heap_buffer(std::size_t size) : n{size}, p{new guarded{size}} {}
  unsigned char *data() { return p->data(); }
  bool intact() { return p->intact(); }
#endif
  heap_buffer(heap_buffer &&) = default;
  heap_buffer &operator=(heap_buffer &&) = default;
  heap_buffer(const heap_buffer &o) : heap_buffer(o.n) { std::memcpy(data(), const_cast<heap_buffer &>(o).data(), n); }
  heap_buffer &operator=(const heap_buffer &o) { return *this = heap_buffer{o}; }
};

template<typename Disp>
class custom1 : public upd::buffered_dispatcher<custom1<Disp>, Disp> {
  using base_t = upd::buffered_dispatcher<custom1<Disp>, Disp>;

public:
  custom1() : buf{upd::single_buffered_dispatcher<Disp>::buffer_size + 0} {}
  template<typename K, upd::action_features F>
  custom1(K k, upd::action_features_h<F> f) : base_t{k, f}, buf{upd::single_buffered_dispatcher<Disp>::buffer_size + 0} {}
  unsigned char *ibuf_begin() { return buf.data(); }
  unsigned char *obuf_begin() { return buf.data(); }
  heap_buffer buf;
};
// Another base, with a virtual table and data: the library's base is not at the address of the object
struct bystander {
  virtual ~bystander() = default;
  bystander() = default;
  bystander(const bystander &) = default;
  bystander &operator=(const bystander &) = default;
  bool intact() const {
    for (auto w : words)
      if (w != 0xa5a5a5a5u)
        return false;
    return true;
  }
  std::uint32_t words[3] = {0xa5a5a5a5u, 0xa5a5a5a5u, 0xa5a5a5a5u};
};
template<typename Disp>
class custom2 : public bystander, public upd::buffered_dispatcher<custom2<Disp>, Disp> {
  using base_t = upd::buffered_dispatcher<custom2<Disp>, Disp>;

public:
  custom2()
      : ibuf{upd::double_buffered_dispatcher<Disp>::input_buffer_size + 0},
        obuf{upd::double_buffered_dispatcher<Disp>::output_buffer_size + 0} {}
  template<typename K, upd::action_features F>
  custom2(K k, upd::action_features_h<F> f)
      : base_t{k, f}, ibuf{upd::double_buffered_dispatcher<Disp>::input_buffer_size + 0},
        obuf{upd::double_buffered_dispatcher<Disp>::output_buffer_size + 0} {}
  unsigned char *ibuf_begin() { return ibuf.data(); }
  unsigned char *obuf_begin() { return obuf.data(); }
  heap_buffer ibuf, obuf;
};
template<typename D>
bool buffers_intact(D &) {
  return true;
}
template<typename D>
bool buffers_intact(custom1<D> &d) {
  return d.buf.intact();
}
template<typename D>
bool buffers_intact(custom2<D> &d) {
  return d.ibuf.intact() && d.obuf.intact() && d.bystander::intact();
}

// ---------------------------------------------------------------- operations on a dispatcher of any type
inline char status_char(upd::packet_status s) {
  switch (s) {
  case upd::packet_status::LOADING_PACKET: return 'L';
  case upd::packet_status::DROPPED_PACKET: return 'D';
  case upd::packet_status::RESOLVED_PACKET: return 'R';
  }
  return '?';
}
// Runs an operation, returns its status
template<typename Op>
char attempt(Op op) {
  try {
    return op();
  } catch (const callback_error &) {
    return 'X';
  } catch (const source_end &) {
    return 'S';
  } catch (const sink_full &) {
    return 'O';
  } catch (...) {
    return 'E';
  }
}
inline std::string status(char c) { return std::string(1, c); }

static long last_functor = 9999;  // stateful functors are numbered from 10000
static std::size_t padding = 0;   // enough to complete any packet
static std::size_t capacity = 0;  // enough for any response

struct box {
  virtual ~box() {}
  virtual bool intact() = 0;
  virtual bool loaded() = 0;
  virtual std::unique_ptr<box> relocate() = 0;
  virtual std::unique_ptr<box> duplicate() = 0;
  virtual bool assign(box &from, bool move) = 0;
  virtual void put(event &e, const bytes &b) = 0;
  virtual void get(event &e, long n) = 0;
  virtual void read(event &e, long form, const bytes &b) = 0;
  virtual void write(event &e, long form, long lim) = 0;
  virtual void process(event &e, long form, const bytes &b, long lim) = 0;
  virtual void run(event &e, long i, long form, const bytes &b, long lim) = 0;
  virtual void lookup(event &e, const bytes &b) = 0;
  virtual bool replace(long i, long form, long &f) = 0;
  virtual bool exchange(long i, upd::action *a) = 0;
  virtual bool install(long i, upd::action *a, bool move) = 0;
  virtual bool install(long i, upd::no_storage_action *a, bool move) = 0;
  virtual bool exchange(long i, upd::no_storage_action *a) = 0;
  virtual void reply(event &e, long j, long form, long lim) = 0;
  virtual void asize(event &e, long i) = 0;
  virtual std::size_t receive(event &e, long form, const bytes &b) = 0;
  virtual bytes send(event &e, long form, long n) = 0;
  virtual std::size_t serve(event &e, long form, const bytes &b, bytes &out) = 0;
  virtual const char *kind() = 0;
};

template<typename D>
struct is_plain : std::false_type {};
template<typename K, upd::action_features F>
struct is_plain<upd::dispatcher<K, F>> : std::true_type {};

template<typename D>
struct traits;
template<typename K, upd::action_features F>
struct traits<upd::dispatcher<K, F>> {
  using keyring = K;
};
template<template<typename> class B, typename D>
struct traits<B<D>> : traits<D> {};

template<typename D, upd::action_features F>
struct box_impl : box {
  static constexpr bool any = F == upd::action_features::ANY;
  using K = typename traits<D>::keyring;
  using index_t = typename D::index_t;
  using plain_t = is_plain<D>;

  guarded mem;
  D *o;

  template<typename Make>
  explicit box_impl(Make make) : mem{sizeof(D)}, o{make(mem.data())} {}
  ~box_impl() override { o->~D(); }

  bool intact() override { return mem.intact() && buffers_intact(*o); }

  static std::unique_ptr<box> create(long form);

  // -- relocation
  struct mover {
    D *from;
    D *operator()(void *p) { return new (p) D(std::move(*from)); }
  };
  std::unique_ptr<box> relocate() override { return std::unique_ptr<box>(new box_impl(mover{o})); }
  template<typename X>
  struct copier {
    const X *from;
    X *operator()(void *p) { return new (p) X(*from); }
  };
  std::unique_ptr<box> dup(std::true_type) { return nullptr; }
  std::unique_ptr<box> dup(std::false_type) { return std::unique_ptr<box>(new box_impl(copier<D>{o})); }
  std::unique_ptr<box> duplicate() override { return dup(std::integral_constant<bool, any>{}); }
  template<typename X>
  static void copy_assign(X &a, const X &b, std::false_type) {
    a = b;
  }
  template<typename X>
  static void copy_assign(X &, const X &, std::true_type) {}
  bool assign(box &from, bool move) override {
    auto *f = dynamic_cast<box_impl *>(&from);
    if (!f || (!move && any))
      return false;
    if (move)
      *o = std::move(*f->o);
    else
      copy_assign(*o, *f->o, std::integral_constant<bool, any>{});
    return true;
  }

  // -- buffered dispatchers only
  template<typename X>
  static bool loaded(const X &d, std::false_type) {
    return d.is_loaded();
  }
  template<typename X>
  static bool loaded(const X &, std::true_type) {
    return false;
  }
  bool loaded() override { return loaded(*o, plain_t{}); }

  template<typename X>
  static void put(X &d, event &e, const bytes &b, std::false_type) {
    std::string st = "[";
    char last = 0;
    bool last_ld = false;
    long count = 0, used = 0;
    auto flush = [&]() {
      if (count) {
        if (st.size() > 1)
          st += ',';
        st += "[\"";
        st += last;
        st += last_ld ? "\",1," : "\",0,";
        st += std::to_string(count);
        st += ']';
      }
    };
    for (unsigned char c : b) {
      char s = attempt([&]() { return status_char(d.put(c)); });
      ++used;
      bool ld = d.is_loaded();
      if (s != last || ld != last_ld) {
        flush();
        count = 0;
        last = s;
        last_ld = ld;
      }
      ++count;
      if (s == 'X' || s == 'E')
        break;
    }
    flush();
    st += ']';
    e.raw("b", b).text("st", st).num("used", used).text("inv", inv_json());
  }
  template<typename X>
  static void put(X &, event &, const bytes &, std::true_type) {}
  void put(event &e, const bytes &b) override { put(*o, e, b, plain_t{}); }

  template<typename X>
  static void get(X &d, event &e, long n, std::false_type) {
    bytes out;
    for (long i = 0; i < n; ++i) {
      bool ld = d.is_loaded();
      unsigned char c = d.get();
      if (ld)
        out.push_back(c);
    }
    e.num("n", n).raw("out", out);
  }
  template<typename X>
  static void get(X &, event &, long, std::true_type) {}
  void get(event &e, long n) override { get(*o, e, n, plain_t{}); }

#define VP_STATUS(x) return status_char(x)
  template<typename X>
  static void read(X &d, event &e, long form, const bytes &b, std::false_type) {
    input in{b, read_pads(form), padding};
    char st = attempt([&]() -> char {
      VP_READ(VP_STATUS, d, form, in)
      return '?';
    });
    in.report(e);
    e.str("st", status(st)).text("inv", inv_json());
  }
  template<typename X>
  static void read(X &, event &, long, const bytes &, std::true_type) {}
  void read(event &e, long form, const bytes &b) override { read(*o, e, form, b, plain_t{}); }

  template<typename X>
  static void write(X &d, event &e, long form, long lim, std::false_type) {
    output out{lim, capacity};
    char st = attempt([&]() -> char {
      VP_WRITE(d, form, out)
      return 'R';
    });
    out.report(e, "out");
    e.num("lim", lim).str("st", status(st));
  }
  template<typename X>
  static void write(X &, event &, long, long, std::true_type) {}
  void write(event &e, long form, long lim) override { write(*o, e, form, lim, plain_t{}); }

  // -- operator()
  template<typename X>
  static void process(X &d, event &e, long form, const bytes &b, long lim, std::false_type) {
    input in{b, pair_pads(form), padding};
    output out{lim, capacity};
    char st = attempt([&]() -> char {
      VP_PAIR(VP_STATUS, d, form, in, out)
      return '?';
    });
    in.report(e);
    out.report(e, "out");
    e.num("lim", lim).str("st", status(st)).text("inv", inv_json());
  }
  template<typename X>
  static void process(X &d, event &e, long form, const bytes &b, long lim, std::true_type) {
    input in{b, pair_pads(form), padding};
    output out{lim, capacity};
    bytes idx;
#define VP_INDEX(x)                                                                                                    \
  canon(idx, x);                                                                                                       \
  return 'R'
    char st = attempt([&]() -> char {
      VP_PAIR(VP_INDEX, d, form, in, out)
      return '?';
    });
    in.report(e);
    out.report(e, "out");
    e.num("lim", lim).str("st", status(st)).raw("idx", idx).text("inv", inv_json());
  }
  void process(event &e, long form, const bytes &b, long lim) override { process(*o, e, form, b, lim, plain_t{}); }

  // -- actions
  void run(event &e, long i, long form, const bytes &b, long lim) override {
    input in{b, pair_pads(form), padding};
    output out{lim, capacity};
    const D &cd = *o;
    const bool constant = form & 64;
    char st = attempt([&]() -> char {
      if (constant) {
        auto &a = cd[(index_t)i];
        VP_PAIR(VP_DISCARD, a, form & 63, in, out)
      } else {
        auto &a = (*o)[(index_t)i];
        VP_PAIR(VP_DISCARD, a, form & 63, in, out)
      }
      return 'R';
    });
    in.report(e);
    out.report(e, "out");
    e.num("i", i).num("lim", lim).str("st", status(st)).text("inv", inv_json());
  }

  template<typename X>
  static void lookup(X &d, event &e, const bytes &b, std::true_type) {
    bytes b1 = b;
    source s1{&b1}, s2{&b1};
    src_fn f1{&s1}, f2{&s2};
    bytes idx;
    const X &cd = d;
    canon(idx, cd.get_index(f1));
    auto *a = d.get_action(f2);
    long at = a ? a - &d[0] : -1;
    e.raw("b", b).raw("idx", idx).num("at", at).nums("used", {(long long)s1.pos, (long long)s2.pos}).text("inv", inv_json());
  }
  template<typename X>
  static void lookup(X &, event &, const bytes &, std::false_type) {}
  void lookup(event &e, const bytes &b) override { lookup(*o, e, b, plain_t{}); }

  // -- replacement
  template<int I>
  bool rep(long form, long &f, std::true_type) {
    using sig = typename fn<1, I>::sig;
    switch (form) {
    case 2: f = ++last_functor; o->template replace<I>(functor<sig>{f}); return true;
    case 3: {
      f = ++last_functor;
      functor<sig> x{f};
      o->template replace<I>(x);
      return true;
    }
    case 4: f = ++last_functor; (*o)[I] = upd::action{functor<sig>{f}, endian(), mode()}; return true;
    case 5: f = 1000 + 2 * I; (*o)[I] = upd::action{*fn<1, I>::alt(0), endian(), mode()}; return true;
    case 6: f = 1001 + 2 * I; o->template replace<I>(*fn<1, I>::alt(1)); return true;
    case 7: f = 1000 + 2 * I; o->template replace<I>(fn<1, I>::alt(0)); return true;
    case 8: {
      f = ++last_functor;
      std::function<sig> x{functor<sig>{f}};
      o->template replace<I>(x);
      return true;
    }
    case 10: {
      f = ++last_functor;
      std::unique_ptr<const_functor<sig>> x{new const_functor<sig>{f}};
      const auto &c = *x;
      o->template replace<I>(c);
      c.t.n = 5000;   // theirs does not change with it
      return true;
    }
    case 11: {
      f = ++last_functor;
      unique_functor<sig> x{f};
      o->template replace<I>(std::move(x));
      return true;
    }
    case 12: {
      f = ++last_functor;
      lambdas<sig>::with(f, use_lambda<I>{*o});
      return true;
    }
    case 13: f = ++last_functor; o->template replace<I>(rvalue_functor<sig>{f}); return true;
    case 14: {
      f = ++last_functor;
      lvalue_functor<sig> x{f};
      o->template replace<I>(x);
      x.t.n = 5000;
      return true;
    }
    case 15: {
      f = ++last_functor;
      const const_functor<sig> x{f};
      upd::action a{x, endian(), mode()}, b;
      b = std::move(a);
      (*o)[I] = std::move(b);
      return true;
    }
    }
    return false;
  }
  template<int I>
  struct use_lambda {
    D &o;
    template<typename Lambda>
    void operator()(Lambda &f) const { o.template replace<I>(f); }
  };
  template<int I>
  bool rep(long form, long &f, std::false_type) {
    switch (form) {
    case 5: f = 1000 + 2 * I; (*o)[I] = upd::no_storage_action{typename fn<1, I>::alt0{}, endian(), mode()}; return true;
    }
    return false;
  }
  template<int I>
  bool rep_all(long form, long &f) {
    switch (form) {
    case 0: f = 1000 + 2 * I; o->template replace<I>(typename fn<1, I>::alt0{}); return true;
#if __cplusplus >= 201703L
    case 1: f = 1001 + 2 * I; o->template replace<I, fn<1, I>::alt1_ref>(); return true;
#else
    case 1: f = 1001 + 2 * I; o->template replace<I>(typename fn<1, I>::alt1{}); return true;
#endif
    case 9: f = I; o->template replace<I>(typename fn<1, I>::orig{}); return true;
    // a functor with static storage duration: referenced, or copied if callbacks are owned
#if __cplusplus >= 201703L
    case 16: f = (any ? 3001 : 1001) + 2 * I; o->template replace<I, fn<1, I>::object>(); return true;
#endif
    }
    return rep<I>(form, f, std::integral_constant<bool, any>{});
  }
  static upd::endianess_h<K::endianess> endian() { return {}; }
  static upd::signed_mode_h<K::signed_mode> mode() { return {}; }
  template<int... Is>
  bool rep_any(long i, long form, long &f, ints<Is...>) {
    bool done = false;
    (void)std::initializer_list<int>{(i == Is ? (done = rep_all<Is>(form, f), 0) : 0)...};
    return done;
  }
  bool replace(long i, long form, long &f) override { return rep_any(i, form, f, hot_t{}); }

  template<typename A>
  static void swap_with(A &a, A &b) {
    std::swap(a, b);
  }
  template<typename A, typename B>
  static void swap_with(A &, B &) {}
  static bool put(upd::action &to, upd::action &a, bool move) { return move && (to = std::move(a), true); }
  static bool put(upd::no_storage_action &to, upd::no_storage_action &a, bool move) {
    return move ? (to = std::move(a), true) : (to = a, true);
  }
  template<typename A, typename B>
  static bool put(A &, B &, bool) {
    return false;
  }
  bool install(long i, upd::action *a, bool move) override { return put((*o)[(index_t)i], *a, move); }
  bool install(long i, upd::no_storage_action *a, bool move) override { return put((*o)[(index_t)i], *a, move); }
  bool exchange(long i, upd::action *a) override { return any && (swap_with((*o)[(index_t)i], *a), true); }
  bool exchange(long i, upd::no_storage_action *a) override { return !any && (swap_with((*o)[(index_t)i], *a), true); }

  // -- reply
  template<typename Key, typename X>
  static void reply(X &d, event &e, long form, Key k, std::size_t cap, long lim, std::false_type) {
    output out{lim, cap};
    bool ok = false;
    char st = attempt([&]() -> char {
      switch (form) {
      default:
      case 0: {
        auto f = out.fn();
        ok = d.reply(f, k);
        break;
      }
      case 1: ok = d.reply(out.cfn(), k); break;
      case 2: ok = d.reply(out.it(), k); break;
      case 3: ok = d.reply(out.inserter(), k); break;
      case 4: ok = d.reply(out.ptr(), k); break;
      case 5: ok = d.reply(out.own(), k); break;
      }
      return 'R';
    });
    out.report(e, "w");
    e.num("ok", ok).num("lim", lim).str("st", status(st));
  }
  template<typename Key, typename X>
  static void reply(X &, event &, long, Key, std::size_t, long, std::true_type) {}
  template<int... Js>
  void reply_any(event &e, long j, long form, long lim, ints<Js...>) {
    (void)std::initializer_list<int>{
        (j == Js ? (reply(*o, e, form, fn<2, Js>::key(), fn<2, Js>::key().payload_length + 16, lim, plain_t{}), 0) : 0)...};
  }
  void reply(event &e, long j, long form, long lim) override { reply_any(e, j, form, lim, reply_t{}); }

  void asize(event &e, long i) override {
    const D &cd = *o;
    e.num("i", i).num("insz", (long long)cd[(index_t)i].input_size()).num("outsz", (long long)cd[(index_t)i].output_size());
  }

  // -- as the end of a channel: what matters is what goes through, not how it is reported
  template<typename X>
  static std::size_t receive(X &d, event &e, long form, const bytes &b, std::false_type) {
    input in{b, false, 0};
    std::string st;
    while (in.taken() < b.size()) {
      const auto at = in.taken();
      char c = attempt([&]() -> char {
        if (form == 0)
          return status_char(d.put(b[(std::size_t)in.s.pos++]));
        VP_READ(VP_STATUS, d, form, in)
        return '?';
      });
      st += c;
      if (in.taken() == at || c == 'E' || c == 'X' || c == 'S')
        break;
    }
    e.num("n", (long)b.size()).text("inv", inv_json());
    return b.size();
  }
  template<typename X>
  static std::size_t receive(X &, event &, long, const bytes &, std::true_type) {
    return 0;
  }
  std::size_t receive(event &e, long form, const bytes &b) override { return receive(*o, e, form, b, plain_t{}); }
  template<typename X>
  static bytes send(X &d, event &e, long form, long n, std::false_type) {
    bytes b;
    e.num("n", n);
    if (form == 0) {
      for (long i = 0; i < n && d.is_loaded(); ++i)
        b.push_back(d.get());
      return b;
    }
    output out{0, capacity};
    VP_WRITE(d, form, out)
    return out.content();
  }
  template<typename X>
  static bytes send(X &, event &, long, long, std::true_type) {
    return {};
  }
  bytes send(event &e, long form, long n) override { return send(*o, e, form, n, plain_t{}); }
  std::size_t serve(event &e, long form, const bytes &b, bytes &w) override {
    input in{b, false, 0};
    output out{0, capacity};
    attempt([&]() -> char {
      VP_PAIR(VP_DISCARD, (*o), form, in, out)
      return 'R';
    });
    e.text("inv", inv_json());
    w = out.content();
    return in.taken();
  }
  const char *kind() override;
};

// Construction forms
template<typename D>
struct made;
template<typename K, upd::action_features F>
struct made<upd::dispatcher<K, F>> {
  static constexpr const char *kind = "plain";
  static upd::dispatcher<K, F> make() { return upd::make_dispatcher(K{}, upd::action_features_h<F>{}); }
};
template<typename K, upd::action_features F>
struct made<upd::single_buffered_dispatcher<upd::dispatcher<K, F>>> {
  static constexpr const char *kind = "single";
  static upd::single_buffered_dispatcher<upd::dispatcher<K, F>> make() {
    return upd::make_single_buffered_dispatcher(K{}, upd::action_features_h<F>{});
  }
};
template<typename K, upd::action_features F>
struct made<upd::double_buffered_dispatcher<upd::dispatcher<K, F>>> {
  static constexpr const char *kind = "double";
  static upd::double_buffered_dispatcher<upd::dispatcher<K, F>> make() {
    return upd::make_double_buffered_dispatcher(K{}, upd::action_features_h<F>{});
  }
};
template<typename K, upd::action_features F>
struct made<custom1<upd::dispatcher<K, F>>> {
  static constexpr const char *kind = "single";
  static custom1<upd::dispatcher<K, F>> make() { return {}; }
};
template<typename K, upd::action_features F>
struct made<custom2<upd::dispatcher<K, F>>> {
  static constexpr const char *kind = "double";
  static custom2<upd::dispatcher<K, F>> make() { return {}; }
};
template<typename D, upd::action_features F>
const char *box_impl<D, F>::kind() {
  return made<D>::kind;
}
template<typename D, upd::action_features F>
struct maker {
  long form;
  D *operator()(void *p) {
    switch (form) {
    default:
    case 0: return new (p) D;
    case 1: return new (p) D{typename traits<D>::keyring{}, upd::action_features_h<F>{}};
    case 2: return new (p) D(made<D>::make());
    }
  }
};
template<typename D, upd::action_features F>
std::unique_ptr<box> box_impl<D, F>::create(long form) {
  return std::unique_ptr<box>(new box_impl(maker<D, F>{form}));
}

} // namespace vp

// Common part of the conformance harnesses: values, recording, scripts, streams.
// C++11, and only the public API of the library.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <unistd.h>

namespace vp {

template<int... Is>
struct ints {};

using bytes = std::vector<unsigned char>;
using u64 = unsigned long long;

// ---------------------------------------------------------------- random values
static u64 rng_state = 88172645463325252ull;
inline u64 rnd() {
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return rng_state;
}
inline void seed(u64 s) {
  rng_state = s * 0x9E3779B97F4A7C15ull + 0x1234567ull;
  if (!rng_state)
    rng_state = 1;
  for (int i = 0; i < 8; ++i)
    rnd();
}
static bool no_min = false;  // the minimum value cannot be expressed (signed magnitude, ones' complement)

// ---------------------------------------------------------------- canonical bytes
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
void canon(bytes &o, const T &v) {
  if (std::is_same<T, bool>::value) {
    unsigned char c;
    std::memcpy(&c, &v, 1);  // an invalid bool must not go unnoticed
    o.push_back(c);
    return;
  }
  u64 x = (u64)(long long)v;
  for (std::size_t i = 0; i < sizeof(T); ++i)
    o.push_back((unsigned char)(x >> (8 * i)));
}
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
void gen(T &v) {
  if (std::is_same<T, bool>::value) {
    v = (T)(rnd() & 1);
    return;
  }
  constexpr int bits = 8 * sizeof(T);
  constexpr u64 top = 1ull << (bits - 1);
  u64 x = rnd();
  switch (rnd() % 10) {
  case 0: x = 0; break;
  case 1: x = ~0ull; break;
  case 2: x = top; break;
  case 3: x = top - 1; break;
  case 4: x = top + 1; break;
  case 5: x = rnd() % 3 + ((rnd() & 1) ? 0 : ~0ull - 1); break;
  case 6: x = 1ull << (rnd() % 64); break;
  case 7: x = ~(1ull << (rnd() % 64)); break;
  case 8: x = 0xffull << (8 * (rnd() % 8)); break;
  default: break;
  }
  x = bits == 64 ? x : x & ((1ull << (bits % 64)) - 1);
  if (no_min && std::is_signed<T>::value && x == top)
    x = top + 1;
  std::memcpy(&v, &x, sizeof(T));  // little-endian host
}
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
const unsigned char *uncanon(const unsigned char *p, T &v) {
  if (std::is_same<T, bool>::value)
    v = (T)(*p != 0);
  else
    std::memcpy(&v, p, sizeof(T));  // little-endian host
  return p + sizeof(T);
}
template<typename T, std::size_t N>
void canon(bytes &o, const std::array<T, N> &a);
template<typename T, std::size_t N>
void gen(std::array<T, N> &a);
template<typename T, std::size_t N>
const unsigned char *uncanon(const unsigned char *p, std::array<T, N> &a);
template<typename T, std::size_t N>
void canon(bytes &o, const T (&a)[N]) {
  for (std::size_t i = 0; i < N; ++i)
    canon(o, a[i]);
}
template<typename T, std::size_t N>
void gen(T (&a)[N]) {
  for (std::size_t i = 0; i < N; ++i)
    gen(a[i]);
}
template<typename T, std::size_t N>
const unsigned char *uncanon(const unsigned char *p, T (&a)[N]) {
  for (std::size_t i = 0; i < N; ++i)
    p = uncanon(p, a[i]);
  return p;
}
template<typename T, std::size_t N>
void canon(bytes &o, const std::array<T, N> &a) {
  for (std::size_t i = 0; i < N; ++i)
    canon(o, a[i]);
}
template<typename T, std::size_t N>
void gen(std::array<T, N> &a) {
  for (std::size_t i = 0; i < N; ++i)
    gen(a[i]);
}
template<typename T, std::size_t N>
const unsigned char *uncanon(const unsigned char *p, std::array<T, N> &a) {
  for (std::size_t i = 0; i < N; ++i)
    p = uncanon(p, a[i]);
  return p;
}

inline void canon_all(bytes &) {}
template<typename T, typename... Ts>
void canon_all(bytes &o, const T &v, const Ts &...vs) {
  canon(o, v);
  canon_all(o, vs...);
}

// ---------------------------------------------------------------- trace
static std::string line;
inline void put_num(long long x) {
  char b[32];
  std::snprintf(b, sizeof b, "%lld", x);
  line += b;
}
inline void put_bytes(const bytes &b) {
  line += '[';
  for (std::size_t i = 0; i < b.size(); ++i) {
    if (i)
      line += ',';
    put_num(b[i]);
  }
  line += ']';
}
struct event {
  explicit event(const char *name) {
    line = "{\"e\":\"";
    line += name;
    line += '"';
  }
  event &num(const char *k, long long v) {
    key(k);
    put_num(v);
    return *this;
  }
  event &str(const char *k, const std::string &v) {
    key(k);
    line += '"';
    line += v;
    line += '"';
    return *this;
  }
  event &raw(const char *k, const bytes &v) {
    key(k);
    put_bytes(v);
    return *this;
  }
  event &nums(const char *k, const std::vector<long long> &v) {
    key(k);
    line += '[';
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (i)
        line += ',';
      put_num(v[i]);
    }
    line += ']';
    return *this;
  }
  event &text(const char *k, const std::string &json) {
    key(k);
    line += json;
    return *this;
  }
  void end() {
    line += "}\n";
    const char *p = line.data();
    std::size_t n = line.size();
    while (n) {
      ssize_t w = ::write(1, p, n);
      if (w <= 0)
        std::abort();
      p += w;
      n -= (std::size_t)w;
    }
  }

private:
  void key(const char *k) {
    line += ",\"";
    line += k;
    line += "\":";
  }
};

// ---------------------------------------------------------------- faults
struct callback_error : std::runtime_error {
  callback_error() : std::runtime_error("callback") {}
};
struct source_end : std::runtime_error {
  source_end() : std::runtime_error("source") {}
};
struct sink_full : std::runtime_error {
  sink_full() : std::runtime_error("sink") {}
};

// ---------------------------------------------------------------- invocations
struct invocation {
  long cb, n;
  bytes a, r;
  int x;
};
static std::vector<invocation> invocations;
static long arm = 0;  // the arm-th next invocation throws

inline std::string inv_json() {
  std::string save;
  std::swap(save, line);
  line = "[";
  for (std::size_t i = 0; i < invocations.size(); ++i) {
    const invocation &v = invocations[i];
    if (i)
      line += ',';
    line += "{\"cb\":";
    put_num(v.cb);
    line += ",\"n\":";
    put_num(v.n);
    line += ",\"x\":";
    put_num(v.x);
    line += ",\"a\":";
    put_bytes(v.a);
    line += ",\"r\":";
    put_bytes(v.r);
    line += '}';
  }
  line += ']';
  std::swap(save, line);
  invocations.clear();
  return save;
}

template<typename R>
struct finish {
  static R run(std::size_t i) {
    R r;
    gen(r);
    canon(invocations[i].r, r);
    return r;
  }
};
template<>
struct finish<void> {
  static void run(std::size_t) {}
};

// What every callback does: record, then throw or return a value of its own
template<typename R, typename... A>
R record(long id, long n, const A &...args) {
  invocations.push_back(invocation{id, n, {}, {}, 0});
  std::size_t i = invocations.size() - 1;
  canon_all(invocations[i].a, args...);
  if (arm > 0 && --arm == 0) {
    invocations[i].x = 1;
    throw callback_error{};
  }
  return finish<R>::run(i);
}

// Stateful functors, whose lifetimes are tracked
static std::map<long, long> alive;
struct tracked {
  long id, n;
  explicit tracked(long i) : id{i}, n{0} { ++alive[id]; }
  tracked(const tracked &t) : id{t.id}, n{t.n} { ++alive[id]; }
  tracked(tracked &&t) : id{t.id}, n{t.n} { ++alive[id]; }
  tracked &operator=(const tracked &t) {
    --alive[id];
    id = t.id;
    n = t.n;
    ++alive[id];
    return *this;
  }
  ~tracked() {
    --alive[id];
    id = -77;
    n = -77;
  }
};
template<typename F>
struct functor;
template<typename R, typename... A>
struct functor<R(A...)> {
  tracked t;
  explicit functor(long id) : t{id} {}
  R operator()(A... args) {
    ++t.n;
    return record<R>(t.id, t.n, args...);
  }
};
// Variants of it: const, only callable as an rvalue, not copyable
template<typename F>
struct const_functor;
template<typename R, typename... A>
struct const_functor<R(A...)> {
  mutable tracked t;
  explicit const_functor(long id) : t{id} {}
  R operator()(A... args) const {
    ++t.n;
    return record<R>(t.id, t.n, args...);
  }
};
template<typename F>
struct rvalue_functor;
template<typename R, typename... A>
struct rvalue_functor<R(A...)> {
  tracked t;
  explicit rvalue_functor(long id) : t{id} {}
  R operator()(A... args) && {
    ++t.n;
    return record<R>(t.id, t.n, args...);
  }
};
template<typename F>
struct lvalue_functor;
template<typename R, typename... A>
struct lvalue_functor<R(A...)> {
  tracked t;
  explicit lvalue_functor(long id) : t{id} {}
  R operator()(A... args) & {
    ++t.n;
    return record<R>(t.id, t.n, args...);
  }
};
template<typename F>
struct unique_functor;
template<typename R, typename... A>
struct unique_functor<R(A...)> {
  std::unique_ptr<tracked> t;
  explicit unique_functor(long id) : t{new tracked{id}} {}
  R operator()(A... args) {
    ++t->n;
    return record<R>(t->id, t->n, args...);
  }
};
// A real lambda which changes
template<typename F>
struct lambdas;
template<typename R, typename... A>
struct lambdas<R(A...)> {
  template<typename Use>
  static void with(long id, Use &&use) {
    tracked t{id};
    auto f = [t](A... args) mutable -> R {
      ++t.n;
      return record<R>(t.id, t.n, args...);
    };
    use(f);
  }
};
inline std::vector<long long> alive_ids() {
  std::vector<long long> v;
  for (auto &p : alive)
    if (p.second != 0)
      v.push_back(p.second > 0 ? p.first : -p.first);
  return v;
}

// ---------------------------------------------------------------- streams
// Single-pass input iterator which notes how far it has been read
struct source {
  explicit source(const bytes *x) : b{x} {}
  const bytes *b;
  std::size_t pos = 0, seen = 0;
  unsigned char at(std::size_t i) {
    if (i >= b->size())
      throw source_end{};
    seen = std::max(seen, i + 1);
    return (*b)[i];
  }
};
struct count_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = unsigned char;
  using difference_type = std::ptrdiff_t;
  using pointer = const unsigned char *;
  using reference = unsigned char;
  source *s;
  struct proxy {
    unsigned char v;
    unsigned char operator*() const { return v; }
  };
  unsigned char operator*() const { return s->at(s->pos); }
  count_it &operator++() {
    ++s->pos;
    return *this;
  }
  proxy operator++(int) {
    proxy p{s->at(s->pos)};
    ++s->pos;
    return p;
  }
  bool operator==(const count_it &o) const { return s == o.s; }
  bool operator!=(const count_it &o) const { return s != o.s; }
};
// Multi-pass (forward) iterator over shared bytes which notes how far it has been read
struct fwd_it {
  using iterator_category = std::forward_iterator_tag;
  using value_type = unsigned char;
  using difference_type = std::ptrdiff_t;
  using pointer = const unsigned char *;
  using reference = unsigned char;
  fwd_it(source *x = nullptr) : s{x} {}
  source *s;
  std::size_t i = 0;
  struct proxy {
    unsigned char v;
    unsigned char operator*() const { return v; }
  };
  unsigned char operator*() const { return s->at(i); }
  fwd_it &operator++() {
    ++i;
    return *this;
  }
  proxy operator++(int) {
    proxy p{s->at(i)};
    ++i;
    return p;
  }
  bool operator==(const fwd_it &o) const { return s == o.s && i == o.i; }
  bool operator!=(const fwd_it &o) const { return !(*this == o); }
};
struct src_fn {
  source *s;
  unsigned char operator()() {
    unsigned char v = s->at(s->pos);
    ++s->pos;
    return v;
  }
};
struct sink {
  bytes b;
  long lim = 0;
  void take(unsigned char c) {
    b.push_back(c);
    if (lim && (long)b.size() == lim)
      throw sink_full{};
  }
};
struct dest_fn {
  sink *s;
  void operator()(unsigned char c) { s->take(c); }
};
struct const_dest_fn {
  sink *s;
  void operator()(unsigned char c) const { s->take(c); }
};
// Single-pass output iterator
struct sink_it {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = void;
  using pointer = void;
  using reference = void;
  sink *s;
  struct proxy {
    sink *s;
    void operator=(unsigned char c) { s->take(c); }
  };
  proxy operator*() { return proxy{s}; }
  sink_it &operator++() { return *this; }
  sink_it &operator++(int) { return *this; }
};

// ---------------------------------------------------------------- guarded memory
constexpr std::size_t guard_size = 96;
constexpr unsigned char guard_byte = 0xA5;
struct guarded {
  bytes mem;
  std::size_t n;
  explicit guarded(std::size_t size) : mem(size + 2 * guard_size + 64, guard_byte), n{size} {}
  unsigned char *data() {
    auto p = reinterpret_cast<std::uintptr_t>(mem.data() + guard_size);
    return reinterpret_cast<unsigned char *>((p + 31) / 32 * 32);
  }
  bool intact() {
    unsigned char *d = data(), *e = mem.data() + mem.size();
    for (unsigned char *p = mem.data(); p != d; ++p)
      if (*p != guard_byte)
        return false;
    for (unsigned char *p = d + n; p != e; ++p)
      if (*p != guard_byte)
        return false;
    return true;
  }
};

// ---------------------------------------------------------------- scripts
inline bytes unhex(const std::string &s) {
  bytes b;
  if (s == "-")
    return b;
  auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (std::size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((unsigned char)(h(s[i]) * 16 + h(s[i + 1])));
  return b;
}
struct script {
  std::FILE *f;
  std::vector<std::string> w;
  bool next() {
    std::string s;
    int c;
    while ((c = std::getc(f)) != EOF && c != '\n')
      s += (char)c;
    if (c == EOF && s.empty())
      return false;
    w.clear();
    std::istringstream is(s);
    std::string t;
    while (is >> t)
      w.push_back(t);
    return true;
  }
  long num(std::size_t i) const { return i < w.size() ? std::atol(w[i].c_str()) : 0; }
  bytes hex(std::size_t i) const { return i < w.size() ? unhex(w[i]) : bytes{}; }
};

} // namespace vp

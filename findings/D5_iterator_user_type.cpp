// C04: a view over non-pointer iterators moves sizeof(T) bytes for a user-extended type.
#include "common.hpp"
struct S { std::uint8_t a; std::uint32_t b; };
template<> struct upd_extension<S> {
  template<typename V> static void serialize(const S &s, V &v) { v.template set<0>(s.a); v.template set<1>(s.b); }
  static S unserialize(std::uint8_t a, std::uint32_t b) { return S{a, b}; }
};
int main() {
  std::list<upd::byte_t> l(20, 0xee);
  auto v = upd::make_view<S>(upd::little_endian, upd::twos_complement, l.begin());
  v.set<0>(S{1, 2});
  EXPECT((l == std::list<upd::byte_t>{1, 2, 0, 0, 0, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee}));
}

// C19/C07: sizes are computed with sizeof() instead of the serialized size of user-extended types.
#include "common.hpp"
struct S { std::uint8_t a; std::uint32_t b; };  // 5 bytes serialized, 8 in memory
struct W { std::uint8_t a; };                   // 4 bytes serialized, 1 in memory
template<> struct upd_extension<S> {
  template<typename V> static void serialize(const S &s, V &v) { v.template set<0>(s.a); v.template set<1>(s.b); }
  static S unserialize(std::uint8_t a, std::uint32_t b) { return S{a, b}; }
};
template<> struct upd_extension<W> {
  template<typename V> static void serialize(const W &s, V &v) { v.template set<0>(s.a); }
  static W unserialize(std::uint32_t a) { return W{(std::uint8_t)a}; }
};
static int called = 0;
S f(S s) { ++called; return s; }
W g(W s) { ++called; return s; }
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f), UPD_CTREF(g)), upd::little_endian, upd::twos_complement);
constexpr auto kg = upd::make_keyring(upd::make_flist(UPD_CTREF(g)), upd::little_endian, upd::twos_complement);
int main() {
  auto k = kr.get(UPD_CTREF(f));
  EXPECT(k.payload_length + 0 == 6);
  auto d = upd::make_double_buffered_dispatcher(kr, upd::policy::weak_reference);
  EXPECT(d[0].input_size() == 5 && d[0].output_size() == 5 && d[1].input_size() == 4);
  upd::byte_t buf[64] = {};
  k(S{1, 2}).write_to(buf);
  for (int i = 0; i < 5; ++i) EXPECT(d.put(buf[i]) == upd::packet_status::LOADING_PACKET);
  EXPECT(d.put(buf[5]) == upd::packet_status::RESOLVED_PACKET && called == 1);
  using G = decltype(upd::make_double_buffered_dispatcher(kg, upd::policy::any_callback));
  EXPECT(G::input_buffer_size + 0 == 5 && G::output_buffer_size + 0 == 4);
}

// C12: an action made from an lvalue functor keeps a reference to it instead of the documented copy.
#include "common.hpp"
struct F { int v; std::uint8_t operator()(std::uint8_t x) const { return (std::uint8_t)(x + v); } };
std::uint8_t f(std::uint8_t x) { return x; }
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f)), upd::little_endian, upd::twos_complement);
int main() {
  auto d = upd::make_double_buffered_dispatcher(kr, upd::policy::any_callback);
  F ftor{1};
  d.replace<0>(ftor);
  ftor.v = 100;
  d.put(0); d.put(1);
  EXPECT(d.get() == 2);
}

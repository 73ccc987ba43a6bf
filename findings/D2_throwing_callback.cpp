// C18/C11: a callback which throws leaves the dispatcher in the middle of a request.
#include "common.hpp"
static int n = 0;
std::uint8_t f(std::uint8_t x) { if (!n++) throw std::runtime_error("x"); return x; }
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f)), upd::little_endian, upd::twos_complement);
int main() {
  auto d = upd::make_double_buffered_dispatcher(kr, upd::policy::weak_reference);
  d.put(0);
  try { d.put(7); EXPECT(false); } catch (std::runtime_error &) {}
  EXPECT(!d.is_loaded());
  EXPECT(d.put(0) == upd::packet_status::LOADING_PACKET);
  EXPECT(d.put(9) == upd::packet_status::RESOLVED_PACKET);
  EXPECT(d.get() == 9);
}

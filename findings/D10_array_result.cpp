// C22: a callback returning std::array did not compile, ADL selected std::make_tuple.
#include "common.hpp"
#include <array>
std::array<std::uint16_t, 2> f() { return {{1, 2}}; }
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f)), upd::big_endian, upd::twos_complement);
int main() {
  auto d = upd::make_double_buffered_dispatcher(kr, upd::policy::weak_reference);
  auto e = upd::make_double_buffered_dispatcher(kr, upd::policy::any_callback);
  upd::byte_t buf[8] = {};
  EXPECT(d.put(0) == upd::packet_status::RESOLVED_PACKET && e.put(0) == upd::packet_status::RESOLVED_PACKET);
  d.write_to(buf);
  e.write_to(buf + 4);
  EXPECT(buf[1] == 1 && buf[3] == 2 && buf[5] == 1 && buf[7] == 2);
  auto r = kr.get(UPD_CTREF(f)).read_from(buf);
  EXPECT(r[0] == 1 && r[1] == 2);
}

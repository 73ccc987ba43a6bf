// C18/C14: the response was lost when the output given to reply() throws, even before it is handed a byte of it.
#include "common.hpp"
#include <array>
#include <vector>
static std::uint16_t f(std::uint16_t x) { return x; }
static void g(const std::array<upd::byte_t, 4> &) {}
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f)), upd::little_endian, upd::twos_complement);
constexpr auto kr2 = upd::make_keyring(upd::make_flist(UPD_CTREF(g)), upd::little_endian, upd::twos_complement);
int main() {
  auto d = upd::make_double_buffered_dispatcher(kr, upd::policy::weak_reference);
  auto k = kr2.get(UPD_CTREF(g));
  d.put(0);
  d.put(0x34);
  d.put(0x12);
  try { d.reply([](upd::byte_t) { throw std::runtime_error("x"); }, k); EXPECT(false); } catch (std::runtime_error &) {}
  EXPECT(d.is_loaded());
  std::vector<upd::byte_t> v;
  EXPECT(d.reply(std::back_inserter(v), k));
  EXPECT(v.size() == 5 && v[0] == 0 && v[1] == 0x34 && v[2] == 0x12);
  EXPECT(!d.is_loaded());
}

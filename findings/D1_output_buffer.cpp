// C11/C19: the output buffer is sized after the parameters instead of the results.
#include "common.hpp"
std::uint64_t f(std::uint8_t) { return 0x1122334455667788ull; }
void g() {}
constexpr auto kr = upd::make_keyring(upd::make_flist(UPD_CTREF(f), UPD_CTREF(g)), upd::little_endian, upd::twos_complement);
using D = decltype(upd::make_double_buffered_dispatcher(kr, upd::policy::weak_reference));
int main() {
  static_assert(sizeof(upd::byte_t) == 1, "");
  EXPECT(D::output_buffer_size == 8);
  EXPECT(D::input_buffer_size == 2);
}

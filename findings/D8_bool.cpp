// C02: with a declared little-endian platform, a bool read from a byte other than 0 or 1 is not a valid bool.
#include "common.hpp"
int main() {
  upd::byte_t raw[1] = {2};
  auto v = upd::make_view<bool>(upd::little_endian, upd::twos_complement, &raw[0]);
  bool b = v.get<0>();
  unsigned char c;
  std::memcpy(&c, &b, 1);
  EXPECT(c == 1);
}

// C02: reading or writing the minimum two's complement value overflows (build with -fsanitize=undefined -fno-sanitize-recover).
#include "common.hpp"
#include <limits>
template<typename T> void t() {
  volatile T m = std::numeric_limits<T>::min();
  auto x = upd::make_tuple(upd::little_endian, upd::twos_complement, T(m));
  EXPECT(x.template get<0>() == m);
}
int main() { t<std::int8_t>(); t<std::int16_t>(); t<std::int32_t>(); t<std::int64_t>(); }

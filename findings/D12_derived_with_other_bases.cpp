// A class deriving from buffered_dispatcher<D, ...> was looked for at the address of its base: with a virtual function or
// another base before it, bytes were received and sent outside of its buffers.
#include "common.hpp"
using namespace upd;
static std::uint32_t twice(std::uint16_t x) { return 2u * x; }
using keyring_t = keyring<endianess::LITTLE, signed_mode::TWOS_COMPLEMENT, unevaluated<decltype(twice) *, &twice>>;
using disp = dispatcher<keyring_t, action_features::ANY>;
struct polymorphic : buffered_dispatcher<polymorphic, disp> {
  virtual ~polymorphic() = default;
  byte_t *ibuf_begin() { return in; }
  byte_t *obuf_begin() { return out; }
  byte_t in[8], out[8];
};
struct other {
  int x[64] = {};
};
struct second : other, buffered_dispatcher<second, disp> {
  byte_t *ibuf_begin() { return in; }
  byte_t *obuf_begin() { return out; }
  byte_t in[8], out[8];
};
template<typename T>
void run() {
  T d;
  for (byte_t b : {0, 3})
    EXPECT(d.put(b) == packet_status::LOADING_PACKET);
  EXPECT(d.put(1) == packet_status::RESOLVED_PACKET);
  std::uint32_t r = 0;
  for (int i = 0; d.is_loaded(); ++i)
    r |= std::uint32_t(d.get()) << 8 * i;
  EXPECT(r == 2 * 0x103);
}
int main() {
  run<polymorphic>();
  run<second>();
}

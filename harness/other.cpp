// Another translation unit of the programs: whatever the headers define is defined twice
#include <upd/upd.hpp>
#include <upd/unevaluated.hpp>
#include <upd/typelist.hpp>
#include <upd/type.hpp>
#include <upd/tuple.hpp>
#include <upd/policy.hpp>
#include <upd/keyring.hpp>
#include <upd/key.hpp>
#include <upd/format.hpp>
#include <upd/dispatcher.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/action.hpp>

namespace {
int add(int x, short y) { return x + y; }
void nothing(unsigned char) {}
using ring = decltype(upd::make_keyring(upd::flist_t<upd::unevaluated<decltype(&add), &add>, upd::unevaluated<decltype(&nothing), &nothing>>{},
                                        upd::big_endian, upd::ones_complement));
} // namespace

int other_unit() {
  ring r;
  auto d = upd::make_double_buffered_dispatcher(r, upd::policy::any_callback);
  auto s = upd::make_single_buffered_dispatcher(r, upd::policy::weak_reference);
  auto p = upd::make_dispatcher(r, upd::policy::any_callback);
  auto k = r.get(upd::unevaluated<decltype(&add), &add>{});
  unsigned char b[64] = {}, c[64] = {};
  k(1, -2).write_to(b);
  d.replace<0>([](int x, short y) { return x - y; });
  d.read_from(b);
  d.write_to(c);
  s.read_from(b);
  p(b, c);
  auto t = upd::make_tuple(upd::little_endian, upd::offset_binary, 1, (short)-2, true);
  upd::set<1>(t, (short)3);
  auto v = upd::make_view<0, 2>(t);
  return k.read_from(c) + upd::get<1>(v) + (int)s.is_loaded();
}

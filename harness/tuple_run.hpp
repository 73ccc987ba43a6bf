// The interpreter of scripts, once the generator has declared the layouts
#pragma once
namespace vp {
static void bad(const char *what) {
  std::fprintf(stderr, "script error: %s\n", what);
  std::exit(3);
}

inline int interpret(std::FILE *f) {
  struct entry {
    std::unique_ptr<tbox> b;
    long reg, lay;
  };
  std::map<long, entry> objs;
  script s{f, {}};
  auto at = [&](long i) -> entry & {
    auto it = objs.find(i);
    if (it == objs.end())
      bad("no such object");
    return it->second;
  };
  auto finish = [&](event &e, long reg) {
    const bool rec = regions.count(reg) && regions[reg]->recording;
    std::vector<long long> acc(accesses.begin(), accesses.end());
    std::sort(acc.begin(), acc.end());
    acc.erase(std::unique(acc.begin(), acc.end()), acc.end());
    std::string j = "[";
    for (auto &p : regions)
      j += (j.size() > 1 ? ",{\"r\":" : "{\"r\":") + std::to_string(p.first) + ",\"b\":" + bytes_json(p.second->content()) + "}";
    e.text("mem", j + "]");
    if (rec)
      e.num("ar", reg).nums("acc", acc);
    e.end();
  };
  while (s.next()) {
    if (s.w.empty() || s.w[0][0] == '#')
      continue;
    const std::string op = s.w[0];
    const long i = s.num(1);
    accesses.clear();
    if (op == "seed") {
      seed((u64)i);
      no_min = s.num(2);
    } else if (op == "reset") {
      objs.clear();
      regions.clear();
      event{"reset"}.end();
    } else if (op == "region") {
      event e{"region"};
      const std::string &k = s.w[2];
      const bytes b = s.hex(4);
      region *r = nullptr;
      if (k == "ptr")
        r = new region_impl<unsigned char *>(b, s.num(3));
      else if (k == "cptr")
        r = new region_impl<const unsigned char *>(b, s.num(3));
      else if (k == "rec")
        r = new region_impl<rec_iterator>(b, s.num(3));
      else if (k == "vec")
        r = new region_impl<std::vector<unsigned char>::iterator>(b, 0);
      else if (k == "deq")
        r = new region_impl<std::deque<unsigned char>::iterator>(b, s.num(3));
      else if (k == "list")
        r = new region_impl<std::list<unsigned char>::iterator>(b, 0);
      else if (k == "fwd")
        r = new region_impl<std::forward_list<unsigned char>::iterator>(b, 0);
      else
        bad("region");
      regions[i].reset(r);
      e.num("r", i).raw("b", b);
      finish(e, i);
    } else if (op == "tuple") {
      event e{"tuple"};
      e.num("o", i).num("k", s.num(2));
      auto b = make_tuple_of(e, s.num(2), i, s.num(3), layouts_t{});
      if (!b)
        bad("layout");
      objs[i] = entry{std::move(b), i, s.num(2)};
      finish(e, i);
    } else if (op == "view") {
      event e{"view"};
      const long r = s.num(2);
      auto b = make_view(s.num(4), regions[r].get(), s.num(3), s.num(5), layouts_t{});
      if (!b)
        bad("view");
      objs[i] = entry{std::move(b), r, s.num(4)};
      e.num("o", i).num("r", r).num("off", s.num(3)).num("k", s.num(4));
      finish(e, r);
    } else if (op == "slice") {
      event e{"slice"};
      entry &p = at(s.num(2));
      auto b = p.b->slice(s.num(3), s.num(4), s.num(5));
      if (!b)
        bad("slice");
      const long r = p.reg, k = p.lay;
      objs[i] = entry{std::move(b), r, k};
      e.num("o", i).num("p", s.num(2)).num("i", s.num(3)).num("n", s.num(4));
      finish(e, r);
    } else if (op == "copy") {
      event e{"copy"};
      entry &p = at(s.num(2));
      const long k = p.lay;
      const bool has = objs.count(i) && objs[i].reg == i;
      auto b = p.b->copy(has ? objs[i].b.get() : nullptr, s.num(3));
      if (b) {
        attach_copy(k, b.get(), i, layouts_t{});
        objs[i] = entry{std::move(b), i, k};
      }
      e.num("o", i).num("p", s.num(2));
      finish(e, i);
    } else if (op == "set") {
      event e{"set"};
      e.num("o", i).num("i", s.num(2));
      at(i).b->set(e, s.num(2), s.num(3));
      finish(e, at(i).reg);
    } else if (op == "get") {
      event e{"get"};
      e.num("o", i).num("i", s.num(2));
      at(i).b->get(e, s.num(2), s.num(3));
      finish(e, at(i).reg);
    } else if (op == "assign") {
      event e{"assign"};
      e.num("o", i);
      at(i).b->assign(e, s.num(2));
      finish(e, at(i).reg);
    } else if (op == "over") {
      event e{"over"};
      e.num("o", i).num("from", s.num(3) + s.num(2));
      at(i).b->over(s.num(2));
      finish(e, at(i).reg);
    } else if (op == "invoke") {
      event e{"invoke"};
      e.num("o", i);
      at(i).b->invoke(e, s.num(2));
      finish(e, at(i).reg);
    } else if (op == "poke") {
      event e{"poke"};
      if (!regions.count(i))
        bad("region");
      regions[i]->poke(s.num(2), (unsigned char)s.num(3));
      e.num("r", i).num("at", s.num(2)).num("x", s.num(3));
      finish(e, i);
    } else if (op == "size") {
      event e{"size"};
      e.num("o", i);
      at(i).b->inspect(e);
      finish(e, at(i).reg);
    } else if (op == "enc" || op == "dec" || op == "enc256" || op == "dec256") {
      const bool table = op.size() > 3;
      code_any(op, i, s.num(2), s.num(3), s.num(4), table ? bytes{} : s.hex(5), table ? s.num(5) : 0, scalars_t{});
    } else
      bad(op.c_str());
  }
  objs.clear();
  regions.clear();
  return 0;
}

} // namespace vp

int main() { return vp::interpret(stdin); }

// Onion::Mime: the catalogue given stays valid and says what was set
#include "cxx.h"
#include "mime.hpp"
using namespace Onion;
extern "C" void harness(void) {
  long l0 = sym_heap_live();
  { std::string v = text(0, VN, "type"), w = text(1, VN + 1, "type2"); { Dict d; d.add("e", v); Mime::set(d); if (sym_pick(0, 1, "twice")) Mime::set(d); d.add("l", "later"); }
    CHECK(same(Mime::get("a.e"), v), "mime: another type"); CHECK(same(Mime::get("x.l"), "later"), "mime: the catalogue was copied"); int op = sym_pick(0, 2, "op"); if (op == 0) { Mime::update("e", w); CHECK(same(Mime::get("f.e"), w), "mime: not updated"); sym_reach("update"); } else if (op == 1) { Mime::update("n", w); CHECK(same(Mime::get(".n"), w) && same(Mime::get("a.e"), v), "mime: not updated"); } else { Mime::remove("e"); CHECK(same(Mime::get("f.e"), "text/plain"), "mime: not removed"); sym_reach("remove"); } }
  onion_mime_set(NULL); CHECK(sym_heap_live() == l0, "mime: memory is not released"); sym_reach("done");
}

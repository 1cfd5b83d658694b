// Onion::Dict: dictionaries inside dictionaries, missing ones, initializer lists, locks
#include "cxx.h"
#include "dict.hpp"
using Onion::Dict;
extern "C" void harness(void) {
  long l0 = sym_heap_live();
  { std::string v = text(0, VN, "value"), w = text(0, VN, "value2");
    Dict *d = new Dict { { "x", v }, { "y", w } }; CHECK(same(d->get("x", "none"), v) && same((*d)["y"], w) && d->count() == 2 && d->has("x") && d->has("y"), "dict: wrong values from the list");
    int how = sym_pick(0, 3, "how"); Dict *sub = new Dict(); sub->add("s", w);
    if (how == 0) d->add("sub", *sub); else if (how == 1) d->add("sub", *sub, OD_DUP_ALL | OD_REPLACE); else if (how == 2) onion_dict_add(d->c_handler(), "sub", onion_dict_dup(sub->c_handler()), OD_DICT | OD_FREE_VALUE); else sym_reach("missing");
    if (sym_pick(0, 1, "gone")) { delete sub; sub = 0; sym_reach("gone"); }
    { Dict got = d->getDict("sub"); if (how == 3) { CHECK(got.c_handler() == 0, "dict: a missing dictionary is not empty"); CHECK(same(got.get("s", "none"), "none") && !got.has("s") && got.count() == 0, "dict: a missing dictionary has values"); bool th = false; try { got["s"]; } catch (const std::exception &e) { th = true; } CHECK(th, "dict: no exception"); }
      else { CHECK(same(got.get("s", "none"), w) && same(got["s"], w) && got.has("s") && got.count() == 1, "dict: the inner dictionary has other values"); CHECK(d->has("sub") == false, "dict: a dictionary is a string"); }
      Dict keep(got); Dict again; again = got; delete d; d = 0;   // copies keep it alive
      CHECK(same(keep.get("s", "none"), how == 3 ? std::string("none") : w), "dict: the copy lost its values"); CHECK(same(again.get("s", "none"), how == 3 ? std::string("none") : w), "dict: the copy lost its values"); if (how == 3) sym_reach("copy of nothing"); else sym_reach("kept"); }
    if (sub) { CHECK(same(sub->get("s"), w), "dict: the original changed"); delete sub; }
    Dict l; l.add("k", "v"); { auto a = l.readLock(); auto b = l.readLock(); Dict::lock c(std::move(a)); } { auto a = l.writeLock(); Dict::lock c(std::move(a)); Dict::lock e(std::move(c)); } { auto a = l.writeLock(); } sym_reach("lock"); }
  CHECK(sym_heap_live() == l0, "dict: memory is not released");
  sym_reach("done");
}

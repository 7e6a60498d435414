#include "rt/cpp/boxes_impl.h"
namespace lab {
Hold hold_round(Hold h, bool bump) {
  if (bump) { h.b->obj_bump(); h.s->obj_bump(); h.n++; }
  Hold other{std::move(h.b), std::move(h.s), h.n};
  return other;
}
}

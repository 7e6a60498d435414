#include "rt/src/boxes_ffi.rs.h"
namespace lab {
template <typename T> struct BoxRust;
template <typename T> BLab<T>::~BLab() { for (T *p : raws) rust::Box<T>::from_raw(p); }
template <typename T> void BLab<T>::put(rust::Box<T> b) { boxes.push_back(std::move(b)); }
template <typename T> rust::Box<T> BLab<T>::take(std::size_t i) {
  rust::Box<T> b = std::move(boxes[i]);
  boxes.erase(boxes.begin() + i);
  return b;
}
template <typename T> const T &BLab<T>::peek(std::size_t i) const { return *boxes[i]; }
template <typename T> T &BLab<T>::poke(std::size_t i) { return *boxes[i]; }
template <typename T> const rust::Box<T> &BLab<T>::peek_box(std::size_t i) const { return boxes[i]; }
template <typename T> rust::Box<T> &BLab<T>::poke_box(std::size_t i) { return boxes[i]; }
template <typename T> std::uint64_t BLab<T>::id(std::size_t i) const {
  const rust::Box<T> &b = boxes[i];
  if (b.operator->() != &*b) return ~0ull;
  if (const_cast<rust::Box<T> &>(b).operator->() != &*b) return ~0ull;
  if (&*const_cast<rust::Box<T> &>(b) != &*b) return ~0ull;
  if (b->obj_id() != (*b).obj_id()) return ~0ull;
  if (BoxRust<T>::read(b) != b->obj_id()) return ~0ull;
  return b->obj_id();
}
template <typename T> struct Maker {
  static bool make(std::vector<rust::Box<T>> &, std::uint32_t, std::size_t, std::uint64_t) { return false; }
};
template <> struct Maker<S> {
  static bool make(std::vector<rust::Box<S>> &v, std::uint32_t op, std::size_t i, std::uint64_t val) {
    switch (op) {
    case 20: v.push_back(rust::Box<S>(*v[i])); return true;  // copy (may throw)
    case 21: v.push_back(rust::Box<S>(S{val, Tr(val), rust::String(std::to_string(val))})); return true;
    case 22: v.push_back(rust::Box<S>::in_place(val, Tr(val), rust::String(std::to_string(val)))); return true;
    case 23: { // in_place from a lvalue: copies (may throw)
      Tr t(val);
      v.push_back(rust::Box<S>::in_place(val, t, rust::String(std::to_string(val))));
      return true;
    }
    case 24: { S s{val, Tr(val), rust::String(std::to_string(val))}; const S &c = s; v.push_back(rust::Box<S>(c)); return true; }
    }
    return false;
  }
};
template <typename T> int BLab<T>::op(std::uint32_t op, std::size_t i, std::size_t j, std::uint64_t val) {
  using B = rust::Box<T>;
  using X = BoxRust<T>;
  int bad = OK;
  int rc = guard([&] {
    switch (op) {
    case 0: { B b(std::move(boxes[i])); boxes[i] = std::move(b); } break;
    case 1: { B b(std::move(boxes[i])); boxes[j] = std::move(b); boxes.erase(boxes.begin() + i); } break; // j destroyed (i != j)
    case 2: boxes[i].swap(boxes[j]); break;
    case 3: { using std::swap; swap(boxes[i], boxes[j]); } break;
    case 4: std::swap(boxes[i], boxes[j]); break;
    case 5: raws.push_back(boxes[i].into_raw()); boxes.erase(boxes.begin() + i); break;
    case 6: boxes.push_back(B::from_raw(raws[i])); raws.erase(raws.begin() + i); break;
    case 7: boxes.erase(boxes.begin() + i); break;
    case 8: (*boxes[i]).obj_bump(); break;
    case 9: boxes[i]->obj_bump(); break;
    case 10: { B b = X::round(std::move(boxes[i])); boxes[i] = std::move(b); } break;
    case 11: X::replace(boxes[i], val); break;
    case 12: { B b = std::move(boxes[i]); boxes.erase(boxes.begin() + i); throw std::range_error("scope"); } break;
    case 13: { B b = std::move(boxes[i]); boxes.erase(boxes.begin() + i); B c = X::fail(std::move(b)); bad = BAD; } break;
    case 14: { T *p = &*boxes[i]; B b(std::move(boxes[i])); if (&*b != p) bad = BAD; boxes[i] = std::move(b); if (&*boxes[i] != p) bad = BAD; } break;
    case 15: { B *p = new B(std::move(boxes[i])); boxes[i] = std::move(*p); delete p; } break;
    case 16: boxes.insert(boxes.begin() + j, B(std::move(boxes[i]))); boxes.erase(boxes.begin() + i + (j <= i ? 1 : 0)); break;
    default: if (!Maker<T>::make(boxes, op, i, val)) bad = BAD;
    }
  });
  return rc != OK ? rc : bad;
}
} // namespace lab

#include "rt/cpp/vecs_impl.h"
namespace lab {
static std::int64_t countdown = -1;
void arm_throw(std::int64_t n) { countdown = n; }
Thrower::Thrower(std::uint64_t v) : owned(new std::uint64_t(v)) {}
Thrower::Thrower(const Thrower &o) : owned(nullptr) {
  if (countdown >= 0 && countdown-- == 0) throw std::domain_error("copy");
  owned = new std::uint64_t(*o.owned);
}
Thrower::Thrower(Thrower &&o) noexcept : owned(o.owned) { o.owned = nullptr; }
Thrower &Thrower::operator=(Thrower &&o) noexcept {
  std::swap(owned, o.owned);
  return *this;
}
Thrower::~Thrower() { delete owned; }

static std::uint64_t oid(const Opq &o) { return o.opq_id(); }
std::unique_ptr<OLab> new_opq() { return std::make_unique<OLab>(); }
void OLab::put(std::size_t i, rust::Vec<Opq> v) { slots[i] = std::make_unique<rust::Vec<Opq>>(std::move(v)); }
rust::Vec<Opq> OLab::take(std::size_t i) { return std::move(*slots[i]); }
rust::Slice<const Opq> OLab::slice(std::size_t i) const { const auto &v = *slots[i]; return rust::Slice<const Opq>(v); }
rust::Vec<std::uint64_t> OLab::ids(std::size_t i) const {
  rust::Vec<std::uint64_t> out;
  for (std::size_t k = 0; k < slots[i]->size(); ++k) out.push_back((*slots[i])[k].opq_id());
  return out;
}
rust::String OLab::probe(rust::Slice<const Opq> s, rust::Slice<const std::uint8_t> prog) const {
  auto r = rust_opq_slice_ids(s);
  std::vector<std::uint64_t> expect(r.begin(), r.end());
  std::string m = span_checks(s, expect, oid);
  if (!m.empty()) return m;
  m = walk(s, expect, prog, oid);
  if (!m.empty()) return m;
  if (s.size() >= 2) {
    auto t = rust_opq_subslice(s, 1, s.size());
    if (&t[0] != &s[1] || t.size() != s.size() - 1) return "subslice from Rust denotes other elements";
  }
  return "";
}
void OLab::bump(rust::Slice<Opq> s) { for (Opq &o : s) o.opq_bump(); }
rust::String OLab::observe(std::size_t i) const {
  const rust::Vec<Opq> &v = *slots[i];
  auto r = ids(i);
  std::vector<std::uint64_t> expect(r.begin(), r.end());
  std::string m = span_checks(v, expect, oid);
  if (!m.empty()) return m;
  if (v.capacity() < v.size()) return "capacity() < size()";
  std::uint8_t prog[] = {0, 1, 4, 7, 5, 2, 1, 1, 9, 0, 7, 1, 3, 3, 10, 2, 8, 5};
  m = walk(v, expect, rust::Slice<const std::uint8_t>(prog, sizeof prog), oid);
  if (!m.empty()) return m;
  return probe(rust::Slice<const Opq>(v), rust::Slice<const std::uint8_t>(prog, sizeof prog));
}
int OLab::op(std::uint32_t op, std::size_t i, std::size_t j, std::size_t n) {
  using V = rust::Vec<Opq>;
  int bad = OK;
  int rc = guard([&] {
    switch (op) {
    case 0: slots[i].reset(new V()); break;
    case 3: { auto v = new V(std::move(*slots[j])); slots[i].reset(v); } break;
    case 5: *slots[i] = std::move(*slots[j]); break;
    case 6: slots[i]->swap(*slots[j]); break;
    case 7: { using std::swap; swap(*slots[i], *slots[j]); } break;
    case 11: slots[i]->reserve(n); NEED(slots[i]->capacity() >= n); break;
    case 12: slots[i]->truncate(n); break;
    case 13: slots[i]->clear(); NEED(slots[i]->empty()); break;
    case 14: slots[i]->at(n).opq_bump(); break;
    case 21: slots[i].reset(); break;
    case 23: rust_opq_push(*slots[i], n); break;
    case 26: { V t = rust_opq_vec_id(std::move(*slots[i])); *slots[i] = std::move(t); } break;
    default: bad = BAD;
    }
  });
  return rc != OK ? rc : bad;
}
} // namespace lab
extern "C" void lab_free_u64(std::uint64_t *p) { delete p; }
extern "C" std::uint64_t *lab_new_u64(std::uint64_t v) { return new std::uint64_t(v); }

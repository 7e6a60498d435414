#include "rt/cpp/track.h"
#include <atomic>
#include <cstdlib>
namespace lab {
static std::int64_t countdown = -1;
void arm_copy(std::int64_t n) { countdown = n; }
Tr::Tr(std::uint64_t v) : owned(new std::uint64_t(v)) {}
Tr::Tr(const Tr &o) : owned(nullptr) {
  if (countdown >= 0 && countdown-- == 0) throw std::domain_error("copy");
  owned = o.owned ? new std::uint64_t(*o.owned) : nullptr;
}
Tr::Tr(Tr &&o) noexcept : owned(o.owned) { o.owned = nullptr; }
Tr &Tr::operator=(Tr &&o) noexcept { std::swap(owned, o.owned); return *this; }
Tr::~Tr() { delete owned; }
std::uint64_t tr_value(const Tr &t) { return t.owned ? *t.owned : ~0ull; }

static std::atomic<std::uint64_t> live{0};
Obj::Obj(std::uint64_t id) : block(new std::uint64_t[2]{id, 0}), self(this) { live += (id << 16) + 1; }
Obj::~Obj() {
  if (self != this) abort(); // never constructed here, or relocated
  live -= (block[0] << 16) + 1;
  delete[] block;
}
std::uint64_t Obj::id() const { if (self != this) abort(); return block[0]; }
std::uint64_t Obj::hits() const { return block[1]; }
void Obj::hit() { if (self != this) abort(); block[1]++; }
std::uint64_t live_objs() { return live; }
} // namespace lab
extern "C" void lab_tr_free(std::uint64_t *p) { delete p; }
extern "C" std::uint64_t *lab_tr_new(std::uint64_t v) { return new std::uint64_t(v); }

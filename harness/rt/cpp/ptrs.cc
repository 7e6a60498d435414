#include "rt/cpp/ptrs_impl.h"
namespace lab {
std::shared_ptr<std::uint64_t> alias_u64(const std::shared_ptr<PS> &p, bool null) {
  return std::shared_ptr<std::uint64_t>(p, null ? nullptr : &p->a);
}
std::unique_ptr<Stream> new_stream() { return std::make_unique<Stream>(); }
bool churn(const std::shared_ptr<Obj> &p, const std::weak_ptr<Obj> &w, std::size_t n) {
  bool ok = true;
  for (std::size_t k = 0; k < n; ++k) {
    std::shared_ptr<Obj> a = p;
    std::weak_ptr<Obj> b = w;
    auto c = b.lock();
    ok = ok && c && c->id() == a->id();
  }
  return ok;
}
}

#pragma once
#include "rt/cpp/track.h"
namespace lab {
struct PS;
template <typename T> struct URust { static std::unique_ptr<T> round(std::unique_ptr<T>); };
template <typename T, int N = 0> struct SRust {
  static std::shared_ptr<T> round(std::shared_ptr<T>);
  static std::weak_ptr<T> down(const std::shared_ptr<T> &);
  static std::shared_ptr<T> up(std::weak_ptr<T>);
};
template <typename T> class ULab {
public:
  ULab() { slots.resize(3); }
  std::unique_ptr<T> make(std::uint64_t v);
  std::unique_ptr<T> null() { return nullptr; }
  T *raw(std::uint64_t v);
  void put(std::size_t i, std::unique_ptr<T> p) { slots[i] = std::move(p); }
  std::unique_ptr<T> take(std::size_t i) { return std::move(slots[i]); }
  const std::unique_ptr<T> &peek(std::size_t i) const { return slots[i]; }
  std::unique_ptr<T> &poke(std::size_t i) { return slots[i]; }
  std::uint64_t id(std::size_t i) const;
  std::uint64_t id_of(const T &v) const;
  void bump_of(T &v);
  std::size_t addr(const std::unique_ptr<T> &p) const { return reinterpret_cast<std::size_t>(p.get()); }
  void meddle(std::unique_ptr<T> &p, std::uint32_t kind, std::uint64_t v);
  std::unique_ptr<T> pass(std::unique_ptr<T> p, std::uint32_t kind);
private:
  std::vector<std::unique_ptr<T>> slots;
};
template <typename T, int N = 0> class SLab {
public:
  SLab() { slots.resize(3); weak.resize(3); }
  std::shared_ptr<T> make(std::uint64_t v);
  std::shared_ptr<T> null() { return nullptr; }
  std::weak_ptr<T> wnull() { return std::weak_ptr<T>(); }
  void put(std::size_t i, std::shared_ptr<T> p) { slots[i] = std::move(p); }
  std::shared_ptr<T> take(std::size_t i, bool copy) { if (copy) return slots[i]; return std::move(slots[i]); }
  void wput(std::size_t i, std::weak_ptr<T> p) { weak[i] = std::move(p); }
  std::weak_ptr<T> wtake(std::size_t i, bool copy) { if (copy) return weak[i]; return std::move(weak[i]); }
  const std::shared_ptr<T> &peek(std::size_t i) const { return slots[i]; }
  std::shared_ptr<T> &poke(std::size_t i) { return slots[i]; }
  const std::weak_ptr<T> &wpeek(std::size_t i) const { return weak[i]; }
  std::weak_ptr<T> &wpoke(std::size_t i) { return weak[i]; }
  std::uint64_t val(const T &v) const;
  void op(std::uint32_t op, std::size_t i, std::size_t j);
  std::size_t addr(const std::shared_ptr<T> &p) const { return reinterpret_cast<std::size_t>(p.get()); }
  std::int64_t count(const std::shared_ptr<T> &p) const { return p.use_count(); }
  std::int64_t wcount(const std::weak_ptr<T> &p) const { return p.use_count(); }
private:
  std::vector<std::shared_ptr<T>> slots;
  std::vector<std::weak_ptr<T>> weak;
};
std::shared_ptr<std::uint64_t> alias_u64(const std::shared_ptr<PS> &p, bool null);
bool churn(const std::shared_ptr<Obj> &p, const std::weak_ptr<Obj> &w, std::size_t n);
class Stream {
public:
  void note(rust::Str what) { log.append(what.data(), what.size()); log.push_back(';'); }
  rust::String trace() const { return rust::String::lossy(log); }
private:
  std::string log;
};
std::unique_ptr<Stream> new_stream();
} // namespace lab
#include "rt/cpp/ptrs_gen.h"

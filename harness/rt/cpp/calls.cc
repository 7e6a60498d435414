#include "rt/cpp/calls.h"
#include "rt/src/calls_ffi.rs.h"
#include <functional>
namespace lab {
std::unique_ptr<Obj> new_obj(std::uint64_t id) { return std::make_unique<Obj>(id); }
std::shared_ptr<Obj> share_obj(std::unique_ptr<Obj> u) { return std::shared_ptr<Obj>(std::move(u)); }
namespace {
std::uint64_t fnv(const std::string &s) {
  std::uint64_t h = 0xcbf29ce484222325u;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3u;
  return h;
}
struct Local {
  std::uint64_t n;
  ~Local() { ev(n << 4 | 2); }
};
struct Custom : virtual std::exception {
  std::string m;
  Local *l = nullptr;
  explicit Custom(std::string m) : m(std::move(m)) {}
  const char *what() const noexcept override { return m.c_str(); }
};

[[noreturn]] void raise(std::uint8_t exc, const std::string &m) {
  switch (exc) {
  case 0: throw std::runtime_error(m);
  case 1: throw std::logic_error(m);
  case 2: throw std::out_of_range(m);
  case 3: throw Custom(m);
  case 4: throw std::bad_alloc();
  case 5: {
    // A rust::Error made by a failing Rust function.
    rust_fail(rust::Str(m), 0);
    std::abort();
  }
  default:
    try { throw std::runtime_error("inner"); } catch (...) { std::throw_with_nested(std::runtime_error(m)); }
  }
}
std::string bytes(const rust::Vec<std::uint8_t> &v) { return std::string(v.begin(), v.end()); }

std::string call_kid(std::uint32_t k) {
  Node n = node(k);
  auto b = mk_r(k);
  rust::String s(std::to_string(k));
  Tr t(k);
  auto u = new_obj(k);
  switch (n.kind) {
#define ARGS k, std::move(b), std::move(s), std::move(t), std::move(u)
#define FRAME(i) (n.cpp ? cpp_frame##i(ARGS) : rust_frame##i(ARGS))
  case 0: FRAME(0); return "u";
  case 1: return std::string(FRAME(1));
  case 2: return std::string(FRAME(2)->text());
  case 3: return *FRAME(3);
  case 4: return std::to_string(FRAME(4));
  case 5: { Pack p = FRAME(5); return std::string(p.text) + std::to_string(tr_value(p.t)) + "/" + std::to_string(p.n); }
  case 6: { auto v = FRAME(6); std::string r; for (auto &e : v) r += std::string(e) + ";"; return r; }
  case 7: return std::string(FRAME(7));
  default: return std::to_string(FRAME(8)->id());
  }
}

std::string exec(std::uint32_t i, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u) {
  ev(std::uint64_t(i) << 4 | 1);
  Node n = node(i);
  Local l{i};
  if (b->r_id() != i || std::string(s) != std::to_string(i) || tr_value(t) != i || u->id() != i) ev(std::uint64_t(i) << 4 | 9);
  if (n.pre_fail) raise(n.exc, bytes(n.msg));
  std::string out = std::to_string(i) + "[";
  for (auto k : n.kids) {
    switch (n.on_err) {
    case 0: out += call_kid(k); break;
    case 1:
      try { out += call_kid(k); } catch (...) { out += "!"; }
      break;
    case 2:
      try { out += call_kid(k); } catch (const std::exception &e) { throw std::runtime_error("w" + std::to_string(i) + "(" + e.what() + ")"); }
      break;
    case 3:
      try { out += call_kid(k); } catch (const std::exception &) { throw; }
      break;
    case 4:
      try { out += call_kid(k); } catch (const rust::Error &e) { rust::Error c(e); throw c; }
      break;
    case 5: {
      std::exception_ptr p;
      try { out += call_kid(k); } catch (...) { p = std::current_exception(); }
      if (p) { Local again{i}; std::rethrow_exception(p); }
      break;
    }
    default:
      try { out += call_kid(k); } catch (const std::exception &e) { out += "{" + std::string(e.what()) + "}"; }
    }
    out += ",";
  }
  if (n.post_fail) raise(n.exc, bytes(n.msg));
  return out + "]";
}
} // namespace
#define P std::uint32_t n, rust::Box<R> b, rust::String s, Tr t, std::unique_ptr<Obj> u
#define E exec(n, std::move(b), std::move(s), std::move(t), std::move(u))
void cpp_frame0(P) { E; }
rust::String cpp_frame1(P) { return E; }
rust::Box<Txt> cpp_frame2(P) { return mk_txt(E); }
std::unique_ptr<std::string> cpp_frame3(P) { return std::make_unique<std::string>(E); }
std::uint64_t cpp_frame4(P) { return fnv(E); }
Pack cpp_frame5(P) { Pack p{E, Tr(n), static_cast<std::uint16_t>(n + 7)}; return p; }
rust::Vec<rust::String> cpp_frame6(P) { rust::Vec<rust::String> v; v.push_back(E); v.push_back("x"); return v; }
rust::Str cpp_frame7(P) { return intern(E); }
std::shared_ptr<Obj> cpp_frame8(P) { auto h = fnv(E); return std::make_shared<Obj>(h); }

std::unique_ptr<ErrLab> new_errlab() { return std::make_unique<ErrLab>(); }
int ErrLab::op(std::uint32_t op, std::size_t i, std::size_t j, rust::Str msg) {
  return guard([&] {
    switch (op) {
    case 0: try { rust_fail(msg, 0); } catch (const rust::Error &e) { errs.push_back(e); } break;
    case 1: try { rust_fail(msg, 0); } catch (rust::Error &e) { errs.push_back(std::move(e)); } break;
    case 2: { rust::Error c(errs[i]); errs.push_back(c); break; }
    case 3: { rust::Error c(std::move(errs[i])); errs.erase(errs.begin() + i); errs.push_back(std::move(c)); break; }
    case 4: errs[i] = errs[j]; break;
    case 5: if (i != j) { errs[i] = std::move(errs[j]); errs.erase(errs.begin() + j); } break;
    case 6: std::swap(errs[i], errs[j]); break;
    case 7: errs.erase(errs.begin() + i); break;
    case 8: ptrs.push_back(std::make_exception_ptr(errs[i])); break;
    case 9: if (!ptrs.empty()) { auto p = ptrs.back(); ptrs.pop_back(); try { std::rethrow_exception(p); } catch (const rust::Error &e) { errs.push_back(e); } } break;
    case 10: try { throw errs[i]; } catch (const rust::Error &e) { errs[j] = e; } break;
    case 11: try { throw errs[i]; } catch (rust::Error e) { errs.push_back(std::move(e)); } break;
    case 12: { auto copy = errs; errs = copy; break; }
    case 13: { // assign to a moved-from error, copy a moved-from error
      rust::Error a(errs[i]);
      rust::Error b(std::move(a));
      rust::Error c(a);
      a = b; c = std::move(b);
      errs[i] = c; errs[j] = errs[j];
      break;
    }
    case 14: { const std::exception &e = errs[i]; if (std::string(e.what()) != errs[i].what()) throw 1; break; }
    case 15: throw errs[i];
    }
  });
}
std::unique_ptr<std::string> ErrLab::what(std::size_t i) const { return std::make_unique<std::string>(errs.at(i).what()); }
void cpp_throw(std::uint32_t kind, rust::Slice<const std::uint8_t> msg) {
  raise(kind, std::string(reinterpret_cast<const char *>(msg.data()), msg.size()));
}
std::unique_ptr<std::string> cpp_see(rust::Str msg, std::uint32_t kind) {
  auto out = std::make_unique<std::string>("no error");
  try {
    *out = "ok " + std::to_string(rust_fail(msg, kind));
  } catch (const rust::Error &e) {
    rust::Error f(e);
    *out = std::string("rust::Error ") + f.what();
  } catch (const std::exception &e) {
    *out = std::string("other ") + e.what();
  }
  return out;
}

// C11
namespace {
std::uint64_t *flag;
// Everything C++ does after the call under test is recorded here.
void mark(int k) { if (flag) *flag |= std::uint64_t(1) << k; }
struct Guard { int k; ~Guard() { mark(k); } };
template <typename T> void use(T &&) {}
} // namespace
void call_fn0(rust::Fn<void(std::uint32_t)> f, std::uint32_t mode) { Guard g{6}; try { f(mode); mark(7); } catch (...) { mark(8); } }
void call_fn1(rust::Fn<rust::String(std::uint32_t)> f, std::uint32_t mode) { Guard g{6}; try { auto s = f(mode); mark(7); } catch (...) { mark(8); } }
void call_fn2(rust::Fn<Pack(std::uint32_t)> f, std::uint32_t mode) { Guard g{6}; try { Pack s = f(mode); mark(7); } catch (...) { mark(8); } }
void call_fn3(rust::Fn<void(std::uint32_t, rust::Box<Bomb>)> f, std::uint32_t mode) { Guard g{6}; try { f(mode, mk_bomb(0)); mark(7); } catch (...) { mark(8); } }
namespace {
void shape_call(std::uint32_t shape, std::uint32_t mode) {
  switch (shape) {
  case 0: boom(mode); break;
  case 1: use(boom_u64(mode)); break;
  case 2: use(boom_string(mode)); break;
  case 3: use(boom_box(mode)); break;
  case 4: use(boom_uptr(mode)); break;
  case 5: use(boom_vec(mode)); break;
  case 6: use(boom_pack(mode)); break;
  case 7: use(boom_str(mode)); break;
  case 8: use(boom_res(mode)); break;
  case 9: boom_res_unit(mode); break;
  case 10: use(boom_res_pack(mode)); break;
  case 11: boom_display(mode); break;
  case 12: boom_args(mode, mk_txt("a"), new_obj(5), Tr(6), "d"); break;
  case 13: use(mk_bomb(mode)->method()); break;
  case 14: { std::uint8_t x[3] = {1, 2, 3}; use(mk_bomb(mode)->method_mut(rust::Slice<const std::uint8_t>(x, 3))); break; }
  case 15: use(assoc(mode)); break;
  case 16: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a == b); break; }
  case 17: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a != b); break; }
  case 18: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a < b); break; }
  case 19: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a <= b); break; }
  case 20: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a > b); break; }
  case 21: { Cmp a{mk_bomb(mode), 1}, b{mk_bomb(mode), 1}; use(a >= b); break; }
  case 22: { Cmp a{mk_bomb(mode), 1}; use(std::hash<Cmp>()(a)); break; }
  case 23: { auto b = mk_bomb(mode | 256); break; }
  case 24: { auto v = mk_bombs(mode | 256, 3); break; }
  case 25: { auto v = mk_holders(mode | 256, 3); break; }
  case 26: { auto v = mk_bombs(mode | 256, 3); v.truncate(1); mark(40); break; }
  case 27: { auto v = mk_holders(mode | 256, 3); v.clear(); mark(40); break; }
  case 28: { Holder h{1, mk_bomb(mode | 256)}; break; }
  case 29: { auto b = mk_bomb(mode | 256); b = mk_bomb(0); mark(40); break; }
  case 30: { auto v = mk_bombs(mode | 256, 2); v = mk_bombs(0, 1); mark(40); break; }
  case 31: eat(mk_bomb(mode | 256)); break;
  case 32: eat_vec(mk_bombs(mode | 256, 2)); break;
  case 33: { auto p = std::make_unique<Holder>(Holder{1, mk_bomb(mode | 256)}); p.reset(); mark(40); break; }
  case 34: { auto p = std::make_shared<Holder>(Holder{1, mk_bomb(mode | 256)}); p.reset(); mark(40); break; }
  case 35: { auto b = mk_bomb(mode | 256); auto *raw = b.into_raw(); use(rust::Box<Bomb>::from_raw(raw)); break; }
  case 36: fn_shape(mode, 0); break;
  case 37: fn_shape(mode, 1); break;
  case 38: fn_shape(mode, 2); break;
  default: fn_shape(mode, 3); break;
  }
}
} // namespace
void set_flag(std::uint64_t *p) { flag = p; }
void enter_then_leave(std::uint32_t shape, std::uint32_t mode, std::uint32_t depth) {
  Guard g{30};
  panic_call(shape, mode, depth);
  mark(31);
}
void panic_call(std::uint32_t shape, std::uint32_t mode, std::uint32_t depth) {
  Guard g{0};
  try {
    Guard h{1};
    if (depth > 0) {
      switch (depth & 3) {
      case 0: enter_then_leave(shape, mode, depth - 1); break;
      case 1: reenter(shape, mode, depth - 1); break;
      default: reenter_res(shape, mode, depth - 1); break;
      }
    } else {
      shape_call(shape, mode);
    }
    mark(2);
  } catch (const std::exception &) {
    mark(3);
    throw;
  } catch (...) {
    mark(4);
    throw;
  }
  mark(5);
}

// C26
std::unique_ptr<FnLab> new_fnlab() { return std::make_unique<FnLab>(); }
Pack FnLab::call_p(std::size_t i, Pack x) const { return p[i](std::move(x)); }
Hue FnLab::call_e(std::size_t j, Hue a, const std::uint64_t &b, Pair c) const { return e[j](a, b, c); }
rust::Vec<Pack> FnLab::call_k(std::size_t j, rust::Vec<Pack> a, Pack b, std::uint8_t c) const { return k[j](std::move(a), std::move(b), c); }
Pair FnLab::call_g(std::size_t j, Pair a, rust::String b, Pair c) const { return g[j](a, std::move(b), c); }
void FnLab::put_res(rust::Fn<std::uint64_t(std::uint64_t)> f, bool fail) {
  if (fail) throw std::runtime_error(std::to_string(f(1)));
  u.push_back(f);
}
namespace {
template <typename F> void fn_op(std::vector<F> &v, std::uint32_t op, std::size_t i, std::size_t j) {
  switch (op) {
  case 0: { F f = v[i]; v.push_back(f); break; }
  case 1: v[i] = v[j]; break;
  case 2: std::swap(v[i], v[j]); break;
  case 3: v.erase(v.begin() + i); break;
  case 4: v.push_back(*v[i]); break;
  case 5: { F f = std::move(v[i]); v[i] = std::move(f); break; }
  case 6: { std::vector<F> w = v; v = w; break; }
  case 7: { // through type erasure and the heap
    auto p = std::make_unique<F>(**v[i]);
    v.insert(v.begin() + j, *p);
    break;
  }
  }
}
} // namespace
#define EACH(X) X(0, u) X(1, s) X(2, b) X(3, p) X(4, o) X(5, m) X(6, v) X(7, t) X(8, w) X(9, z) X(10, l) X(11, r) X(12, h) X(13, i) X(14, n) X(15, x) X(16, e) X(17, k) X(18, y) X(19, q) X(20, g)
std::size_t FnLab::len(std::uint32_t sig) const {
  switch (sig) {
#define X(k_, n_) case k_: return n_.size();
    EACH(X)
#undef X
  }
  return 0;
}
void FnLab::op(std::uint32_t sig, std::uint32_t op, std::size_t ia, std::size_t ib) {
  switch (sig) {
#define X(k_, n_) case k_: fn_op(n_, op, ia, ib); break;
    EACH(X)
#undef X
  }
}
std::uint64_t apply(rust::Fn<std::uint64_t(std::uint64_t)> f, rust::Fn<std::uint64_t(std::uint64_t)> g, std::uint64_t x, std::uint32_t order) {
  for (int k = 0; k < 4; k++) x = (order >> k & 1) ? g(x) : f(x);
  return x;
}
} // namespace lab

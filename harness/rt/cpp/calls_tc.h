#pragma once
#include "rt/cpp/lab.h"
namespace tc {
struct Fault { int code; std::string text; };
std::uint64_t custom_throw(std::uint32_t kind, rust::Slice<const std::uint8_t> msg);
}
// https://cxx.rs/binding/result.html
namespace rust {
namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try {
  func();
} catch (const std::exception &e) {
  fail(std::string("std:") + e.what());
} catch (const tc::Fault &f) {
  fail(std::to_string(f.code) + ":" + f.text);
} catch (const char *s) {
  fail(s);
} catch (int n) {
  fail(std::to_string(n));
} catch (...) {
  fail("unknown");
}
}
}

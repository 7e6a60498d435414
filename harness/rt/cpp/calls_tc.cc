#include "rt/cpp/calls_tc.h"
namespace tc {
std::uint64_t custom_throw(std::uint32_t kind, rust::Slice<const std::uint8_t> msg) {
  std::string m(reinterpret_cast<const char *>(msg.data()), msg.size());
  static thread_local std::string keep;
  switch (kind) {
  case 0: throw std::runtime_error(m);
  case 1: throw Fault{static_cast<int>(m.size()), m};
  case 2: keep = m; throw keep.c_str();
  case 3: throw static_cast<int>(m.size());
  case 4: throw 1.5;
  default: return m.size();
  }
}
}

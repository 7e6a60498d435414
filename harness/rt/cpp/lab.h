#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

// Result codes shared with the Rust side.
enum : int { OK = 0, INVALID_ARGUMENT = 1, OUT_OF_RANGE = 2, OTHER = 3, BAD = 4, RUST_ERROR = 5 };

template <typename F> int guard(F &&f) {
  try {
    f();
    return OK;
  } catch (const std::invalid_argument &) {
    return INVALID_ARGUMENT;
  } catch (const std::out_of_range &) {
    return OUT_OF_RANGE;
  } catch (const rust::Error &) {
    return RUST_ERROR;
  } catch (...) {
    return OTHER;
  }
}

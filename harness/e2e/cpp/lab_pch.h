#include "rust/cxx.h"
#include "lab.h"
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <ostream>
#include <ranges>
#include <string_view>
#include <vector>

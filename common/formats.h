// What each format is specified to keep of an experience.
#pragma once
#include "model.h"

namespace hm {
// .hmpg (binary file)
auto expectBinary(ht::Haptics &h) -> Flat;
auto binaryTolerance(const std::string &path, const Val &v) -> double;
} // namespace hm

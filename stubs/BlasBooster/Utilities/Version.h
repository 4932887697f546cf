// Stand-in for the header which cmake generates from Version.h.in.
#pragma once
#include <string>
namespace BlasBooster {
const std::string version = "test";
const std::string revision = "test";
} // namespace BlasBooster

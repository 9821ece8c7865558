// Stand-in for the header the build of BlasBooster generates.
#pragma once
#include <string>
namespace BlasBooster { const std::string version = "verif"; }

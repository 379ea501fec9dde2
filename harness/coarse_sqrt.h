// Force-included for the AF encoder: square roots (used for RMS estimates only) take one of a few values, so that the factors
// found for a block stay numbers while the data stay symbolic. Any estimate gives valid factors; exact ones only compress better.
#pragma once
#include <cmath>
#include <complex>
#include <random>
#include <vector>
#include <algorithm>
#include <cstring>
#include <string>
#include <limits>
extern "C" double verif_sqrt(double);
namespace std { using ::verif_sqrt; }
#define sqrt verif_sqrt

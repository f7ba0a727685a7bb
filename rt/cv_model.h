// Model of OpenCV's random numbers: any of KNP_RANDU values of [0, 1), one path each (double divisions and roots of symbolic places are out of the solver's reach).
// Everything else that is used of OpenCV is in its own headers.
#pragma once
#include <opencv2/core.hpp>
extern "C" unsigned knpsym_choose(unsigned n, const char *name);
#ifndef KNP_RANDU
#define KNP_RANDU 4
#endif
namespace cv {
template <> inline double randu<double>() { return knpsym_choose(KNP_RANDU, "random") / double(KNP_RANDU); }
}  // namespace cv

// Force-included before every source. Keeps Eigen's run-time assertions on, but not the
// static ones that Eigen 3.4 (the only one installed) added over the Eigen 3.3 the code was
// written for (OptVar.cpp: colwise() = v.block(0,0,n,1)); the project's build disables them too.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#define VF_STR(x) #x
#ifdef VF_POINTS
void vf_point();
#define VF_POINT() vf_point()
#else
#define VF_POINT() ((void)0)
#endif
#define eigen_assert(x) do { VF_POINT(); if (!(x) && !std::strstr(#x, "&& \"YOU_TRIED_CALLING_A_VECTOR")) { \
  std::fprintf(stderr, "%s:%d: eigen assertion %s\n", __FILE__, __LINE__, #x); std::abort(); } } while (false)

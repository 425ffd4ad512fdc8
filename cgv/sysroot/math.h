/* minimal declarations for cross-target front-end runs (no code generated from these) */
#ifndef CGV_MATH_H
#define CGV_MATH_H
#define F1(n) double n(double); float n##f(float);
F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sqrt) F1(fabs) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(exp) F1(exp2) F1(log) F1(log2) F1(log10) F1(cbrt) F1(sinh) F1(cosh) F1(tanh) F1(nearbyint)
#define F2(n) double n(double, double); float n##f(float, float);
F2(pow) F2(atan2) F2(fmod) F2(hypot) F2(fmin) F2(fmax) F2(copysign)
float ldexpf(float, int); double ldexp(double, int); float frexpf(float, int *); float modff(float, float *); float fmaf(float, float, float);
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
#define NAN __builtin_nanf("")
#define INFINITY __builtin_inff()
#define HUGE_VALF __builtin_huge_valf()
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define M_PI_4 0.78539816339744830962
#endif

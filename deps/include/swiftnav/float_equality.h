#ifndef LIBSWIFTNAV_FLOAT_EQUALITY_H
#define LIBSWIFTNAV_FLOAT_EQUALITY_H
#include <float.h>
#include <math.h>
#include <stdbool.h>
#ifndef FLOAT_EQUALITY_EPS
#define FLOAT_EQUALITY_EPS 1e-12
#endif
static inline bool float_equal(float a, float b) { return fabsf(a - b) < FLT_EPSILON; }
static inline bool double_equal(double a, double b) { return fabs(a - b) < DBL_EPSILON; }
#endif

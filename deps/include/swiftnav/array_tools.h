#ifndef LIBSWIFTNAV_ARRAY_TOOLS_H
#define LIBSWIFTNAV_ARRAY_TOOLS_H
#include <swiftnav/common.h>
static inline bool is_value_in_array_u16(const u16 *a, size_t n, u16 v) { for (size_t i = 0; i < n; i++) if (a[i] == v) return true; return false; }
#endif

#ifndef SWIFTNAV_STRNLEN_H
#define SWIFTNAV_STRNLEN_H
#include <stddef.h>
static inline size_t swift_strnlen(const char *s, size_t maxlen) { size_t i = 0; while (i < maxlen && s[i]) i++; return i; }
#endif

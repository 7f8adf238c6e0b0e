/* Specification-side reader of big-endian bit fields at a running position. */
#ifndef CURSOR_H
#define CURSOR_H
#include "vp.h"
static const uint8_t *cu_p;
static uint32_t cu_pos;
static void cu_at(const uint8_t *p, uint32_t pos) { cu_p = p; cu_pos = pos; }
static uint64_t G(uint32_t n) { /* next n bits (n <= 64) */
  if (n == 0) return 0;
  uint32_t a = cu_pos / 8, b = (cu_pos + n - 1) / 8;
  unsigned __int128 v = 0;
  for (uint32_t i = a; i <= b; i++) v = (v << 8) | cu_p[i];
  v >>= 8 * (b + 1) - (cu_pos + n);
  cu_pos += n;
  return (uint64_t)v & (n == 64 ? ~(uint64_t)0 : ((uint64_t)1 << n) - 1);
}
static int64_t GS(uint32_t n) { /* two's complement */
  uint64_t v = G(n);
  if (n < 64 && ((v >> (n - 1)) & 1u)) v |= ~(uint64_t)0 << n;
  return (int64_t)v;
}
static int64_t GM(uint32_t n) { /* sign and magnitude */
  uint64_t s = G(1), m = G(n - 1);
  return s ? -(int64_t)m : (int64_t)m;
}
/* bit pattern equality of doubles (IEEE zero signs ignored, NaN equals NaN) */
static bool deq(double a, double b) { return a == b || (a != a && b != b); }
#endif

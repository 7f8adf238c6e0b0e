/* R01: the bit-field readers and writers of librtcm.
 *
 * c_<fn>: the function contract, enforced by goto-instrument --dfcc for a field
 *         of VP_LEN bits at an ARBITRARY position (the buffer is a window of NB
 *         bytes starting at byte pos/8 of a virtual buffer, so an access outside
 *         the window is an out-of-bounds access).
 * e_<fn>: every field width at every alignment, whole-buffer frame. */
#include "vp.h"
#include "rtcm3/bits.h"
#define NB 16u
#ifndef VP_LEN
#define VP_LEN 1
#endif

static uint8_t *win;     /* window, win[0] is byte win_q of the buffer */
static uint32_t win_q;
static uint8_t old[NB];  /* ghost: window content at entry */

/* the window as one big-endian number */
typedef unsigned __int128 w_t;
static w_t word(const uint8_t *b) {
  return ((w_t)b[0] << 120) | ((w_t)b[1] << 112) | ((w_t)b[2] << 104) | ((w_t)b[3] << 96) |
         ((w_t)b[4] << 88) | ((w_t)b[5] << 80) | ((w_t)b[6] << 72) | ((w_t)b[7] << 64) |
         ((w_t)b[8] << 56) | ((w_t)b[9] << 48) | ((w_t)b[10] << 40) | ((w_t)b[11] << 32) |
         ((w_t)b[12] << 24) | ((w_t)b[13] << 16) | ((w_t)b[14] << 8) | b[15];
}
/* big-endian bit field, the specification of every reader (k + len <= 128) */
static uint64_t ones(uint32_t len) { return len == 64 ? ~(uint64_t)0 : ((uint64_t)1 << len) - 1; }
static uint64_t spec_field(const uint8_t *b, uint32_t k, uint32_t len) {
  return (uint64_t)(word(b) >> (128 - k - len)) & ones(len);
}
static int64_t spec_sfield(const uint8_t *b, uint32_t k, uint32_t len) {
  uint64_t v = spec_field(b, k, len);
  if ((v >> (len - 1)) & 1u) v |= ~ones(len);
  return (int64_t)v;
}
/* all bits of `now` are those of `before`, except the field, which holds data */
static bool spec_written(const uint8_t *now, const uint8_t *before, uint32_t k, uint32_t len, uint64_t data) {
  w_t m = (w_t)ones(len) << (128 - k - len);
  return word(now) == ((word(before) & ~m) | ((w_t)(data & ones(len)) << (128 - k - len)));
}

#ifdef VP_CPROVER
#define GET_CONTRACT(T, NAME, MAXL, SPEC)                                                 \
  T NAME(const uint8_t *buff, uint32_t pos, uint8_t len)                                  \
  VP_REQUIRES(len >= 1 && len <= MAXL && pos / 8 == win_q && buff == win - win_q)         \
  VP_ASSIGNS()                                                                            \
  VP_ENSURES(__CPROVER_return_value == (T)SPEC(win, pos % 8, len))
#define SET_CONTRACT(NAME, T, MAXL)                                                       \
  void NAME(uint8_t *buff, uint32_t pos, uint32_t len, T data)                            \
  VP_REQUIRES(len >= 1 && len <= MAXL && pos / 8 == win_q && buff == win - win_q)         \
  VP_ASSIGNS(__CPROVER_object_upto(win, NB))                                              \
  VP_ENSURES(spec_written(win, old, pos % 8, len, (uint64_t)(int64_t)data))
GET_CONTRACT(uint32_t, rtcm_getbitu, 32, spec_field);
GET_CONTRACT(uint64_t, rtcm_getbitul, 64, spec_field);
GET_CONTRACT(int32_t, rtcm_getbits, 32, spec_sfield);
GET_CONTRACT(int64_t, rtcm_getbitsl, 64, spec_sfield);
SET_CONTRACT(rtcm_setbitu, uint32_t, 32);
SET_CONTRACT(rtcm_setbitul, uint64_t, 64);
SET_CONTRACT(rtcm_setbits, int32_t, 32);
SET_CONTRACT(rtcm_setbitsl, int64_t, 64);
#endif

struct in { uint8_t b[NB]; uint32_t pos; uint64_t data; };
VP_INPUT(struct in, IN);

#define PRE                                          \
  VP_TAKE(IN);                                       \
  VP_ASSUME(IN.pos <= 0xfffffe00u);                  \
  win = IN.b; win_q = IN.pos / 8;                    \
  memcpy(old, IN.b, NB);                             \
  VP_COVER(IN.pos > 0x10005 && IN.pos % 8 == 5, "unaligned, far into the buffer");
#define GET_C(FN, T, SPEC) void c_##FN(void) { PRE T r = FN(win - win_q, IN.pos, VP_LEN); \
  VP_ASSERT(r == (T)SPEC(win, IN.pos % 8, VP_LEN), "field value"); }
#define SET_C(FN, T) void c_##FN(void) { PRE T d = (T)IN.data; FN(win - win_q, IN.pos, VP_LEN, d); \
  VP_ASSERT(spec_written(win, old, IN.pos % 8, VP_LEN, (uint64_t)(int64_t)d), "field written, every other bit kept"); }
GET_C(rtcm_getbitu, uint32_t, spec_field)
GET_C(rtcm_getbitul, uint64_t, spec_field)
GET_C(rtcm_getbits, int32_t, spec_sfield)
GET_C(rtcm_getbitsl, int64_t, spec_sfield)
SET_C(rtcm_setbitu, uint32_t)
SET_C(rtcm_setbitul, uint64_t)
SET_C(rtcm_setbits, int32_t)
SET_C(rtcm_setbitsl, int64_t)

#ifndef VP_LO
#define VP_LO 1
#define VP_HI 32
#endif
#define GET_E(FN, T, SPEC) void e_##FN(void) { PRE \
  for (uint32_t len = VP_LO; len <= VP_HI; len++) for (uint32_t p = 0; p < 8; p++) { T r = FN(IN.b, p, (uint8_t)len); \
    VP_ASSERT(r == (T)SPEC(IN.b, p, len), "field value"); } }
#define SET_E(FN, T) void e_##FN(void) { PRE T d = (T)IN.data; \
  for (uint32_t len = VP_LO; len <= VP_HI; len++) for (uint32_t p = 0; p < 8; p++) { \
    memcpy(IN.b, old, NB); FN(IN.b, p, len, d); \
    VP_ASSERT(spec_written(IN.b, old, p, len, (uint64_t)(int64_t)d), "field written, every other bit kept"); } }
GET_E(rtcm_getbitu, uint32_t, spec_field)
GET_E(rtcm_getbitul, uint64_t, spec_field)
GET_E(rtcm_getbits, int32_t, spec_sfield)
GET_E(rtcm_getbitsl, int64_t, spec_sfield)
SET_E(rtcm_setbitu, uint32_t)
SET_E(rtcm_setbitul, uint64_t)
SET_E(rtcm_setbits, int32_t)
SET_E(rtcm_setbitsl, int64_t)

/* zero-length reads yield zero; out-of-range widths write nothing */
void e_edge(void) {
  PRE
  for (uint32_t p = 0; p < 8; p++) {
    VP_ASSERT(rtcm_getbitu(IN.b, p, 0) == 0 && rtcm_getbitul(IN.b, p, 0) == 0, "empty field reads as 0");
  }
}

/* sign-magnitude fields: top bit sign, the rest magnitude; the pair is inverse */
void e_sm(void) {
  PRE
  for (uint32_t len = VP_LO; len <= VP_HI; len++) {
    for (uint32_t p = 0; p < 8; p++) {
      uint64_t magmask = ((uint64_t)1 << (len - 1)) - 1;
      uint64_t mag = IN.data & magmask;
      bool neg = (IN.data >> 63) != 0 && mag != 0;
      int64_t v = neg ? -(int64_t)mag : (int64_t)mag;
      memcpy(IN.b, old, NB);
      rtcm_set_sign_magnitude_bit(IN.b, p, (uint8_t)len, v);
      VP_ASSERT(spec_written(IN.b, old, p, len, mag | ((uint64_t)neg << (len - 1))), "sign-magnitude field written");
      VP_ASSERT(rtcm_get_sign_magnitude_bit(IN.b, p, (uint8_t)len) == (int32_t)v, "reader inverts writer");
      uint64_t raw = spec_field(old, p, len);
      int64_t want = (raw >> (len - 1)) ? -(int64_t)(raw & magmask) : (int64_t)(raw & magmask);
      VP_ASSERT(rtcm_get_sign_magnitude_bit(old, p, (uint8_t)len) == (int32_t)want, "sign-magnitude value");
      swiftnav_bitstream_t bs;
      swiftnav_bitstream_init(&bs, old, p + len);
      bs.offset = p;
      int32_t out = 0;
      VP_ASSERT(rtcm_get_sign_magnitude_bitstream(&bs, (uint8_t)len, &out) == RC_OK, "enough input is accepted");
      VP_ASSERT(out == (int32_t)want, "same value as the direct reader");
      VP_ASSERT(bs.offset == p + len, "consumes exactly its field");
      bs.offset = p;
      bs.len = p + len - 1;
      VP_ASSERT(rtcm_get_sign_magnitude_bitstream(&bs, (uint8_t)len, &out) != RC_OK, "short input refused");
    }
  }
}

/* U01 decoding, U02 encoding, U03 refusal of UBX messages.
 * MSG = message, LEN = octets of the message incl. class, id, length. */
#include "vp.h"
#include <ubx/decode.h>
#include <ubx/encode.h>
#include "ubx_layout.h"
#ifndef VP_N
#define VP_N 0
#endif
#ifndef VP_STEP
#define VP_STEP 1
#endif
#ifndef VP_CALIB
#define VP_CALIB 0
#endif
#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
typedef XCAT(ubx_, MSG) msg_t;
#ifndef ENCODER
#define ENCODER XCAT(ubx_encode_, MSG)
#endif
#define DECODER XCAT(XCAT(ubx_decode_, MSG), _bytestream)
static const uint8_t ID[2] = {XCAT(C_, MSG)};
struct in { uint32_t n; uint8_t b[LEN + 8]; msg_t m; };
VP_INPUT(struct in, IN);
static uint64_t le(const uint8_t *p, int n) {
  uint64_t v = 0;
  for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i];
  return v;
}
static uint64_t val(const void *f, int n) { /* object representation; LP64 little endian */
  return le((const uint8_t *)f, n);
}
/* fields which steer the layout are given the constant values of this unit */
static void steer(uint8_t *b) {
  b[0] = ID[0]; b[1] = ID[1];
#if defined(VP_AT)
  b[VP_AT] = VP_N;
#elif defined(VP_MEAS)
#if VP_N > 2
  b[9] = VP_N << 3 | 5; b[8] = 0xA5 & 0xF7 | VP_CALIB << 3;
#else
  b[9] = VP_N << 3 | (b[9] & 7); b[8] = (b[8] & 0xF7) | VP_CALIB << 3;
#endif
#elif defined(VP_RAW)
  b[2] = (4 + 8 * VP_N) & 255; b[3] = (4 + 8 * VP_N) >> 8;
#endif
}
static msg_t M;
void h_dec(void) {
  VP_TAKE(IN);
  steer(IN.b);
  swiftnav_bytestream_t s;
  swiftnav_bytestream_init(&s, IN.b, sizeof IN.b);
  ubx_rc rc = DECODER(&s, &M);
  VP_ASSERT(rc == RC_OK, "complete message decodes");
  VP_ASSERT(M.class_id == ID[0] && M.msg_id == ID[1] && M.length == le(IN.b + 2, 2), "class, id, length");
  uint32_t pos = 4;
#define F(n, f) { VP_ASSERT(sizeof(M.f) == n && val(&M.f, n) == le(IN.b + pos, n), "field " #f); pos += n; }
  XCAT(L_, MSG)
#undef F
  VP_ASSERT(pos == LEN && swiftnav_bytestream_remaining(&s) == 8, "consumes exactly the message");
  VP_COVER(1, "reached");
}
#ifndef NO_ENC
void h_enc(void) {
  VP_TAKE(IN);
  static uint8_t out[LEN + 48], old[LEN + 8];
  steer(IN.b);
  memcpy(old, IN.b, sizeof old);
  memcpy(out, old, sizeof old);
  IN.m.class_id = ID[0]; IN.m.msg_id = ID[1];
#if defined(VP_AT)
  IN.m.CNTF = VP_N;
#elif defined(VP_MEAS)
  IN.m.flags = ((VP_N > 2 ? 0x05A5 : IN.m.flags) & 0x07F7) | VP_N << 11 | VP_CALIB << 3;
#elif defined(VP_RAW)
  IN.m.length = 4 + 8 * VP_N;
#endif
  uint16_t n = ENCODER(&IN.m, out);
  VP_ASSERT(n == LEN, "encoded size");
  VP_ASSERT(out[0] == ID[0] && out[1] == ID[1] && le(out + 2, 2) == IN.m.length, "class, id, length");
  uint32_t pos = 4;
#define F(n, f) { VP_ASSERT(val(&IN.m.f, n) == le(out + pos, n), "field " #f); pos += n; }
  XCAT(L_, MSG)
#undef F
#ifndef VP_CLEARS
  for (int i = LEN; i < LEN + 8; i++) VP_ASSERT(out[i] == old[i], "writes nothing beyond the message");
#endif
  VP_COVER(1, "reached");
}
#endif
/* any other class or id, any contents, any length of at least 2 */
void h_other(void) {
  VP_TAKE(IN);
  VP_ASSUME(IN.b[0] != ID[0] || IN.b[1] != ID[1]);
  swiftnav_bytestream_t s;
  swiftnav_bytestream_init(&s, IN.b, sizeof IN.b);
  VP_ASSERT(DECODER(&s, &M) == RC_MESSAGE_TYPE_MISMATCH, "other messages are refused");
  VP_COVER(IN.b[0] == ID[0], "same class");
}
/* every proper prefix */
void h_trunc(void) {
  VP_TAKE(IN);
  steer(IN.b);
  for (uint32_t n = 0; n < LEN; n++) {
    if (n + 6 < LEN && n % VP_STEP) continue;
    swiftnav_bytestream_t s;
    swiftnav_bytestream_init(&s, IN.b, n);
    VP_ASSERT(DECODER(&s, &M) == RC_INVALID_MESSAGE, "truncated message is refused");
  }
  VP_COVER(1, "reached");
}
/* more elements announced than the message structure holds: VP_LO..VP_HI */
#ifdef VP_MANY
void h_many(void) {
  VP_TAKE(IN);
  IN.b[0] = ID[0]; IN.b[1] = ID[1];
  uint32_t cnt;
#if defined(VP_RAW)
  uint32_t l = le(IN.b + 2, 2);
  VP_ASSUME(l >= 4 + 8 * 129);
#else
  VP_ASSUME(IN.b[VP_AT] > VP_MANY);
#endif
  swiftnav_bytestream_t s;
  swiftnav_bytestream_init(&s, IN.b, sizeof IN.b);
  VP_ASSERT(DECODER(&s, &M) == RC_INVALID_MESSAGE, "too many elements are refused");
  VP_COVER(1, "reached");
}
#endif

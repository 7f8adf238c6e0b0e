/* R08 message numbers and masks; R11 lock times; R13 STA strings. */
#include "cursor.h"
#include "encode.c"
#include "decode.c"
#include "rtcm3/sta_decode.h"
struct in { uint16_t n; uint8_t size, k, lock; bool m[64]; double t; uint8_t b[48]; };
VP_INPUT(struct in, IN);
void h_num(void) {
  VP_TAKE(IN);
  uint32_t n = IN.n, g = n / 10, k = n % 10;
  bool msm = g >= 107 && g <= 112 && k >= 1 && k <= 7;
  static const msm_enum T[] = {MSM_UNKNOWN, MSM1, MSM2, MSM3, MSM4, MSM5, MSM6, MSM7};
  msm_enum t = to_msm_type(IN.n);
  VP_ASSERT(t == (msm ? T[k] : MSM_UNKNOWN), "MSM type");
  static const rtcm_constellation_t C[] = {RTCM_CONSTELLATION_GPS, RTCM_CONSTELLATION_GLO, RTCM_CONSTELLATION_GAL, RTCM_CONSTELLATION_SBAS, RTCM_CONSTELLATION_QZS, RTCM_CONSTELLATION_BDS};
  rtcm_constellation_t want = RTCM_CONSTELLATION_INVALID;
  if (msm) want = C[g - 107];
  else if (n >= 1057 && n < 1063) want = C[0];
  else if (n >= 1063 && n < 1069) want = C[1];
  else if (n >= 1240 && n < 1246) want = C[2];
  else if (n >= 1246 && n < 1252) want = C[4];
  else if (n >= 1258 && n < 1264) want = C[5];
  else if (n == 1265) want = C[0];
  else if (n == 1266) want = C[1];
  else if (n == 1267) want = C[2];
  else if (n == 1268) want = C[4];
  else if (n == 1269) want = C[3];
  else if (n == 1270) want = C[5];
  VP_ASSERT(to_constellation(IN.n) == want, "constellation");
  VP_COVER(t == MSM5 && want == C[5], "reached");
}
void h_mask(void) {
  VP_TAKE(IN);
  for (int i = 0; i < 64; i++) IN.m[i] = IN.b[i % 48] >> i / 48 & 1;
  VP_ASSUME(IN.size <= 64);
  uint32_t c = 0;
  for (uint32_t i = 0; i < 64; i++) c += i < IN.size && IN.m[i];
  VP_ASSERT(count_mask_values(IN.size, IN.m) == c, "number of set values");
  if (IN.k >= 1 && IN.k <= c) {
    uint32_t p = find_nth_mask_value(IN.size, IN.m, IN.k), before = 0;
    VP_ASSERT(p < IN.size && IN.m[p], "position of a set value");
    for (uint32_t i = 0; i < 64; i++) before += i < p && IN.m[i];
    VP_ASSERT(before == IN.k - 1u, "of the wanted rank");
  }
  VP_COVER(c == 64 && IN.k == 64, "reached");
}
void h_lock(void) {
  VP_TAKE(IN);
  double t = IN.t;
  VP_ASSUME(t >= 0);
  /* legacy, seconds */
  uint8_t i = to_lock_ind(t);
  VP_ASSERT(i < 128, "7 bits");
  VP_ASSERT(from_lock_ind(i) <= t + 1e-9, "the encoded lock time does not exceed the real one");
  if (i < 127) VP_ASSERT(t < from_lock_ind((uint8_t)(i + 1)), "and the next indicator would");
  uint8_t l = IN.lock & 127;
  VP_ASSERT(to_lock_ind(from_lock_ind(l)) == l, "indicators survive decoding and encoding");
  if (l > 0) VP_ASSERT(from_lock_ind(l) > from_lock_ind((uint8_t)(l - 1)), "increasing");
  VP_COVER(i == 100, "reached");
}
void h_lock4(void) {
  VP_TAKE(IN);
  double t = IN.t, lim[17];
  VP_ASSUME(t >= 0);
  for (uint8_t k = 0; k < 16; k++) {
    lim[k] = rtcm3_decode_lock_time(k);
    VP_ASSERT(lim[k] == (k ? (16 << k) / 1000.0 : 0.0), "DF402 table");
    VP_ASSERT(rtcm3_encode_lock_time(lim[k]) == k, "indicators survive decoding and encoding");
  }
  uint8_t j = rtcm3_encode_lock_time(t);
  VP_ASSERT(j < 16, "4 bits");
  VP_ASSERT(lim[j] <= t, "the encoded lock time does not exceed the real one");
  if (j < 15) VP_ASSERT(t < lim[j + 1], "and the next indicator would");
  uint32_t e = IN.n & 1023;
  uint32_t k = e < 64 ? 0 : (e - 64) / 32 + 1;
  VP_ASSERT(from_msm_lock_ind_ext((uint16_t)e) == (e >= 704 ? 67108864u : (1u << k) * (e - 32 * k)), "DF407 table");
  VP_COVER(j == 9, "reached");
}
/* firmware version: the counted string, cut to the buffer, terminated */
void h_fwver(void) {
  VP_TAKE(IN);
  IN.b[0] = 999 >> 4;
  IN.b[1] = (uint8_t)((999 << 4) | (25 >> 4));
  IN.b[2] = (uint8_t)(25 << 4) | (IN.b[2] & 15);
  for (uint8_t len = 1; len <= 6; len++)
  for (uint8_t n = 0; n <= 8; n++) {
    IN.b[2] = (uint8_t)((25 << 4) | (n >> 4));
    IN.b[3] = (uint8_t)((n << 4) | 5);
    struct { char s[6]; uint8_t guard[4]; } o;
    memset(&o, 0x5a, sizeof(o));
    VP_ASSERT(sta_decode_fwver(IN.b, o.s, len) == RC_OK, "accepted");
    uint32_t m = n < len ? n : len - 1u;
    cu_at(IN.b, 28);
    for (uint32_t i = 0; i < 6; i++) if (i < m) VP_ASSERT((uint8_t)o.s[i] == G(8), "characters");
    VP_ASSERT(o.s[m] == 0, "terminated");
    for (uint32_t i = 0; i < 10; i++) if (i >= len) VP_ASSERT(((uint8_t *)&o)[i] == 0x5a, "nothing written past the buffer");
  }
  VP_COVER(IN.b[4] == 3, "reached");
}
/* receiver configuration: 15 characters, each group of four reversed */
void h_rcc(void) {
  VP_TAKE(IN);
  IN.b[0] = 999 >> 4;
  IN.b[1] = (uint8_t)((999 << 4) | 0);
  IN.b[2] = (uint8_t)(2 << 4) | (IN.b[2] & 15);
  struct { char s[20]; uint8_t guard[4]; } o;
  memset(&o, 0x5a, sizeof(o));
  VP_ASSERT(sta_decode_rcc_config(IN.b, o.s, 20) == RC_OK, "accepted");
  for (int i = 0; i < 15; i++) {
    bool stop = false;
    for (int j = 0; j < i % 4; j++) { cu_at(IN.b, 58 + 24 + 32 * (i / 4) - 8 * j); stop |= G(8) == 0; }
    cu_at(IN.b, 58 + 24 + 32 * (i / 4) - 8 * (i % 4));
    if (!stop) VP_ASSERT((uint8_t)o.s[i] == G(8), "characters");
  }
  VP_ASSERT(o.s[15] == 0, "terminated");
  for (int i = 16; i < 24; i++) VP_ASSERT(((uint8_t *)&o)[i] == 0x5a, "16 bytes written");
  VP_COVER(IN.b[9] == 3, "reached");
}

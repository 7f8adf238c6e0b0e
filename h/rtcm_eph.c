/* R07/R03: broadcast ephemeris messages: layout of decoders and encoders. */
#include "cursor.h"
#include "rtcm3/eph_decode.h"
#include "rtcm3/eph_encode.h"
#include "rtcm3/constants.h"
#ifndef MSG
#define MSG 1019
#endif
#define NB 72
struct in { uint8_t b[NB]; rtcm_msg_eph m; ephemeris_glo_raw_rtcm_t g; };
VP_INPUT(struct in, IN);
static rtcm_msg_eph M, D;
static uint8_t OUT[NB];
static bool encoding;
/* field of the message at the cursor; a decoded field holds its value, an
 * encoded one the low bits of the member */
#define MASK(w) ((w) == 32 ? 0xffffffffu : (1u << (w)) - 1)
#define FU(w, f) do { uint32_t r = (uint32_t)G(w); if (encoding) VP_ASSERT(r == ((uint32_t)(m->f) & MASK(w)), #f); else VP_ASSERT(m->f == r, #f); } while (0)
#define FS(w, f) do { int32_t r = (int32_t)GS(w); if (encoding) VP_ASSERT(((uint32_t)r & MASK(w)) == ((uint32_t)(m->f) & MASK(w)), #f); else VP_ASSERT(m->f == r, #f); } while (0)
/* sign and magnitude; values which do not fit are outside the statement when encoding */
#define FM(w, f) do { int32_t r = (int32_t)GM(w); int32_t v = (int32_t)m->f; if (!encoding || (v > -(1 << ((w)-1)) && v < (1 << ((w)-1)))) VP_ASSERT(v == r, #f); } while (0)
/* no member: skipped when decoding, constant when encoding */
#define SK(w, c) do { uint32_t r = (uint32_t)G(w); if (encoding) VP_ASSERT(r == (c), "constant bits"); } while (0)
#define K data.kepler
#define L data.glo
static uint32_t glo_health;
static void body(const rtcm_msg_eph *m) {
#if MSG == 1019
  FU(6, sat_id); FU(10, wn); FU(4, ura); FU(2, K.codeL2); FS(14, K.inc_dot); FU(8, K.iode);
  FU(16, K.toc); FS(8, K.af2); FS(16, K.af1); FS(22, K.af0); FU(10, K.iodc);
  FS(16, K.crs); FS(16, K.dn); FS(32, K.m0); FS(16, K.cuc); FU(32, K.ecc); FS(16, K.cus); FU(32, K.sqrta);
  FU(16, toe); FS(16, K.cic); FS(32, K.omega0); FS(16, K.cis); FS(32, K.inc); FS(16, K.crc); FS(32, K.w); FS(24, K.omegadot);
  FS(8, K.tgd.gps_s); FU(6, health_bits); FU(1, K.L2_data_bit); FU(1, fit_interval);
#elif MSG == 1044
  FU(4, sat_id); FU(16, K.toc); FS(8, K.af2); FS(16, K.af1); FS(22, K.af0); FU(8, K.iode);
  FS(16, K.crs); FS(16, K.dn); FS(32, K.m0); FS(16, K.cuc); FU(32, K.ecc); FS(16, K.cus); FU(32, K.sqrta);
  FU(16, toe); FS(16, K.cic); FS(32, K.omega0); FS(16, K.cis); FS(32, K.inc); FS(16, K.crc); FS(32, K.w); FS(24, K.omegadot);
  FS(14, K.inc_dot); SK(2, 0); FU(10, wn); FU(4, ura); FU(6, health_bits); FS(8, K.tgd.qzss_s); FU(10, K.iodc); FU(1, fit_interval);
#elif MSG == 1020
  FU(6, sat_id); FU(5, L.fcn); SK(1, 1); SK(1, 0); FU(2, fit_interval); SK(12, 0);
  glo_health = (uint32_t)G(1); SK(1, 0); FU(7, L.t_b);
  for (int i = 0; i < 3; i++) { FM(24, L.vel[i]); FM(27, L.pos[i]); FM(5, L.acc[i]); }
  SK(1, 0); FM(11, L.gamma); SK(2, 0);
  uint32_t ml3 = (uint32_t)G(1), ml5 = 0;
  FM(22, L.tau); FM(5, L.d_tau); SK(5, 0); SK(1, 0); FU(4, ura); SK(11, 0); SK(2, 0);
  uint32_t additional = (uint32_t)G(1);
  if (encoding) {
    VP_ASSERT(additional == 0, "no additional data");
    VP_ASSERT(glo_health == (m->health_bits & 1u) && ml3 == glo_health, "health");
    SK(32, 0); SK(32, 0); SK(14, 0);
  } else {
    if (additional) { G(64); G(6); ml5 = (uint32_t)G(1); G(7); }
    VP_ASSERT(m->health_bits == (glo_health | ml3 | ml5), "health");
  }
#elif MSG == 1042
  FU(6, sat_id); FU(13, wn); FU(4, ura); FS(14, K.inc_dot); FU(5, K.iode);
  FU(17, K.toc); FS(11, K.af2); FS(22, K.af1); FS(24, K.af0); FU(5, K.iodc);
  FS(18, K.crs); FS(16, K.dn); FS(32, K.m0); FS(18, K.cuc); FU(32, K.ecc); FS(18, K.cus); FU(32, K.sqrta);
  FU(17, toe); FS(18, K.cic); FS(32, K.omega0); FS(18, K.cis); FS(32, K.inc); FS(18, K.crc); FS(32, K.w); FS(24, K.omegadot);
  FS(10, K.tgd.bds_s[0]); FS(10, K.tgd.bds_s[1]); FU(1, health_bits);
#else
  FU(6, sat_id); FU(12, wn); FU(10, K.iode); FU(8, ura); FS(14, K.inc_dot);
  FU(14, K.toc); FS(6, K.af2); FS(21, K.af1); FS(31, K.af0);
  FS(16, K.crs); FS(16, K.dn); FS(32, K.m0); FS(16, K.cuc); FU(32, K.ecc); FS(16, K.cus); FU(32, K.sqrta);
  FU(14, toe); FS(16, K.cic); FS(32, K.omega0); FS(16, K.cis); FS(32, K.inc); FS(16, K.crc); FS(32, K.w); FS(24, K.omegadot);
  FS(10, K.tgd.gal_s[0]);
  uint32_t hw;
#if MSG == 1046
  FS(10, K.tgd.gal_s[1]);
  hw = 6;
#else
  if (!encoding) VP_ASSERT(m->K.tgd.gal_s[1] == 0, "no E1/E5b group delay in F/NAV");
  hw = 3;
#endif
  VP_ASSERT((uint32_t)G(hw) == (m->health_bits & MASK(hw)), "health");
  SK(MSG == 1046 ? 2 : 7, 0);
#endif
}
#if MSG == 1019
#define DECODE rtcm3_decode_gps_eph_bitstream
#define ENCODE rtcm3_encode_gps_eph
#define CONS RTCM_CONSTELLATION_GPS
#define BITS 488
#elif MSG == 1020
#define DECODE rtcm3_decode_glo_eph_bitstream
#define ENCODE rtcm3_encode_glo_eph
#define CONS RTCM_CONSTELLATION_GLO
#define BITS 360
#elif MSG == 1042
#define DECODE rtcm3_decode_bds_eph_bitstream
#define ENCODE rtcm3_encode_bds_eph
#define CONS RTCM_CONSTELLATION_BDS
#define BITS 511
#elif MSG == 1044
#define DECODE rtcm3_decode_qzss_eph_bitstream
#define CONS RTCM_CONSTELLATION_QZS
#define BITS 485
#elif MSG == 1045
#define DECODE rtcm3_decode_gal_eph_fnav_bitstream
#define ENCODE rtcm3_encode_gal_eph_fnav
#define CONS RTCM_CONSTELLATION_GAL
#define BITS 496
#elif MSG == 1046
#define DECODE rtcm3_decode_gal_eph_inav_bitstream
#define ENCODE rtcm3_encode_gal_eph_inav
#define CONS RTCM_CONSTELLATION_GAL
#define BITS 504
#endif
#define OCT ((BITS + 7) / 8)
static rtcm3_rc run(const uint8_t *b, uint32_t bits, rtcm_msg_eph *m) {
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, b, bits);
  return DECODE(&bs, m);
}
void h_dec(void) {
  VP_TAKE(IN);
  M = IN.m;
  rtcm3_rc rc = run(IN.b, OCT * 8, &M);
  cu_at(IN.b, 0);
  uint32_t num = (uint32_t)G(12);
  bool geo = MSG == 1042 && (IN.b[1] & 15) * 4 + (IN.b[2] >> 6) <= 5;
  VP_ASSERT(rc == (num != MSG ? RC_MESSAGE_TYPE_MISMATCH : geo ? RC_INVALID_MESSAGE : RC_OK), "messages of this type are accepted, others refused");
  VP_COVER(rc == RC_OK, "accepted");
  if (rc != RC_OK) return;
  VP_ASSERT(M.constellation == CONS, "constellation");
  encoding = false;
  body(&M);
#if MSG == 1020
  VP_ASSERT(cu_pos == BITS || cu_pos == 282, "layout length");
#else
  VP_ASSERT(cu_pos == BITS, "layout length");
  VP_ASSERT(MSG == 1042 || MSG == 1020 || MSG == 1044 || MSG == 1019 || M.fit_interval == 0, "no fit interval");
#endif
}
void h_trunc(void) {
  VP_TAKE(IN);
  IN.b[0] = MSG >> 4;
  IN.b[1] = (uint8_t)((MSG << 4) | (IN.b[1] & 15));
  /* 1020: beyond octet 36 lies only the optional part, and skipping past the
   * end there is the business of the bit stream library */
  for (uint32_t n = 0; n < (MSG == 1020 ? 36 : OCT); n++) {
#ifdef VP_STEP
    if (n + 6 < OCT && n % VP_STEP != 0) continue;
#endif
    rtcm3_rc rc = run(IN.b, n * 8, &M);
    VP_ASSERT(rc != RC_OK, "truncated message refused");
  }
  VP_COVER(IN.b[2] == 3, "reached");
}
#ifdef ENCODE
void h_enc(void) {
  VP_TAKE(IN);
#if MSG == 1019
  IN.m.K.L2_data_bit = IN.b[0] & 1;
#endif
#if MSG == 1020
  IN.m.L = IN.g; /* the verifier's trace shows one member of a union only */
#endif
  memcpy(OUT, IN.b, NB);
  uint16_t n = ENCODE(&IN.m, OUT);
  VP_ASSERT(n == OCT, "encoded length");
  cu_at(OUT, 0);
  VP_ASSERT(G(12) == MSG, "message number");
  encoding = true;
  body(&IN.m);
  VP_ASSERT(cu_pos == BITS, "layout length");
  for (uint32_t i = n; i < NB; i++) VP_ASSERT(OUT[i] == IN.b[i], "nothing written after the message");
  VP_COVER(OUT[7] == 3, "encoded");
}
#endif

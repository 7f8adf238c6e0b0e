/* R12/R03: state space representation messages. KIND 0 header (any number),
 * 1 orbit, 2 clock, 3 orbit and clock, 4 code bias, 5 phase bias */
#include "cursor.h"
#include "rtcm3/ssr_decode.h"
#include "rtcm3/msm_utils.h"
#include "rtcm3/constants.h"
#ifndef KIND
#define KIND 3
#define MSG 1060
#endif
#define NB 96
struct in { uint8_t b[NB]; };
VP_INPUT(struct in, IN);
extern enum rtcm3_rc_e decode_ssr_header(swiftnav_bitstream_t *buff, rtcm_msg_ssr_header *msg_header);

/* 0 GPS 1 GLO 2 GAL 3 QZS 4 BDS 5 SBAS, -1 none (table of the SSR standard) */
static int sys(uint32_t n) {
  if (n >= 1057 && n <= 1062) return 0;
  if (n >= 1063 && n <= 1068) return 1;
  if (n >= 1240 && n <= 1245) return 2;
  if (n >= 1246 && n <= 1251) return 3;
  if (n >= 1258 && n <= 1263) return 4;
  switch (n) { case 1265: return 0; case 1266: return 1; case 1267: return 2; case 1268: return 3; case 1269: return 5; case 1270: return 4; }
  return -1;
}
static const rtcm_constellation_t CONS[] = {RTCM_CONSTELLATION_GPS, RTCM_CONSTELLATION_GLO, RTCM_CONSTELLATION_GAL, RTCM_CONSTELLATION_QZS, RTCM_CONSTELLATION_BDS, RTCM_CONSTELLATION_SBAS};
static const uint8_t SATW[] = {6, 5, 6, 4, 6, 6};
static int kind(uint32_t n) { /* position within its group: 1 orbit .. 3 combined, 4 code, 5 phase */
  int s = sys(n);
  static const uint16_t base[] = {1057, 1063, 1240, 1246, 1258};
  if (n >= 1265) return 5;
  switch (n - base[s]) { case 0: return 1; case 1: return 2; case 2: return 4; case 3: return 3; }
  return 0;
}
static void head(const rtcm_msg_ssr_header *h, uint32_t num) {
  int s = sys(num), k = kind(num);
  VP_ASSERT(G(12) == h->message_num, "message number");
  VP_ASSERT(G(s == 1 ? 17 : 20) == h->epoch_time, "epoch time");
  VP_ASSERT(h->constellation == CONS[s], "constellation");
  VP_ASSERT(G(4) == h->update_interval, "update interval");
  VP_ASSERT(G(1) == h->multi_message, "multiple message");
  if (k == 1 || k == 3) VP_ASSERT(G(1) == h->sat_ref_datum, "reference datum");
  VP_ASSERT(G(4) == h->iod_ssr, "IOD SSR");
  VP_ASSERT(G(16) == h->ssr_provider_id, "provider");
  VP_ASSERT(G(4) == h->ssr_solution_id, "solution");
  if (k == 5) {
    VP_ASSERT(G(1) == h->dispersive_bias_consistency, "dispersive bias consistency");
    VP_ASSERT(G(1) == h->melbourne_wubbena_consistency, "Melbourne Wubbena consistency");
  }
  VP_ASSERT(G(6) == h->num_sats, "number of satellites");
}
#if KIND == 0
static rtcm_msg_ssr_header H;
#ifndef VP_LO
#define VP_LO 1057
#define VP_HI 1071
#endif
void h_hdr(void) {
  for (uint32_t num = VP_LO; num < VP_HI; num++) {
    VP_TAKE(IN);
    IN.b[0] = (uint8_t)(num >> 4);
    IN.b[1] = (uint8_t)((num << 4) | 6);
    swiftnav_bitstream_t bs;
    swiftnav_bitstream_init(&bs, IN.b, 80);
    rtcm3_rc rc = decode_ssr_header(&bs, &H);
    /* numbers without a constellation; MSM numbers have one but are no SSR messages */
    if (sys(num) < 0) {
      VP_ASSERT(rc != RC_OK, "no SSR message");
      continue;
    }
    VP_ASSERT(rc == RC_OK, "header accepted");
    cu_at(IN.b, 0);
    head(&H, num);
    VP_ASSERT(bs.offset == cu_pos, "header consumed");
  }
  VP_COVER(H.num_sats == 3 || VP_LO > 1270, "reached");
}
#else
#ifndef FILL
#define FILL 0xa6
#endif
/* octets holding structure-defining fields are fixed */
static uint8_t fixed_[NB];
static void put(uint32_t pos, uint32_t w, uint32_t v) {
  for (uint32_t i = 0; i < w; i++) {
    uint32_t p = pos + i;
    if (!fixed_[p / 8]) { fixed_[p / 8] = 1; IN.b[p / 8] = FILL; }
    IN.b[p / 8] = (uint8_t)((IN.b[p / 8] & ~(0x80u >> p % 8)) | (((v >> (w - 1 - i)) & 1u) ? 0x80u >> p % 8 : 0));
  }
}
#define S sys(MSG)
static uint32_t hlen(void) { return 12 + (S == 1 ? 17 : 20) + 5 + (KIND == 1 || KIND == 3) + 24 + 2 * (KIND == 5) + 6; }
#define NSAT 2
static uint32_t shape(const uint8_t *nb) {
  memset(fixed_, 0, NB);
  put(0, 12, MSG);
  uint32_t p = hlen();
  put(p - 6, 6, NSAT);
  for (int i = 0; i < NSAT; i++) {
    p += SATW[S];
    if (KIND == 1 || KIND == 3) p += (S == 2 ? 10 : S == 4 ? 18 : S == 5 ? 33 : 8) + 121;
    if (KIND == 2 || KIND == 3) p += 70;
    if (KIND == 4) { put(p, 5, nb[i]); p += 5 + 19 * nb[i]; }
    if (KIND == 5) { put(p, 5, nb[i]); p += 22 + 32 * nb[i]; }
  }
  return p;
}
#if KIND == 1
static rtcm_msg_orbit M;
#define DECODE rtcm3_decode_orbit_bitstream
#elif KIND == 2
static rtcm_msg_clock M;
#define DECODE rtcm3_decode_clock_bitstream
#elif KIND == 3
static rtcm_msg_orbit_clock M;
#define DECODE rtcm3_decode_orbit_clock_bitstream
#elif KIND == 4
static rtcm_msg_code_bias M;
#define DECODE rtcm3_decode_code_bias_bitstream
#else
static rtcm_msg_phase_bias M;
#define DECODE rtcm3_decode_phase_bias_bitstream
#endif
static rtcm3_rc run(uint32_t bits, uint32_t *used) {
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, IN.b, bits);
  rtcm3_rc rc = DECODE(&bs, &M);
  *used = bs.offset;
  return rc;
}
static const uint8_t SHAPES[][2] = {{1, 2}, {3, 0}, {0, 1}};
#if KIND < 4
#define NSH 1
#else
#define NSH 3
#endif
#define FU(w, f) VP_ASSERT((f) == G(w), #f)
#define FS(w, f) VP_ASSERT((f) == GS(w), #f)
void h_dec(void) {
  uint32_t used = 0;
  for (uint32_t k = 0; k < NSH; k++) {
    VP_TAKE(IN);
    uint32_t bits = shape(SHAPES[k]);
    rtcm3_rc rc = run(bits, &used);
    VP_ASSERT(rc == RC_OK, "complete message accepted");
    VP_ASSERT(used == bits, "the whole message is consumed");
    cu_at(IN.b, 0);
    head(&M.header, MSG);
    for (int i = 0; i < NSAT; i++) {
      uint32_t id = (uint32_t)G(SATW[S]);
#if KIND == 1 || KIND == 3
      const rtcm_msg_ssr_orbit_corr *o = &M.orbit[i];
      VP_ASSERT(o->sat_id == id, "satellite");
      if (S == 2) FU(10, o->iode);
      else if (S == 4) { G(10); FU(8, o->iode); }
      else if (S == 5) { FU(9, o->iode); FU(24, o->iodcrc); }
      else FU(8, o->iode);
      FS(22, o->radial); FS(20, o->along_track); FS(20, o->cross_track);
      FS(21, o->dot_radial); FS(19, o->dot_along_track); FS(19, o->dot_cross_track);
#endif
#if KIND == 2 || KIND == 3
      const rtcm_msg_ssr_clock_corr *c = &M.clock[i];
      VP_ASSERT(c->sat_id == id, "satellite");
      FS(22, c->c0); FS(21, c->c1); FS(27, c->c2);
#endif
#if KIND == 4
      VP_ASSERT(M.sats[i].sat_id == id, "satellite");
      FU(5, M.sats[i].num_code_biases);
      for (int j = 0; j < SHAPES[k][i]; j++) { FU(5, M.sats[i].signals[j].signal_id); FS(14, M.sats[i].signals[j].code_bias); }
#endif
#if KIND == 5
      VP_ASSERT(M.sats[i].sat_id == id, "satellite");
      FU(5, M.sats[i].num_phase_biases);
      FU(9, M.sats[i].yaw_angle);
      FS(8, M.sats[i].yaw_rate);
      for (int j = 0; j < SHAPES[k][i]; j++) {
        FU(5, M.sats[i].signals[j].signal_id); FU(1, M.sats[i].signals[j].integer_indicator); FU(2, M.sats[i].signals[j].widelane_indicator);
        FU(4, M.sats[i].signals[j].discontinuity_indicator); FS(20, M.sats[i].signals[j].phase_bias);
      }
#endif
    }
    VP_ASSERT(cu_pos == bits, "layout length");
  }
  VP_COVER(M.header.iod_ssr == 3, "decoded");
}
/* truncated messages and other kinds of message are refused */
void h_trunc(void) {
  VP_TAKE(IN);
  uint32_t bits = shape(SHAPES[0]), used;
  for (uint32_t n = 0; n < bits; n += n + 8 < bits ? 8 : bits - n == 1 ? 1 : bits - n - 1) {
    if (n > 24 && n + 56 < bits && n % 24 != 0) continue;
    VP_ASSERT(run(n, &used) != RC_OK, "truncated message refused");
  }
  static const uint16_t OTHER[] = {1057, 1058, 1059, 1060, 1061, 1064, 1066, 1242, 1265, 1269, 1074, 1005, 0};
  memset(fixed_, 0, NB);
  for (uint32_t k = 0; k < sizeof(OTHER) / 2; k++) {
    if (sys(OTHER[k]) >= 0 && kind(OTHER[k]) == KIND) continue;
    if (KIND == 3 && OTHER[k] == 1057) continue; /* the combined decoder does not tell orbit messages apart */
    put(0, 12, OTHER[k]);
    VP_ASSERT(run(bits, &used) != RC_OK, "other message refused");
  }
  VP_COVER(IN.b[2] == 3, "reached");
}
#endif

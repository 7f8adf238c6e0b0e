/* G05: MSM signal, satellite and message numbering; G06: accuracy and fit
 * interval indices; G07: GLONASS option biases. */
#include "vp.h"
#include <math.h>
#include <rtcm3/constants.h>
#include <rtcm3/msm_utils.h>
#include <swiftnav/constants.h>
#include <swiftnav/signal.h>
#include <gnss-converters/options.h>
#include "c/gnss_converters/src/rtcm3_utils.h"
int sid_to_string(char *s, int n, const gnss_signal_t sid) { (void)sid; (void)n; s[0] = 0; return 0; }
#ifndef C
#define C RTCM_CONSTELLATION_GPS
#endif
struct in { rtcm_msm_header h; uint8_t i, code, prn, fcn, known, u; uint16_t mt; uint16_t iodc; uint32_t fit; uint8_t map[NUM_SATS_GLO + 1]; float bc[2], bp[2], m; int ty; };
VP_INPUT(struct in, IN);

/* RTCM 10403.3 tables 3.5-91, 96, 99, 102, 105, 108: RINEX signal of each id;
 * 0 = reserved or without an SBP code. */
#define X CODE_INVALID
static const int8_t TAB[6][33] = {
 [RTCM_CONSTELLATION_GPS] = {X, X, CODE_GPS_L1CA, CODE_GPS_L1P, CODE_GPS_L1P, X, X, X, X, CODE_GPS_L2P, CODE_GPS_L2P, X, X, X, X, CODE_GPS_L2CM, CODE_GPS_L2CL, CODE_GPS_L2CX,
   X, X, X, X, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X, X, X, X, X, X, CODE_GPS_L1CI, CODE_GPS_L1CQ, CODE_GPS_L1CX},
 [RTCM_CONSTELLATION_GLO] = {X, X, CODE_GLO_L1OF, CODE_GLO_L1P, X, X, X, X, CODE_GLO_L2OF, CODE_GLO_L2P, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X},
 [RTCM_CONSTELLATION_GAL] = {X, X, CODE_GAL_E1C, X, CODE_GAL_E1B, CODE_GAL_E1X, X, X, CODE_GAL_E6C, X, CODE_GAL_E6B, CODE_GAL_E6X, X, X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, X,
   CODE_GAL_E8I, CODE_GAL_E8Q, CODE_GAL_E8X, X, CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X, X, X, X, X, X, X, X, X},
 [RTCM_CONSTELLATION_SBAS] = {X, X, CODE_SBAS_L1CA, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, X, CODE_SBAS_L5I, CODE_SBAS_L5Q, CODE_SBAS_L5X, X, X, X, X, X, X, X, X},
 [RTCM_CONSTELLATION_QZS] = {X, X, CODE_QZS_L1CA, X, X, X, X, X, X, X, X, X, X, X, X, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, X, X, X, X, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X,
   X, X, X, X, X, CODE_QZS_L1CI, CODE_QZS_L1CQ, CODE_QZS_L1CX},
 [RTCM_CONSTELLATION_BDS] = {X, X, CODE_BDS2_B1, X, X, X, X, X, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X, X, X, X, CODE_BDS2_B2, X, X, X, X, X, X, X, CODE_BDS3_B5I, CODE_BDS3_B5Q,
   CODE_BDS3_B5X, CODE_BDS3_B7I, X, X, X, X, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX},
};
static const uint16_t FIRST[6] = {[RTCM_CONSTELLATION_GPS] = 1, [RTCM_CONSTELLATION_SBAS] = 120, [RTCM_CONSTELLATION_GLO] = 1, [RTCM_CONSTELLATION_BDS] = 1, [RTCM_CONSTELLATION_QZS] = 193, [RTCM_CONSTELLATION_GAL] = 1};
static const uint16_t COUNT[6] = {[RTCM_CONSTELLATION_GPS] = NUM_SATS_GPS, [RTCM_CONSTELLATION_SBAS] = NUM_SATS_SBAS, [RTCM_CONSTELLATION_GLO] = NUM_SATS_GLO, [RTCM_CONSTELLATION_BDS] = NUM_SATS_BDS, [RTCM_CONSTELLATION_QZS] = NUM_SATS_QZS, [RTCM_CONSTELLATION_GAL] = NUM_SATS_GAL};
static const uint16_t BASE[6] = {[RTCM_CONSTELLATION_GPS] = 1070, [RTCM_CONSTELLATION_SBAS] = 1100, [RTCM_CONSTELLATION_GLO] = 1080, [RTCM_CONSTELLATION_BDS] = 1120, [RTCM_CONSTELLATION_QZS] = 1110, [RTCM_CONSTELLATION_GAL] = 1090};

static bool prn_ok(unsigned prn) { return prn >= FIRST[C] && prn < FIRST[C] + COUNT[C]; }
static unsigned rank(const bool *m, unsigned n, unsigned size) { unsigned r = 0; for (unsigned i = 0; i < size; i++) r += i < n && m[i]; return r; }
static unsigned tot(const bool *m, unsigned size) { return rank(m, size, size); }
/* position of the n-th (from 0) set bit, or size */
static unsigned nth(const bool *m, unsigned n, unsigned size) { unsigned r = 0, p = size; for (unsigned i = 0; i < size; i++) { if (m[i] && r == n && p == size) p = i; r += m[i]; } return p; }
static unsigned sig_id(int code) { unsigned p = 32; for (int i = 31; i >= 0; i--) if (TAB[C][i + 1] == code) p = (unsigned)i; return p; }
static void norm(void) {
  for (int i = 0; i < 64; i++) { IN.h.satellite_mask[i] = ((uint8_t *)IN.h.satellite_mask)[i] & 1; IN.h.cell_mask[i] = ((uint8_t *)IN.h.cell_mask)[i] & 1; }
  for (int i = 0; i < 32; i++) IN.h.signal_mask[i] = ((uint8_t *)IN.h.signal_mask)[i] & 1;
  IN.h.msg_num = BASE[C] + 4;
}
static double freq(int code, unsigned fcn) { /* signal carriers, Hz */
  switch (code) {
    case CODE_GPS_L1CA: case CODE_GPS_L1P: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX: case CODE_SBAS_L1CA: case CODE_QZS_L1CA: case CODE_QZS_L1CI: case CODE_QZS_L1CQ:
    case CODE_QZS_L1CX: case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ: case CODE_BDS3_B1CX: return 1575.42e6;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_GPS_L2P: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: return 1227.60e6;
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X:
    case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: case CODE_BDS3_B5I: case CODE_BDS3_B5Q: case CODE_BDS3_B5X: return 1176.45e6;
    case CODE_GAL_E6B: case CODE_GAL_E6C: case CODE_GAL_E6X: return 1278.75e6;
    case CODE_GAL_E7I: case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_BDS2_B2: case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X: return 1207.14e6;
    case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X: return 1191.795e6;
    case CODE_BDS2_B1: return 1561.098e6;
    case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X: return 1268.52e6;
    case CODE_GLO_L1OF: case CODE_GLO_L1P: for (unsigned k = 0; k <= 20; k++) if (fcn == k) return 1602e6 + ((int)k - 7) * 562.5e3; return 0;
    case CODE_GLO_L2OF: case CODE_GLO_L2P: for (unsigned k = 0; k <= 20; k++) if (fcn == k) return 1246e6 + ((int)k - 7) * 437.5e3; return 0;
  }
  return 0;
}
void h_sig(void) {
  VP_TAKE(IN);
  norm();
  unsigned n = IN.i;
  VP_ASSUME(n < tot(IN.h.signal_mask, 32));
  unsigned p = nth(IN.h.signal_mask, n, 32);
  int want = X;
  for (unsigned k = 0; k < 32; k++) if (p == k) want = TAB[C][k + 1];
  VP_ASSERT((int)msm_signal_to_code(&IN.h, (u8)n) == want, "code of the n-th signal of the mask");
  VP_COVER(n == 1 && want != X, "signal");
}
void h_freq(void) {
  VP_TAKE(IN);
  norm();
  for (unsigned k = 0; k < 32; k++) {
    for (unsigned j = 0; j < 32; j++) IN.h.signal_mask[j] = j == k;
    double f = -1;
    bool ok = msm_signal_frequency(&IN.h, 0, IN.fcn, &f);
    int c = TAB[C][k + 1];
    VP_ASSUME(C != RTCM_CONSTELLATION_GLO || IN.fcn <= 20 || IN.fcn == 255);
    VP_ASSERT(ok == (c != X && !(C == RTCM_CONSTELLATION_GLO && IN.fcn == 255)), "frequency known");
    if (ok) VP_ASSERT(f == freq(c, IN.fcn), "carrier frequency");
  }
  VP_COVER(1, "reached");
}
void h_id(void) {
  VP_TAKE(IN);
  norm();
  VP_ASSUME(IN.code < CODE_COUNT);
  unsigned id = sig_id(IN.code);
  VP_ASSERT(code_to_msm_signal_id((code_t)IN.code, C) == id, "signal id of a code");
  VP_ASSERT(code_to_msm_signal_index(&IN.h, (code_t)IN.code) == rank(IN.h.signal_mask, id, 32), "index of a code");
  VP_COVER(id < 32, "code with id");
  VP_COVER(id == 32, "code without id");
}
void h_sat(void) {
  VP_TAKE(IN);
  norm();
  unsigned n = IN.i;
  VP_ASSUME(n < tot(IN.h.satellite_mask, 64));
  unsigned p = nth(IN.h.satellite_mask, n, 64);
  unsigned want = p < 64 && prn_ok(FIRST[C] + p) ? FIRST[C] + p : 0;
  VP_ASSERT(msm_sat_to_prn(&IN.h, (u8)n) == want, "number of the n-th satellite of the mask");
  if (prn_ok(IN.prn)) {
    VP_ASSERT(prn_to_msm_sat_id(IN.prn, C) == IN.prn - FIRST[C], "satellite id");
    VP_ASSERT(prn_to_msm_sat_index(&IN.h, IN.prn) == rank(IN.h.satellite_mask, IN.prn - FIRST[C], 64), "satellite index");
  }
  VP_COVER(n == 2 && want == FIRST[C] + 5u, "satellite");
}
void h_nums(void) {
  VP_TAKE(IN);
  norm();
  VP_ASSERT(msm_get_num_satellites(&IN.h) == tot(IN.h.satellite_mask, 64), "number of satellites");
  VP_ASSERT(msm_get_num_signals(&IN.h) == tot(IN.h.signal_mask, 32), "number of signals");
  for (int t = 0; t <= 7; t++) {
    u16 m = to_msm_msg_num(C, (msm_enum)t);
    VP_ASSERT(m == (t ? BASE[C] + t : 0), "message number");
    if (t) VP_ASSERT(to_constellation(m) == C && (int)to_msm_type(m) == t, "message number means constellation and type");
  }
  VP_ASSERT(to_msm_msg_num(RTCM_CONSTELLATION_INVALID, MSM4) == 0 && to_msm_msg_num(RTCM_CONSTELLATION_COUNT, MSM4) == 0, "no constellation, no message");
  VP_COVER(1, "reached");
}
void h_fcn(void) {
  VP_TAKE(IN);
  norm();
  unsigned n = IN.i;
  VP_ASSUME(n < tot(IN.h.satellite_mask, 64));
  unsigned p = nth(IN.h.satellite_mask, n, 64);
  u8 out = 77;
  const bool mp = IN.known & 1;
  bool ok = msm_get_glo_fcn(&IN.h, (u8)n, IN.fcn, mp ? IN.map : NULL, &out);
#if defined(IS_GLO)
  unsigned want = IN.fcn;
  if (want == 255 && mp) { want = IN.map[0]; for (unsigned k = 0; k < NUM_SATS_GLO; k++) if (p == k) want = IN.map[k + 1]; }
  VP_ASSERT(ok == (want <= 13), "frequency channel known");
  if (ok) VP_ASSERT(out == want, "frequency channel");
  VP_COVER(ok && IN.fcn == 255, "from the map");
#else
  VP_ASSERT(!ok, "only GLONASS has channels");
  (void)p;
  VP_COVER(1, "reached");
#endif
}
static rtcm_msm_header O;
void h_addhdr(void) {
  VP_TAKE(IN);
  norm();
  for (int i = 0; i < 64; i++) IN.h.cell_mask[i] = false;
  unsigned ns = tot(IN.h.satellite_mask, 64), ng = tot(IN.h.signal_mask, 32);
  VP_ASSUME(ns * ng <= 64 && (IN.code < CODE_COUNT || IN.code == 255));
  O = IN.h;
  code_t code = IN.code == 255 ? CODE_INVALID : (code_t)IN.code;
  bool ok = msm_add_to_header(&IN.h, code, IN.prn);
  unsigned id = IN.code == 255 ? 32 : sig_id(IN.code), s = prn_ok(IN.prn) ? IN.prn - FIRST[C] : 64;
  bool have_s = false, have_g = false;
  for (unsigned i = 0; i < 64; i++) if (i == s) have_s = O.satellite_mask[i];
  for (unsigned i = 0; i < 32; i++) if (i == id) have_g = O.signal_mask[i];
  VP_ASSERT(ok == (id < 32 && s < 64 && (ns + !have_s) * (ng + !have_g) <= 64), "accepted exactly when it exists and fits");
  for (unsigned i = 0; i < 64; i++) {
    VP_ASSERT(i == s || IN.h.satellite_mask[i] == O.satellite_mask[i], "other satellites kept");
    VP_ASSERT(!(ok && i == s) || IN.h.satellite_mask[i], "satellite added");
    VP_ASSERT(!IN.h.cell_mask[i], "no cell added");
  }
  for (unsigned i = 0; i < 32; i++) VP_ASSERT(IN.h.signal_mask[i] == (O.signal_mask[i] || (ok && i == id)), "signal added, others kept");
  VP_ASSERT(tot(IN.h.satellite_mask, 64) * tot(IN.h.signal_mask, 32) <= 64, "at most 64 cells");
  VP_ASSERT(IN.h.msg_num == O.msg_num && IN.h.stn_id == O.stn_id && IN.h.tow_ms == O.tow_ms && IN.h.multiple == O.multiple, "header fields kept");
  VP_COVER(ok && !have_s && !have_g && ng == 3, "added");
  VP_COVER(!ok && id < 32 && s < 64, "full");
}
void h_addcell(void) {
  VP_TAKE(IN);
  norm();
  unsigned ns = tot(IN.h.satellite_mask, 64), ng = tot(IN.h.signal_mask, 32);
  VP_ASSUME(ng > 0 && ns * ng <= 64 && (IN.code < CODE_COUNT || IN.code == 255));
  code_t code = IN.code == 255 ? CODE_INVALID : (code_t)IN.code;
  unsigned id = IN.code == 255 ? 32 : sig_id(IN.code), s = prn_ok(IN.prn) ? IN.prn - FIRST[C] : 64;
  bool have_s = false, have_g = false;
  for (unsigned i = 0; i < 64; i++) if (i == s) have_s = IN.h.satellite_mask[i];
  for (unsigned i = 0; i < 32; i++) if (i == id) have_g = IN.h.signal_mask[i];
  unsigned cell = rank(IN.h.satellite_mask, s, 64) * ng + rank(IN.h.signal_mask, id, 32);
  for (unsigned i = 0; i < 64; i++) VP_ASSUME(i != cell || !(have_s && have_g) || !IN.h.cell_mask[i]);
  O = IN.h;
  bool ok = msm_add_to_cell_mask(&IN.h, code, IN.prn);
  VP_ASSERT(ok == (have_s && have_g), "accepted exactly when satellite and signal are in the masks");
  for (unsigned i = 0; i < 64; i++) {
    VP_ASSERT(IN.h.cell_mask[i] == (O.cell_mask[i] || (ok && i == cell)), "exactly this cell set");
    VP_ASSERT(IN.h.satellite_mask[i] == O.satellite_mask[i] && IN.h.signal_mask[i / 2] == O.signal_mask[i / 2], "masks kept");
  }
  VP_COVER(ok && cell == 7, "cell set");
}

/* IS-GPS-200 20.3.3.3.1.3, GLONASS ICD table 4.4, BDS ICD 5.2.4.x, Galileo ICD SISA */
static const float GPSM[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
static const float GLOM[16] = {1.0f, 2.0f, 2.5f, 4.0f, 5.0f, 7.0f, 10.0f, 12.0f, 14.0f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 6144.0f};
static const float BDSM[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 8192.0f};
float convert_glo_ft_to_meters(const uint8_t ft);
#ifdef VP_CPROVER
/* exact powers of two, as IEEE-754 arithmetic and every libm gives them */
float powf(float b, float e) {
  __CPROVER_assert(b == 2.0f, "VP: powers of two only");
  float r = 2.0f;
  for (int k = 1; k <= 13; k++, r *= 2.0f) if (e == (float)k) return r;
  __CPROVER_assert(0, "VP: integer exponents only");
  return r;
}
float log2f(float x) {
  float r = 2.0f;
  for (int k = 1; k <= 14; k++, r *= 2.0f) if (x == r) return (float)k;
  __CPROVER_assert(0, "VP: powers of two only");
  return 0;
}
#endif
void h_ura(void) {
  VP_TAKE(IN);
  for (int k = 0; k < 16; k++) {
    VP_ASSERT(convert_ura_to_uri((uint8_t)k) == GPSM[k], "GPS accuracy in metres");
    VP_ASSERT(convert_gps_uri_to_ura(GPSM[k]) == k, "GPS accuracy index");
    VP_ASSERT(convert_glo_uri_to_ura(GLOM[k]) == k, "GLONASS accuracy index");
    VP_ASSERT(convert_bds_uri_to_ura(BDSM[k]) == k, "BDS accuracy index");
  }
  if (IN.u > 15) VP_ASSERT(convert_ura_to_uri(IN.u) == -1.0f, "no accuracy");
  VP_COVER(1, "reached");
}
#ifdef WANT_EPH
void h_ft(void) {
  VP_TAKE(IN);
  for (int k = 0; k < 16; k++) VP_ASSERT(convert_glo_ft_to_meters((uint8_t)k) == GLOM[k], "GLONASS accuracy in metres");
  if (IN.u > 15) VP_ASSERT(convert_glo_ft_to_meters(IN.u) == -1.0f, "no accuracy");
  VP_COVER(1, "reached");
}
#endif
void h_sisa(void) {
  VP_TAKE(IN);
  for (int k = 0; k <= 125; k++) {
    int cm = k <= 50 ? k : k <= 75 ? 50 + 2 * (k - 50) : k <= 100 ? 100 + 4 * (k - 75) : 200 + 16 * (k - 100);
    float m = convert_sisa_to_meters((uint8_t)k);
    VP_ASSERT(fabs((double)m * 100 - cm) < 1e-3, "SISA in metres");
    VP_ASSERT(convert_meters_to_sisa(m) == k, "SISA index survives");
  }
  if (IN.u > 125) VP_ASSERT(convert_sisa_to_meters(IN.u) == -1.0f, "no prediction");
  VP_ASSERT(convert_meters_to_sisa(-1.0f) == 255, "no prediction available");
  VP_COVER(1, "reached");
}
void h_sisaany(void) { /* any distance: the nearest index */
  VP_TAKE(IN);
  VP_ASSUME(IN.m == IN.m);
  uint8_t k = convert_meters_to_sisa(IN.m);
  VP_ASSERT(!(IN.m < 0 || IN.m > 6.0f) || k == 255, "outside the range: none");
  if (IN.m >= 0 && IN.m <= 6.0f) {
    VP_ASSERT(k <= 125, "an index");
    VP_ASSERT((IN.m <= 0.5f) == (k <= 50) || k == 50, "step of the index");
    VP_ASSERT(!(IN.m <= 1.0f) || k <= 75, "step of the index");
    VP_ASSERT(!(IN.m <= 2.0f) || k <= 100, "step of the index");
    VP_ASSERT(!(IN.m > 0.5f) || k >= 50, "step of the index");
    VP_ASSERT(!(IN.m > 1.0f) || k >= 75, "step of the index");
    VP_ASSERT(!(IN.m > 2.0f) || k >= 100, "step of the index");
  }
  VP_COVER(k == 60, "reached");
}
void h_fit(void) {
  VP_TAKE(IN);
  VP_ASSUME(IN.iodc < 1024);
  unsigned i = IN.iodc, hours = 4;
  if (IN.known & 1) /* IS-GPS-200 table 20-XII */
    hours = i >= 240 && i <= 247 ? 8 : (i >= 248 && i <= 255) || i == 496 ? 14 : (i >= 497 && i <= 503) || (i >= 1021 && i <= 1023) ? 26 : i >= 504 && i <= 510 ? 50 : i == 511 || (i >= 752 && i <= 756) ? 74 : i == 757 ? 98 : 6;
  u32 f = rtcm3_decode_fit_interval_gps(IN.known & 1, (u16)i);
  VP_ASSERT(f == hours * 3600, "curve fit interval");
  VP_ASSERT(rtcm3_encode_fit_interval_gps(f) == (IN.known & 1), "fit interval flag survives");
  VP_ASSERT(rtcm3_encode_fit_interval_gps(IN.fit) == (IN.fit != 14400), "fit interval flag");
  u8 p1 = rtcm3_encode_fit_interval_glo(IN.fit);
  VP_ASSERT(p1 == (IN.fit / 60 == 40 ? 1 : IN.fit / 60 == 55 ? 2 : 0), "GLONASS P1");
  VP_COVER(hours == 74, "reached");
}
#ifdef WANT_EPH
u32 rtcm3_decode_fit_interval_glo(const u8 p1);
void h_gfit(void) {
  VP_TAKE(IN);
  u32 m = IN.u == 1 ? 40 : IN.u == 2 ? 55 : 70;
  VP_ASSERT(rtcm3_decode_fit_interval_glo(IN.u) == m * 60, "GLONASS interval: P1 plus ten minutes");
  if (IN.u <= 2) VP_ASSERT(rtcm3_encode_fit_interval_glo(m * 60) == IN.u, "P1 survives");
  VP_COVER(IN.u == 2, "reached");
}
#endif
#ifdef WANT_BIAS
void h_bias(void) {
  VP_TAKE(IN);
  norm();
  for (int i = 0; i < 2; i++) { sbp_glo_code_bias[i] = IN.bc[i]; sbp_glo_phase_bias[i] = IN.bp[i]; }
  VP_ASSUME(IN.fcn <= 20 || IN.fcn == 255);
  double c = 1, p = 1;
  for (unsigned k = 0; k < 32; k++) {
    for (unsigned j = 0; j < 32; j++) IN.h.signal_mask[j] = j == k;
    msm_glo_fcn_bias(&IN.h, 0, IN.fcn, &c, &p);
    int b = k == 1 || k == 2 ? 0 : k == 7 || k == 8 ? 1 : -1;
    if (C == RTCM_CONSTELLATION_GLO && b >= 0 && IN.fcn != 255) {
      float wc = ((int)IN.fcn - 7) * IN.bc[b], wp = ((int)IN.fcn - 7) * IN.bp[b];
      VP_ASSERT(c == wc || wc != wc, "code bias is linear in the channel");
      VP_ASSERT(p == wp || wp != wp, "phase bias is linear in the channel");
    } else
      VP_ASSERT(c == 0.0 && p == 0.0, "no bias");
  }
  VP_COVER(1, "reached");
}
#endif

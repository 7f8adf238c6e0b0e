/* R09/R10/R03: multi signal messages, decoding (MSM4-7) and encoding (MSM4-5).
 * The sources are included so that the static functions can be entered. */
#include "cursor.h"
#include <math.h>
#ifdef VP_ENC
#include "encode.c"
#else
#include "decode.c"
#endif
#ifndef MSG
#define MSG 1074
#endif
#define TYPE (MSG % 10)
#define GLO (MSG / 10 == 108)
#define BDS (MSG / 10 == 112)
#define WIDE (TYPE >= 6)     /* extended resolution */
#define RATE (TYPE == 5 || TYPE == 7)
#ifndef NS
#define NS 3
#define NG 2
#define CELLS 0x27
#endif
#define NC (NS * NG)
#ifndef FILL
#define FILL 0xa5
#endif
static const uint8_t SATPOS[] = {0, 5, 31, 32, 40, 62, 63};
static const uint8_t SIGPOS[] = {1, 2, 8, 14, 21, 30, 31};
static uint32_t bit_at(uint32_t i) { return (CELLS >> (NC - 1 - i)) & 1u; }
#define P0 (169 + NC)
#define SATB (18 + (RATE ? 18 : 0))
#define SIGB (WIDE ? 20 + 24 + 10 + 1 + 10 + (RATE ? 15 : 0) : 15 + 22 + 4 + 1 + 6 + (RATE ? 15 : 0))
#define NB (P0 / 8 + (NS * SATB + NC * SIGB) / 8 + 12)
struct in { uint8_t b[NB]; rtcm_msm_message m; };
VP_INPUT(struct in, IN);
static rtcm_msm_message M;

/* header fields up to the masks, at the cursor */
static void head(const rtcm_msm_header *h, bool enc) {
#define HF(w, f) VP_ASSERT(G(w) == (h->f & ((1u << (w)) - 1)) && (enc || h->f < (1u << (w))), #f)
  VP_ASSERT(G(12) == (h->msg_num & 0xfff), "message number");
  HF(12, stn_id);
#if GLO
  uint32_t day = (uint32_t)G(3), tod = (uint32_t)G(27);
  if (enc)
    VP_ASSERT(day == h->tow_ms / 86400000u && tod == h->tow_ms % 86400000u, "day of week and time of day");
  else
    VP_ASSERT(h->tow_ms == tod, "time of day");
#elif BDS
  uint32_t t = (uint32_t)G(30);
  if (enc)
    VP_ASSERT(t == (h->tow_ms & 0x3fffffff), "time of week");
  else /* up to 14 s before the start of the week are coded as negative */
    VP_ASSERT(h->tow_ms == (t >= 0x40000000u - 14000u ? 604800000u - (0x40000000u - t) : t), "time of week");
#else
  VP_ASSERT((uint32_t)G(30) == (h->tow_ms & 0x3fffffff) && (enc || h->tow_ms < 0x40000000u), "time of week");
#endif
  HF(1, multiple); HF(3, iods); HF(7, reserved); HF(2, steering); HF(2, ext_clock); HF(1, div_free); HF(3, smooth);
}
static bool tow_ok(uint32_t tow) { return tow < (GLO ? 86400000u : 604800000u); }
static void set_masks(uint8_t *p) {
  for (uint32_t i = 9; i <= (P0 - 1) / 8; i++) p[i] = i == 9 ? FILL & 0x80 : i == (P0 - 1) / 8 ? FILL & (0xff >> ((P0 - 1) % 8 + 1)) : 0;
  for (uint32_t k = 0; k < NS; k++) p[(73 + SATPOS[k]) / 8] |= (uint8_t)(0x80 >> (73 + SATPOS[k]) % 8);
  for (uint32_t k = 0; k < NG; k++) p[(137 + SIGPOS[k]) / 8] |= (uint8_t)(0x80 >> (137 + SIGPOS[k]) % 8);
  for (uint32_t k = 0; k < NC; k++) if (bit_at(k)) p[(169 + k) / 8] |= (uint8_t)(0x80 >> (169 + k) % 8);
}
static uint32_t cells(void) { uint32_t n = 0; for (uint32_t i = 0; i < NC; i++) n += bit_at(i); return n; }
static uint64_t at(uint32_t pos, uint32_t n) { cu_pos = pos; return G(n); }
static int64_t sat(uint32_t pos, uint32_t n) { cu_pos = pos; return GS(n); }

#ifndef VP_ENC
/* arbitrary header and masks; the cells follow from the masks */
void h_hdr(void) {
  VP_TAKE(IN);
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, IN.b, 8 * NB);
  bs.offset = 12;
  static struct { rtcm_msm_header h; uint8_t guard[8]; } B;
  memset(B.guard, 0x5a, 8);
  rtcm3_rc rc = rtcm3_read_msm_header(&bs, to_constellation(MSG), &B.h);
  B.h.msg_num = MSG;
  uint32_t ns = 0, ng = 0;
  for (uint32_t i = 0; i < 8; i++) VP_ASSERT(B.guard[i] == 0x5a, "nothing written after the header");
  cu_at(IN.b, 73);
  for (uint32_t i = 0; i < 64; i++) ns += (uint32_t)G(1);
  for (uint32_t i = 0; i < 32; i++) ng += (uint32_t)G(1);
  VP_ASSERT(rc == (ns * ng > 64 || ns > 32 ? RC_INVALID_MESSAGE : RC_OK), "masks beyond 64 cells or 32 satellites are refused");
  VP_COVER(rc == RC_OK && ns * ng == 64, "full cell mask");
  if (rc != RC_OK) return;
  VP_ASSERT(bs.offset == 169 + ns * ng, "header consumed");
  IN.b[0] = MSG >> 4;
  IN.b[1] = (uint8_t)((MSG << 4) | (IN.b[1] & 15));
  cu_at(IN.b, 0);
  head(&B.h, false);
  for (uint32_t i = 0; i < 64; i++) VP_ASSERT(B.h.satellite_mask[i] == at(73 + i, 1), "satellite mask");
  for (uint32_t i = 0; i < 32; i++) VP_ASSERT(B.h.signal_mask[i] == at(137 + i, 1), "signal mask");
  for (uint32_t i = 0; i < 64; i++) if (i < ns * ng) VP_ASSERT(B.h.cell_mask[i] == at(169 + i, 1), "cell mask");
}
#define DECODE_(t) rtcm3_decode_msm##t##_bitstream
#define DECODE__(t) DECODE_(t)
static rtcm3_rc run(uint32_t len) {
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, IN.b, len);
#if TYPE == 4
  return rtcm3_decode_msm4_bitstream(&bs, &M);
#elif TYPE == 5
  return rtcm3_decode_msm5_bitstream(&bs, &M);
#elif TYPE == 6
  return rtcm3_decode_msm6_bitstream(&bs, &M);
#else
  return rtcm3_decode_msm7_bitstream(&bs, &M);
#endif
}
static uint32_t lock407(uint32_t i) { /* RTCM 10403.3 table 3.5-75, ms */
  if (i < 64) return i;
  if (i >= 704) return 67108864;
  uint32_t k = (i - 64) / 32 + 1;
  return (1u << k) * (i - 32 * k);
}
/* any message of another number is refused */
void h_type(void) {
  VP_TAKE(IN);
  set_masks(IN.b);
  cu_at(IN.b, 0);
  VP_ASSUME((uint32_t)G(12) != MSG);
  uint32_t n = (uint32_t)at(0, 12);
  VP_ASSUME(!(n > 1070 && n < 1128 && n % 10 == TYPE)); /* same type, other constellation */
  VP_ASSERT(run(8 * NB) == RC_MESSAGE_TYPE_MISMATCH, "other message type refused");
  VP_COVER(n == 1005, "reached");
}
void h_dec(void) {
  VP_TAKE(IN);
  set_masks(IN.b);
  IN.b[0] = MSG >> 4;
  IN.b[1] = (uint8_t)((MSG << 4) | 9);
  uint32_t n = cells();
  rtcm3_rc rc = run(P0 + NS * SATB + n * SIGB);
  cu_at(IN.b, 0);
  uint32_t tow = (uint32_t)at(24, 30);
  if (GLO) tow = (uint32_t)at(27, 27);
  if (BDS && tow >= 0x40000000u - 14000u) tow = 0;
  VP_ASSERT(rc == (tow_ok(tow) ? RC_OK : RC_INVALID_MESSAGE), "complete messages are accepted unless the time of week is out of range");
  VP_COVER(rc == RC_OK, "accepted");
  if (rc != RC_OK) return;
  cu_pos = 0;
  head(&M.header, false);
  for (uint32_t i = 0; i < 64; i++) VP_ASSERT(M.header.satellite_mask[i] == at(73 + i, 1), "satellite mask");
  for (uint32_t i = 0; i < 32; i++) VP_ASSERT(M.header.signal_mask[i] == at(137 + i, 1), "signal mask");
  for (uint32_t i = 0; i < NC; i++) VP_ASSERT(M.header.cell_mask[i] == bit_at(i), "cell mask");
  uint32_t pinfo = P0 + 8 * NS, pmod = pinfo + (RATE ? 4 * NS : 0), prate = pmod + 10 * NS, ppr = prate + (RATE ? 14 * NS : 0);
  uint32_t wpr = WIDE ? 20 : 15, wcp = WIDE ? 24 : 22, wlk = WIDE ? 10 : 4, wcn = WIDE ? 10 : 6;
  uint32_t pcp = ppr + n * wpr, plk = pcp + n * wcp, phc = plk + n * wlk, pcn = phc + n, pdop = pcn + n * wcn;
  uint32_t c = 0;
  for (uint32_t s = 0; s < NS; s++) {
    uint32_t ms = (uint32_t)at(P0 + 8 * s, 8), mod = (uint32_t)at(pmod + 10 * s, 10);
    int32_t rr = RATE ? (int32_t)sat(prate + 14 * s, 14) : -8192;
    double rough = ms;
    if (ms != 255) rough = rough + (double)mod / 1024;
    VP_ASSERT(deq(M.sats[s].rough_range_ms, rough), "rough range");
    VP_ASSERT(M.sats[s].glo_fcn == (RATE ? at(pinfo + 4 * s, 4) : GLO ? 255 : 0), "satellite info");
    VP_ASSERT(deq(M.sats[s].rough_range_rate_m_s, RATE ? (double)rr : 0.0), "rough range rate");
    for (uint32_t g = 0; g < NG; g++) {
      if (!bit_at(s * NG + g)) continue;
      const rtcm_msm_signal_data *d = &M.signals[c];
      int32_t pr = (int32_t)sat(ppr + wpr * c, wpr), cp = (int32_t)sat(pcp + wcp * c, wcp);
      uint32_t lk = (uint32_t)at(plk + wlk * c, wlk), cn = (uint32_t)at(pcn + wcn * c, wcn);
      bool vpr = ms != 255 && pr != (WIDE ? -524288 : -16384), vcp = ms != 255 && cp != (WIDE ? -8388608 : -2097152);
      VP_ASSERT(d->flags.fields.valid_pr == vpr, "pseudorange flag");
      VP_ASSERT(d->flags.fields.valid_cp == vcp, "carrier phase flag");
      VP_ASSERT(d->flags.fields.valid_lock == 1, "lock flag");
      VP_ASSERT(d->flags.fields.valid_cnr == (cn != 0), "C/N0 flag");
      if (vpr) VP_ASSERT(deq(d->pseudorange_ms, rough + (double)pr * (WIDE ? 0x1p-29 : 0x1p-24)), "pseudorange");
      else VP_ASSERT(deq(d->pseudorange_ms, 0.0), "no pseudorange");
      if (vcp) VP_ASSERT(deq(d->carrier_phase_ms, rough + (double)cp * (WIDE ? 0x1p-31 : 0x1p-29)), "carrier phase");
      else VP_ASSERT(deq(d->carrier_phase_ms, 0.0), "no carrier phase");
      uint32_t t = WIDE ? lock407(lk) : lk ? 16u << lk : 0;
#if WIDE
      VP_ASSERT(deq(d->lock_time_s, (double)t / 1000), "lock time");
#else
      if (lk) VP_ASSERT(deq(d->lock_time_s, (double)t / 1000), "lock time");
      else VP_ASSERT(deq(d->lock_time_s, 0.0), "lock time");
#endif
      VP_ASSERT(d->hca_indicator == at(phc + c, 1), "half cycle ambiguity");
#if WIDE
      if (cn) VP_ASSERT(deq(d->cnr, (double)cn * 0.0625), "C/N0");
#else
      if (cn) VP_ASSERT(deq(d->cnr, (double)cn), "C/N0");
#endif
      else VP_ASSERT(deq(d->cnr, 0.0), "no C/N0");
#if RATE
      int32_t dop = (int32_t)sat(pdop + 15 * c, 15);
      bool vd = rr != -8192 && dop != -16384;
      VP_ASSERT(d->flags.fields.valid_dop == vd, "range rate flag");
      if (vd) VP_ASSERT(deq(d->range_rate_m_s, (double)rr + (double)dop * 0.0001), "range rate");
      else VP_ASSERT(deq(d->range_rate_m_s, 0.0), "no range rate");
#else
      VP_ASSERT(d->flags.fields.valid_dop == 0 && deq(d->range_rate_m_s, 0.0), "no range rate");
#endif
      c++;
    }
  }
}
void h_trunc(void) {
  VP_TAKE(IN);
  set_masks(IN.b);
  IN.b[0] = MSG >> 4;
  IN.b[1] = (uint8_t)((MSG << 4) | 9);
  uint32_t bits = P0 + NS * SATB + cells() * SIGB;
  /* within the header, the masks, the satellite part, each signal column */
  const uint32_t lens[] = {8, 56, 136, P0 / 8 * 8, P0 + NS * SATB - 1, bits - SIGB, bits - 8, bits - 1};
  for (uint32_t k = 0; k < sizeof(lens) / sizeof(lens[0]); k++) VP_ASSERT(run(lens[k]) != RC_OK, "truncated message refused");
  VP_COVER(IN.b[2] == 3, "reached");
}
#else
static uint8_t OUT[NB];
static const double LIM[15] = {0.032, 0.064, 0.128, 0.256, 0.512, 1.024, 2.048, 4.096, 8.192, 16.384, 32.768, 65.536, 131.072, 262.144, 524.288};
void h_enc(void) {
  VP_TAKE(IN);
  rtcm_msm_message *m = &IN.m;
  rtcm_msm_header *h = &m->header;
  h->msg_num = MSG;
  memset(h->satellite_mask, 0, 64);
  memset(h->signal_mask, 0, 32);
  memset(h->cell_mask, 0, 64);
  for (uint32_t k = 0; k < NS; k++) h->satellite_mask[SATPOS[k]] = true;
  for (uint32_t k = 0; k < NG; k++) h->signal_mask[SIGPOS[k]] = true;
  for (uint32_t k = 0; k < NC; k++) h->cell_mask[k] = bit_at(k);
  for (uint32_t k = 0; k < 64; k++) m->signals[k].hca_indicator = (IN.b[0] >> k % 8) & 1;
  VP_ASSUME(h->tow_ms < 604800000u);
  /* what the fields can express */
  for (uint32_t s = 0; s < NS; s++) {
    VP_ASSUME(m->sats[s].rough_range_ms >= 0 && m->sats[s].rough_range_ms < 255);
    VP_ASSUME(m->sats[s].rough_range_rate_m_s > -8192 && m->sats[s].rough_range_rate_m_s < 8192);
  }
  uint32_t n = cells();
  for (uint32_t c = 0; c < n; c++) VP_ASSUME(m->signals[c].lock_time_s >= 0);
  for (uint32_t c = 0; c < n; c++) VP_ASSUME(!m->signals[c].flags.fields.valid_cnr || (m->signals[c].cnr >= 0 && m->signals[c].cnr < 63.5));
  memcpy(OUT, IN.b, NB);
  uint32_t bits = P0 + NS * SATB + n * SIGB;
#if TYPE == 4
  uint16_t len = rtcm3_encode_msm4(m, OUT);
#else
  uint16_t len = rtcm3_encode_msm5(m, OUT);
#endif
  VP_ASSERT(len == (bits + 7) / 8, "encoded length");
  for (uint32_t i = len; i < NB; i++) VP_ASSERT(OUT[i] == IN.b[i], "nothing written after the message");
  cu_at(OUT, 0);
  head(h, true);
  for (uint32_t i = 0; i < 64; i++) VP_ASSERT(at(73 + i, 1) == h->satellite_mask[i], "satellite mask");
  for (uint32_t i = 0; i < 32; i++) VP_ASSERT(at(137 + i, 1) == h->signal_mask[i], "signal mask");
  for (uint32_t i = 0; i < NC; i++) VP_ASSERT(at(169 + i, 1) == bit_at(i), "cell mask");
  uint32_t pinfo = P0 + 8 * NS, pmod = pinfo + (RATE ? 4 * NS : 0), prate = pmod + 10 * NS, ppr = prate + (RATE ? 14 * NS : 0);
  uint32_t pcp = ppr + n * 15, plk = pcp + n * 22, phc = plk + n * 4, pcn = phc + n, pdop = pcn + n * 6;
  uint32_t c = 0;
  for (uint32_t s = 0; s < NS; s++) {
    double pr = m->sats[s].rough_range_ms;
    uint32_t ms = (uint32_t)at(P0 + 8 * s, 8), mod = (uint32_t)at(pmod + 10 * s, 10);
    /* see h_rough for what these two fields are */
    double rough = ms + (double)mod / 1024;
    (void)pr;
#if RATE
    int16_t rr = (int16_t)m->sats[s].rough_range_rate_m_s;
    VP_ASSERT(at(pinfo + 4 * s, 4) == (m->sats[s].glo_fcn & 15), "satellite info");
    VP_ASSERT((at(prate + 14 * s, 14)) == ((uint16_t)rr & 0x3fff), "rough range rate");
#endif
    for (uint32_t g = 0; g < NG; g++) {
      if (!bit_at(s * NG + g)) continue;
      const rtcm_msm_signal_data *d = &m->signals[c];
      double fpr = d->pseudorange_ms - rough, fcp = d->carrier_phase_ms - rough;
      uint32_t want;
      if (d->flags.fields.valid_pr && fpr < 0x1p-10 && fpr > -0x1p-10) want = (uint16_t)(int16_t)round(fpr / 0x1p-24);
      else want = 0x4000;
      VP_ASSERT(at(ppr + 15 * c, 15) == (want & 0x7fff), "fine pseudorange");
      if (d->flags.fields.valid_cp && fcp < 0x1p-8 && fcp > -0x1p-8) want = (uint32_t)(int32_t)round(fcp / 0x1p-29);
      else want = 0x200000;
      VP_ASSERT(at(pcp + 22 * c, 22) == (want & 0x3fffff), "fine carrier phase");
      uint32_t lk = 0;
      if (d->flags.fields.valid_lock)
        for (uint32_t k = 0; k < 15; k++) lk += d->lock_time_s >= LIM[k];
      VP_ASSERT(at(plk + 4 * c, 4) == lk, "lock time indicator");
      VP_ASSERT(at(phc + c, 1) == d->hca_indicator, "half cycle ambiguity");
      want = d->flags.fields.valid_cnr ? (uint8_t)round(d->cnr) : 0;
      VP_ASSERT(at(pcn + 6 * c, 6) == (want & 63), "C/N0");
#if RATE
      double fr = d->range_rate_m_s - (double)rr;
      if (d->flags.fields.valid_dop && fr < 0.0001 * 16384 && fr > -0.0001 * 16384) want = (uint16_t)(int16_t)round(fr / 0.0001);
      else want = 0x4000;
      VP_ASSERT(at(pdop + 15 * c, 15) == (want & 0x7fff), "fine range rate");
#endif
      c++;
    }
  }
  VP_COVER(OUT[3] == 3, "encoded");
}
/* rough range: the two fields together are the range in 1/1024 ms, rounded */
void h_rough(void) {
  VP_TAKE(IN);
  static rtcm_msm_message m;
  double r = IN.m.sats[0].rough_range_ms, rr[1], rate[1];
  VP_ASSUME(r >= 0 && r < 254.5);
  m.sats[0].rough_range_ms = r;
  uint8_t out[8] = {0};
  uint16_t bit = 0;
  encode_msm_sat_data(&m, 1, MSM4, rr, rate, out, &bit);
  VP_ASSERT(bit == 18, "18 bits");
  cu_at(out, 0);
  uint32_t ms = (uint32_t)G(8), mod = (uint32_t)G(10);
  double v = ms + mod / 1024.0;
  VP_ASSERT(rr[0] == v, "the fine parts are relative to the rough range sent");
  VP_ASSERT(v - r <= 0x1p-11 && r - v <= 0x1p-11, "rough range within half a unit");
  VP_COVER(mod == 1, "reached");
}
#endif

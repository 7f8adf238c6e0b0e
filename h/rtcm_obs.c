/* R04: legacy observation messages 1001-1004, 1010, 1012: decoding. */
#include "cursor.h"
#include "rtcm3/decode.h"
#include "rtcm3/constants.h"
#ifndef MSG
#define MSG 1002
#endif
#ifndef NSAT
#define NSAT 1
#endif
#define GLO (MSG >= 1010)
#define EXT (MSG == 1002 || MSG == 1004 || GLO)
#define DUAL (MSG == 1003 || MSG == 1004 || MSG == 1012)
#define HDR (GLO ? 61 : 64)
#define L1BITS (GLO ? (6 + 1 + 5 + 25 + 20 + 7 + 7 + 8) : (6 + 1 + 24 + 20 + 7 + (EXT ? 16 : 0)))
#define L2BITS (2 + 14 + 20 + 7 + (EXT ? 8 : 0))
#define SATBITS (L1BITS + (DUAL ? L2BITS : 0))
#define BITS (HDR + NSAT * SATBITS)
#define NB ((BITS + 7) / 8)
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define DECODE CAT(rtcm3_decode_, MSG, _bitstream)
struct in { uint8_t b[NB]; uint16_t len; };
VP_INPUT(struct in, IN);

/* RTCM 10403.3 table 3.4-2: lock time indicator -> minimum lock time in s */
static uint32_t lock_s(uint32_t i) {
  return i < 24 ? i : i < 48 ? 2 * i - 24 : i < 72 ? 4 * i - 120 : i < 96 ? 8 * i - 408 : i < 120 ? 16 * i - 1176 : i < 127 ? 32 * i - 3096 : 937;
}
static void check_cnr(const rtcm_freq_data *o) {
  uint32_t c = (uint32_t)G(8);
  VP_ASSERT(o->flags.fields.valid_cnr == (c != 0), "C/N0 valid unless 0");
  if (c) VP_ASSERT(deq(o->cnr, c * 0.25), "C/N0 in 0.25 dB-Hz");
}
static rtcm_obs_message M;
void h_obs(void) {
  VP_TAKE(IN);
#if NSAT > 0
  /* this many satellites are announced; these two octets are fixed, the
   * header unit (NSAT 0) has them arbitrary */
  if (GLO) { IN.b[6] = 0xA0 | (NSAT >> 1); IN.b[7] = (uint8_t)((NSAT & 1) << 7) | 0x35; }
  else { IN.b[6] = 0xA6 | (NSAT >> 4); IN.b[7] = (uint8_t)(NSAT << 4) | 0xB; }
  IN.len = BITS;
#else
  IN.len = HDR;
#endif
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, IN.b, IN.len);
  rtcm3_rc rc = DECODE(&bs, &M);
  cu_at(IN.b, 0);
  uint32_t num = (uint32_t)G(12), stn = (uint32_t)G(12), tow = (uint32_t)G(GLO ? 27 : 30), sync = (uint32_t)G(1), ns = (uint32_t)G(5),
           df = (uint32_t)G(1), sm = (uint32_t)G(3);
  bool tow_ok = GLO ? tow < 86400000u : tow < 604800000u;
  if (IN.len < HDR) {
    VP_ASSERT(rc != RC_OK, "truncated header refused");
    return;
  }
  if (num != MSG) {
    VP_ASSERT(rc == RC_MESSAGE_TYPE_MISMATCH, "other message type refused");
    return;
  }
  VP_ASSERT((rc == RC_OK) == (tow_ok && IN.len == BITS && ns == NSAT), "accepted exactly when complete and the epoch time is in range");
  VP_COVER(rc == RC_OK, "accepted");
  if (rc != RC_OK) return;
  VP_ASSERT(bs.offset == BITS, "consumes the whole message");
  const rtcm_obs_header *h = &M.header;
  VP_ASSERT(h->msg_num == num && h->stn_id == stn && h->tow_ms == tow && h->sync == sync && h->n_sat == ns && h->div_free == df && h->smooth == sm, "header fields");
  for (int i = 0; i < NSAT; i++) {
    const rtcm_sat_data *s = &M.sats[i];
    const rtcm_freq_data *o = &s->obs[L1_FREQ];
    uint32_t sv = (uint32_t)G(6), code = (uint32_t)G(1), fcn = GLO ? (uint32_t)G(5) : 0;
    uint32_t pr = (uint32_t)G(GLO ? 25 : 24);
    int32_t cp = (int32_t)GS(20);
    uint32_t lk = (uint32_t)G(7), amb = EXT ? (uint32_t)G(GLO ? 7 : 8) : 0;
    VP_ASSERT(s->svId == sv && o->code == code, "satellite and code");
    if (GLO) VP_ASSERT(s->fcn == fcn, "frequency channel");
    VP_ASSERT(o->lock == (double)lock_s(lk), "lock time");
    VP_ASSERT(o->flags.fields.valid_pr == (pr != 0x80000), "pseudorange validity");
    VP_ASSERT(o->flags.fields.valid_cp == (cp != -524288 && (!GLO || fcn <= 20)), "carrier phase validity");
    VP_ASSERT(o->flags.fields.valid_lock == o->flags.fields.valid_cp, "lock validity");
    VP_ASSERT(o->flags.fields.valid_dop == 0, "no Doppler");
    if (EXT) check_cnr(o); else VP_ASSERT(o->flags.fields.valid_cnr == 0, "no C/N0");
    double f1 = GLO ? 1.602e9 + ((int)fcn - 7) * 5.625e5 : 1.57542e9;
    double P = EXT ? 0.02 * (int32_t)pr + amb * (GLO ? 599584.916 : 299792.458) : 0.02 * (int32_t)pr + 0;
#ifndef NOFP
    VP_ASSERT(deq(o->pseudorange, P), "pseudorange: 0.02 m units plus the ambiguity");
    if (o->flags.fields.valid_cp) VP_ASSERT(deq(o->carrier_phase, (o->pseudorange + 0.0005 * cp) / (299792458.0 / f1)), "phase: 0.5 mm units relative to the pseudorange, in cycles");
#endif
    if (DUAL) {
      const rtcm_freq_data *q = &s->obs[L2_FREQ];
      uint32_t code2 = (uint32_t)G(2);
      int32_t dp = (int32_t)GS(14), cp2 = (int32_t)GS(20);
      uint32_t lk2 = (uint32_t)G(7);
      VP_ASSERT(q->code == code2 && q->lock == (double)lock_s(lk2), "L2 code and lock time");
      VP_ASSERT(q->flags.fields.valid_pr == (dp != -8192), "L2 pseudorange validity");
      VP_ASSERT(q->flags.fields.valid_cp == (cp2 != -524288), "L2 carrier phase validity");
      VP_ASSERT(q->flags.fields.valid_lock == q->flags.fields.valid_cp && q->flags.fields.valid_dop == 0, "L2 lock validity");
      if (EXT) check_cnr(q); else VP_ASSERT(q->flags.fields.valid_cnr == 0, "no L2 C/N0");
#ifndef NOFP
      double f2 = GLO ? 1.246e9 + ((int)fcn - 7) * 4.375e5 : 1.22760e9;
      VP_ASSERT(deq(q->pseudorange, 0.02 * dp + o->pseudorange), "L2 pseudorange relative to L1");
      if (q->flags.fields.valid_cp) VP_ASSERT(deq(q->carrier_phase, (o->pseudorange + 0.0005 * cp2) / (299792458.0 / f2)), "L2 phase");
#endif
    }
  }
}

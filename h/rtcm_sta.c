/* R06/R03: station messages 1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062:
 * layout of the decoders and encoders, truncation, type mismatch. */
#include "cursor.h"
#include <math.h>
#include "rtcm3/decode.h"
#include "rtcm3/encode.h"
#include "rtcm3/constants.h"
#ifndef MSG
#define MSG 1005
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define DECODE CAT(rtcm3_decode_, MSG, _bitstream)
#define ENCODE CAT(rtcm3_encode_, MSG, )
#if MSG == 4062
typedef rtcm_msg_swift_proprietary T;
#else
typedef CAT(rtcm_msg_, MSG, ) T;
#endif
#define NB 300
struct in { uint8_t b[NB]; T m; };
VP_INPUT(struct in, IN);
static T M;
static uint8_t OUT[NB];
static uint32_t N[5]; /* lengths of the variable parts */

/* runs the cursor over the message and compares with *m */
#define F(w, v, what) VP_ASSERT((v) == G(w), what)
static void str(uint32_t counter, const void *s, uint32_t n) {
  F(8, counter, "string length");
  VP_ASSERT(counter == n, "string length");
  for (uint32_t i = 0; i < n; i++) F(8, ((const uint8_t *)s)[i], "string contents");
}
static bool encoding;
static void coord(double v, const char *unused) {
  int64_t raw = GS(38);
  (void)unused;
  if (encoding) {
    int64_t want = (int64_t)round(v * 10000.0);
    want &= 0x3fffffffffll;
    VP_ASSERT((raw & 0x3fffffffffll) == want, "coordinate in 0.1 mm");
  } else {
    VP_ASSERT(deq(v, (double)raw / 10000.0), "coordinate in 0.1 mm");
  }
}
static void bias(double v, bool present) {
  if (!present) {
    if (!encoding) VP_ASSERT(deq(v, 0.0), "absent bias is 0");
    return;
  }
  int32_t raw = (int32_t)GS(16);
  if (encoding)
    VP_ASSERT(raw == (int16_t)round(v * 50), "bias in 2 cm");
  else
    VP_ASSERT(deq(v, raw * 0.02), "bias in 2 cm");
}
static void body(const T *m) {
#if MSG == 1005 || MSG == 1006
#if MSG == 1006
  const rtcm_msg_1005 *b = &m->msg_1005;
#else
  const rtcm_msg_1005 *b = m;
#endif
  uint32_t msk = encoding ? 1 : 255;
  F(12, b->stn_id & 0xfff, "station id");
  F(6, b->ITRF & 0x3f, "ITRF year");
  F(1, b->GPS_ind & msk, "GPS indicator");
  F(1, b->GLO_ind & msk, "GLONASS indicator");
  F(1, b->GAL_ind & msk, "Galileo indicator");
  F(1, b->ref_stn_ind & msk, "reference station indicator");
  coord(b->arp_x, "X");
  F(1, b->osc_ind & msk, "oscillator indicator");
  uint32_t r = (uint32_t)G(1);
  if (encoding) VP_ASSERT(r == 0, "reserved bit");
  coord(b->arp_y, "Y");
  F(2, b->quart_cycle_ind & (encoding ? 3 : 255), "quarter cycle indicator");
  coord(b->arp_z, "Z");
#if MSG == 1006
  uint32_t h = (uint32_t)G(16);
  if (encoding) {
    double v = m->ant_height < 0 ? 0 : m->ant_height > 6.5535 ? 6.5535 : m->ant_height;
    VP_ASSERT(h == (uint16_t)round(v * 10000.0), "antenna height in 0.1 mm, limited to its range");
  } else {
    VP_ASSERT(deq(m->ant_height, (double)h / 10000.0), "antenna height in 0.1 mm");
  }
#endif
#elif MSG == 1007 || MSG == 1008
#if MSG == 1008
  const rtcm_msg_1007 *b = &m->msg_1007;
#else
  const rtcm_msg_1007 *b = m;
#endif
  F(12, b->stn_id & 0xfff, "station id");
  str(b->ant_descriptor_counter, b->ant_descriptor, N[0]);
  F(8, b->ant_setup_id, "antenna setup id");
#if MSG == 1008
  str(m->ant_serial_num_counter, m->ant_serial_num, N[1]);
#endif
#elif MSG == 1033
  F(12, m->stn_id & 0xfff, "station id");
  str(m->ant_descriptor_counter, m->ant_descriptor, N[0]);
  F(8, m->ant_setup_id, "antenna setup id");
  str(m->ant_serial_num_counter, m->ant_serial_num, N[1]);
  str(m->rcv_descriptor_counter, m->rcv_descriptor, N[2]);
  str(m->rcv_fw_version_counter, m->rcv_fw_version, N[3]);
  str(m->rcv_serial_num_counter, m->rcv_serial_num, N[4]);
  if (!encoding)
    VP_ASSERT(m->ant_descriptor[N[0]] == 0 && m->ant_serial_num[N[1]] == 0 && m->rcv_descriptor[N[2]] == 0 && m->rcv_fw_version[N[3]] == 0 && m->rcv_serial_num[N[4]] == 0, "strings are terminated");
#elif MSG == 1029
  F(12, m->stn_id & 0xfff, "station id");
  F(16, m->mjd_num, "modified Julian day");
  F(17, m->utc_sec_of_day & 0x1ffff, "second of day");
  F(7, m->unicode_chars & 0x7f, "number of characters");
  str(m->utf8_code_units_n, m->utf8_code_units, N[0]);
#elif MSG == 1230
  F(12, m->stn_id & 0xfff, "station id");
  F(1, m->bias_indicator & (encoding ? 1 : 255), "bias indicator");
  uint32_t r = (uint32_t)G(3);
  if (encoding) VP_ASSERT(r == 0, "reserved bits");
  F(4, m->fdma_signal_mask & (encoding ? 15 : 255), "signal mask");
  bias(m->L1_CA_cpb_meter, N[0] & 8);
  bias(m->L1_P_cpb_meter, N[0] & 4);
  bias(m->L2_CA_cpb_meter, N[0] & 2);
  bias(m->L2_P_cpb_meter, N[0] & 1);
#elif MSG == 4062
  uint32_t r = (uint32_t)G(4);
  if (encoding) VP_ASSERT(r == 0, "reserved bits");
  F(16, m->msg_type, "message type");
  F(16, m->sender_id, "sender");
  str(m->len, m->data, N[0]);
#endif
}
/* writes the variable-part lengths N[] into the message; returns its length in bits */
static uint32_t shape(uint8_t *p) {
#if MSG == 1005
  return 152;
#elif MSG == 1006
  return 168;
#elif MSG == 1007
  p[3] = (uint8_t)N[0];
  return 40 + 8 * N[0];
#elif MSG == 1008
  p[3] = (uint8_t)N[0];
  p[5 + N[0]] = (uint8_t)N[1];
  return 48 + 8 * (N[0] + N[1]);
#elif MSG == 1033
  p[3] = (uint8_t)N[0];
  uint32_t k = 5 + N[0];
  for (int i = 1; i < 5; i++) { p[k] = (uint8_t)N[i]; k += 1 + N[i]; }
  return 8 * k;
#elif MSG == 1029
  p[8] = (uint8_t)N[0];
  return 72 + 8 * N[0];
#elif MSG == 1230
  p[3] = (uint8_t)((N[1] << 4) | N[0]);
  return 32 + 16 * ((N[0] & 1) + (N[0] >> 1 & 1) + (N[0] >> 2 & 1) + (N[0] >> 3));
#elif MSG == 4062
  p[6] = (uint8_t)N[0];
  return 56 + 8 * N[0];
#endif
}
static rtcm3_rc run(uint32_t bits, uint32_t *used) {
  swiftnav_bitstream_t bs;
  swiftnav_bitstream_init(&bs, IN.b, bits);
  rtcm3_rc rc = DECODE(&bs, &M);
  if (used) *used = bs.offset;
  return rc;
}
static void set_num(uint32_t num) { IN.b[0] = (uint8_t)(num >> 4); IN.b[1] = (uint8_t)((num << 4) | (num == 4062 ? 0 : 5)); }

static const uint8_t SHAPES[][5] = {
#if MSG == 1005 || MSG == 1006
    {0}
#elif MSG == 1230
    {0, 0}, {1, 15}, {2, 7}, {3, 8}, {4, 0}, {5, 9}, {6, 3}, {7, 12}, {8, 8}, {9, 0}, {10, 15}, {11, 1}, {12, 8}, {13, 2}, {14, 10}, {15, 7}
#elif MSG == 4062
    {0}, {1}, {5}, {64}
#elif MSG == 1029
    {0}, {1}, {7}, {40}
#elif MSG == 1007
    {0}, {1}, {31}, {32}
#else
    {0, 0, 0, 0, 0}, {1, 2, 3, 4, 5}, {32, 31, 32, 0, 1}, {3, 0, 1, 32, 31}
#endif
};
#ifndef VP_LO
#define VP_LO 0
#define VP_HI NSHAPES
#endif
#define NSHAPES (sizeof(SHAPES) / sizeof(SHAPES[0]))

void h_dec(void) {
  for (uint32_t k = VP_LO; k < VP_HI; k++) {
    VP_TAKE(IN);
    for (int i = 0; i < 5; i++) N[i] = SHAPES[k][i];
    uint32_t bits = shape(IN.b), used;
    rtcm3_rc rc = run(bits, &used);
    cu_at(IN.b, 0);
    uint32_t num = (uint32_t)G(12);
#if MSG == 4062
    bool ok = (IN.b[1] & 15) == 0;
#else
    bool ok = true;
#endif
    VP_ASSERT(rc == (num != MSG ? RC_MESSAGE_TYPE_MISMATCH : ok ? RC_OK : RC_INVALID_MESSAGE), "complete messages of this type are accepted, others refused");
    VP_COVER(rc == RC_OK && k == VP_HI - 1, "accepted");
    if (rc != RC_OK) continue;
    VP_ASSERT(used == bits, "the whole message is consumed");
    encoding = false;
    body(&M);
    VP_ASSERT(cu_pos == bits, "layout length");
  }
}
/* every proper octet prefix of a message is refused */
void h_trunc(void) {
  for (uint32_t k = VP_LO; k < VP_HI; k++) {
    VP_TAKE(IN);
    for (int i = 0; i < 5; i++) N[i] = SHAPES[k][i] & (MSG == 1230 ? 15 : 3);
    uint32_t bits = shape(IN.b);
    set_num(MSG);
    for (uint32_t len = 0; len < bits; len += 8) {
      rtcm3_rc rc = run(len, 0);
      VP_ASSERT(rc != RC_OK, "truncated message refused");
    }
  }
  VP_COVER(IN.b[2] == 3, "reached");
}
/* string lengths beyond the limit are refused */
void h_long(void) {
#if MSG == 1007 || MSG == 1008 || MSG == 1033
  static const uint8_t L[] = {33, 34, 64, 128, 255};
  for (uint32_t k = 0; k < sizeof(L); k++) {
    VP_TAKE(IN);
    set_num(MSG);
    IN.b[3] = L[k];
    VP_ASSERT(run(8 * NB, 0) != RC_OK, "descriptor longer than 32 refused");
#if MSG != 1007
    IN.b[3] = 2;
    IN.b[7] = L[k];
    VP_ASSERT(run(8 * NB, 0) != RC_OK, "serial number longer than 32 refused");
#endif
  }
#endif
  VP_COVER(IN.b[9] == 1, "reached");
}
void h_enc(void) {
  for (uint32_t k = VP_LO; k < VP_HI; k++) {
    VP_TAKE(IN);
    for (int i = 0; i < 5; i++) N[i] = SHAPES[k][i];
    T *m = &IN.m;
#if MSG == 1007
    m->ant_descriptor_counter = (uint8_t)N[0];
#elif MSG == 1008
    m->msg_1007.ant_descriptor_counter = (uint8_t)N[0];
    m->ant_serial_num_counter = (uint8_t)N[1];
#elif MSG == 1033
    m->ant_descriptor_counter = (uint8_t)N[0];
    m->ant_serial_num_counter = (uint8_t)N[1];
    m->rcv_descriptor_counter = (uint8_t)N[2];
    m->rcv_fw_version_counter = (uint8_t)N[3];
    m->rcv_serial_num_counter = (uint8_t)N[4];
#elif MSG == 1029
    m->utf8_code_units_n = (uint8_t)N[0];
#elif MSG == 1230
    m->fdma_signal_mask = (uint8_t)N[0];
#elif MSG == 4062
    m->len = (uint8_t)N[0];
#endif
    /* values beyond what the message can express are outside the statement */
#if MSG == 1005 || MSG == 1006
#if MSG == 1006
    const rtcm_msg_1005 *b = &m->msg_1005;
#else
    const rtcm_msg_1005 *b = m;
#endif
#define FITS(v, lim) VP_ASSUME((v) > -(lim) && (v) < (lim))
    FITS(b->arp_x, 1.4e7);
    FITS(b->arp_y, 1.4e7);
    FITS(b->arp_z, 1.4e7);
#if MSG == 1006
    VP_ASSUME(m->ant_height == m->ant_height);
#endif
#elif MSG == 1230
#define FITS(v, lim) VP_ASSUME((v) > -(lim) && (v) < (lim))
    FITS(m->L1_CA_cpb_meter, 655.0);
    FITS(m->L1_P_cpb_meter, 655.0);
    FITS(m->L2_CA_cpb_meter, 655.0);
    FITS(m->L2_P_cpb_meter, 655.0);
#endif
    static uint8_t dummy[NB];
    uint32_t bits = shape(dummy);
    memcpy(OUT, IN.b, NB);
    uint16_t n = ENCODE(m, OUT);
    VP_ASSERT(n == (bits + 7) / 8, "encoded length");
    cu_at(OUT, 0);
    F(12, MSG, "message number");
    encoding = true;
    body(m);
    VP_ASSERT(cu_pos == bits, "layout length");
    for (uint32_t i = 0; i < 8; i++) VP_ASSERT(OUT[n + i] == IN.b[n + i], "nothing written after the message");
    VP_COVER((OUT[2] & 3) == 3 && k == VP_HI - 1, "encoded");
  }
}

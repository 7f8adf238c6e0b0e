/* X01 iXCOM layouts, X02 framing, X03 conversion to SBP. */
#include "vp.h"
#include <math.h>
#include "c/gnss_converters/src/ixcom_sbp.c"
#include <ixcom/encode.h>
#include <ixcom/decode.h>
uint16_t crc_byte(const uint16_t crc, const uint16_t byte);
#ifndef LEN
#define LEN 44
#endif
#ifndef CALLS
#define CALLS 1
#endif
#if LEN == 44
#define ID 0x00
typedef XCOMmsg_IMURAW msg_t;
#define DEC ixcom_decode_imuraw
#define ENC ixcom_encode_imuraw
#define BODY F(4, acc[0]) F(4, acc[1]) F(4, acc[2]) F(4, omg[0]) F(4, omg[1]) F(4, omg[2])
#else
#define ID 0x16
typedef XCOMmsg_WHEELDATA msg_t;
#define DEC ixcom_decode_wheeldata
#define ENC ixcom_encode_wheeldata
#define BODY F(4, speed) F(4, ticks)
#endif
#define ALL F(1, header.sync) F(1, header.msg_id) F(1, header.frame_counter) F(1, header.trigger_source) F(2, header.msg_len) F(2, header.gps_week) \
  F(4, header.gps_time_sec) F(4, header.gps_time_usec) BODY F(2, footer.global_status.value) F(2, footer.crc16)
struct in { uint8_t b[LEN + 8]; msg_t m; uint16_t crc; uint8_t byte, old, cnt; uint16_t sid, mlen; uint32_t n[8]; uint32_t idx; float f; uint8_t hd[16]; };
VP_INPUT(struct in, IN);
static uint64_t le(const uint8_t *p, int n) {
  uint64_t v = 0;
  for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i];
  return v;
}
static uint16_t spec_crc(uint16_t crc, uint8_t byte) { /* x^16 + x^12 + x^5 + 1, most significant bit first */
  crc ^= (uint16_t)(byte << 8);
  for (int i = 0; i < 8; i++) crc = crc & 0x8000 ? (uint16_t)(crc << 1 ^ 0x1021) : (uint16_t)(crc << 1);
  return crc;
}
void h_crcbyte(void) {
  VP_TAKE(IN);
  VP_ASSERT(crc_byte(IN.crc, IN.byte) == spec_crc(IN.crc, IN.byte), "CRC-16 step");
  VP_COVER(1, "reached");
}
static uint16_t sum(const uint8_t *b, int n) {
  uint16_t c = 0;
  for (int i = 0; i < n; i++) c = crc_byte(c, b[i]);
  return c;
}
void h_crcsum(void) {
  VP_TAKE(IN);
  for (int n = 0; n <= LEN - 2; n == 5 ? n = LEN - 2 : n++) VP_ASSERT(ixcom_checksum(IN.b, n) == sum(IN.b, n), "CRC-16 over all octets");
  VP_COVER(1, "reached");
}
static void mk(void) {
  IN.b[0] = 0x7E; IN.b[1] = ID; IN.b[4] = LEN; IN.b[5] = 0;
}
static msg_t M;
void h_dec(void) {
  VP_TAKE(IN);
  mk();
  bool good = ixcom_checksum(IN.b, LEN - 2) == le(IN.b + LEN - 2, 2);
  ixcom_rc rc = DEC(IN.b, &M);
  VP_ASSERT(rc == (good ? IXCOM_RC_OK : IXCOM_RC_INVALID_MESSAGE), "accepted exactly with the right checksum");
  uint32_t pos = 0;
#define F(n, f) { uint64_t v = 0; memcpy(&v, (const uint8_t *)&M + pos, n); VP_ASSERT(sizeof(M.f) == n && (const uint8_t *)&M + pos == (const uint8_t *)&M.f && v == le(IN.b + pos, n), "field " #f); pos += n; }
  ALL
#undef F
  VP_ASSERT(pos == LEN, "size");
  VP_COVER(good, "accepted");
}
void h_other(void) { /* wrong sync, other message, any other announced length */
  VP_TAKE(IN);
  bool wrong = IN.b[0] != 0x7E || IN.b[1] != ID || le(IN.b + 4, 2) != LEN;
  VP_ASSUME(wrong);
  VP_ASSERT(DEC(IN.b, &M) == IXCOM_RC_INVALID_MESSAGE, "other messages are refused");
  VP_COVER(IN.b[0] == 0x7E && IN.b[1] == ID, "other length");
}
void h_enc(void) {
  VP_TAKE(IN);
  static uint8_t out[LEN + 8];
  memcpy(out, IN.b, sizeof out);
  VP_ASSERT(ENC(&IN.m, out) == LEN, "encoded size");
  uint32_t pos = 0;
#define F(n, f) { uint64_t v = 0; memcpy(&v, (const uint8_t *)&IN.m + pos, n); VP_ASSERT((const uint8_t *)&IN.m + pos == (const uint8_t *)&IN.m.f && v == le(out + pos, n), "field " #f); pos += n; }
  ALL
#undef F
  for (int i = LEN; i < LEN + 8; i++) VP_ASSERT(out[i] == IN.b[i], "nothing beyond the message");
  VP_COVER(1, "reached");
}

/* --- conversion */
static struct ixcom_sbp_state S;
static int ncb;
static sbp_msg_type_t ty[4];
static sbp_msg_imu_raw_t g_raw; static sbp_msg_imu_aux_t g_aux; static sbp_msg_odometry_t g_odo; static sbp_msg_wheeltick_t g_tick;
static u16 g_sid; static void *g_ctx;
static void cb(u16 sid, sbp_msg_type_t t, const sbp_msg_t *msg, void *ctx) {
  VP_ASSERT(ncb < 4, "number of messages");
  ty[ncb++] = t;
  g_sid = sid; g_ctx = ctx;
  if (t == SbpMsgImuRaw) g_raw = msg->imu_raw;
  if (t == SbpMsgImuAux) g_aux = msg->imu_aux;
  if (t == SbpMsgOdometry) g_odo = msg->odometry;
  if (t == SbpMsgWheeltick) g_tick = msg->wheeltick;
}
static float fl(const uint8_t *p) { float f; memcpy(&f, p, 4); return f; }
static int ctxobj;
static void conv(void) {
  ixcom_sbp_init(&S, cb, &ctxobj);
  ixcom_set_sender_id(&S, IN.sid);
  mk();
  uint16_t c = ixcom_checksum(IN.b, LEN - 2);
  IN.b[LEN - 2] = c & 255; IN.b[LEN - 1] = c >> 8;
#ifdef BADCRC
  IN.b[LEN - 1] ^= 1u << (IN.cnt & 7);
#endif
  memcpy(S.read_buffer, IN.b, LEN);
  S.index = LEN;
  S.imu_raw_msgs_sent = IN.cnt;
  ncb = 0;
  ixcom_handle_frame(&S);
  VP_ASSERT(S.index == 0, "frame consumed");
  if (ncb) VP_ASSERT(g_sid == IN.sid && g_ctx == &ctxobj, "sender and context");
}
#if LEN == 44
void h_conv(void) {
  VP_TAKE(IN);
  VP_ASSUME(IN.cnt <= 100);
  uint32_t sec = le(IN.b + 8, 4), us = le(IN.b + 12, 4);
  VP_ASSUME(sec < 604800 && us < 1000000);
  float a[6];
  static const int o[6] = {16, 20, 24, 28, 32, 36};
  int16_t w[6];
  for (int i = 0; i < 6; i++) {
    a[i] = fl(IN.b + o[i]);
    VP_ASSUME(a[i] == a[i]);
    float q = i < 3 ? a[i] / (float)(4.0 * 9.80665 / 32768.0) : a[i] * (float)(180.0 / M_PI) / (float)(125.0 / 32768.0);
    VP_ASSUME(q == q);
    w[i] = float_to_s16_clamped(q);
  }
  conv();
#ifdef BADCRC
  VP_ASSERT(ncb == 0, "wrong checksum converts nothing");
#else
  bool aux = IN.cnt == 0 || IN.cnt == 100;
  VP_ASSERT(ncb == 1 + aux && ty[0] == SbpMsgImuRaw && (!aux || ty[1] == SbpMsgImuAux), "messages sent");
  VP_ASSERT(S.imu_raw_msgs_sent == (aux ? 1 : IN.cnt + 1), "message count");
  VP_ASSERT(g_raw.tow == sec * 1000 + us / 1000 && g_raw.tow_f == us % 1000 * 256 / 1000, "time of week");
  VP_ASSERT(g_raw.acc_x == w[0] && g_raw.acc_y == w[1] && g_raw.acc_z == w[2], "accelerations");
  VP_ASSERT(g_raw.gyr_x == w[3] && g_raw.gyr_y == w[4] && g_raw.gyr_z == w[5], "angular rates");
  if (aux) VP_ASSERT(g_aux.imu_type == 255 && g_aux.temp == 0 && g_aux.imu_conf == 0x41, "IMU configuration: 4 g, 125 deg/s");
#endif
  VP_COVER(IN.cnt == 100, "reached");
}
#else
void h_conv(void) {
  VP_TAKE(IN);
  uint32_t sec = le(IN.b + 8, 4), us = le(IN.b + 12, 4);
  VP_ASSUME(sec < 604800 && us < 1000000);
  float sp = fl(IN.b + 16);
  float q = sp * 1000;
  VP_ASSUME(q > -2147483648.0f && q < 2147483648.0f);
  conv();
#ifdef BADCRC
  VP_ASSERT(ncb == 0, "wrong checksum converts nothing");
#else
  VP_ASSERT(ncb == 2 && ty[0] == SbpMsgOdometry && ty[1] == SbpMsgWheeltick, "messages sent");
  VP_ASSERT(g_odo.tow == sec * 1000 + us / 1000 && g_odo.velocity == (s32)q && g_odo.flags == 1, "odometry");
  VP_ASSERT(g_tick.time == (uint64_t)sec * 1000000 + us && g_tick.flags == 1 && g_tick.source == 0 && g_tick.ticks == (int32_t)le(IN.b + 20, 4), "wheel ticks");
#endif
  VP_COVER(1, "reached");
}
#endif
void h_clamp(void) {
  VP_TAKE(IN);
  float v = IN.f;
  VP_ASSUME(v == v);
  int16_t r = float_to_s16_clamped(v);
  if (v < -32768) VP_ASSERT(r == -32768, "saturates below");
  else if (v > 32767) VP_ASSERT(r == 32767, "saturates above");
  else {
    float d = (float)r - v;
    VP_ASSERT(d <= 0.5f && d >= -0.5f, "nearest");
  }
  VP_COVER(v == 1.5f, "reached");
}

/* --- framing: an arbitrary reader, an arbitrary legal state */
static uint8_t *b0;
static uint32_t calls, given, K;
static uint8_t stream[64];
static int rd_any(u8 *buf, size_t len, void *ctx) {
  VP_ASSERT(ctx == &ctxobj, "context");
  VP_ASSERT(len >= 1 && buf >= S.read_buffer && (size_t)(buf - S.read_buffer) == S.index && len <= sizeof S.read_buffer - S.index, "reads only into the buffer");
  if (calls >= K) return 0;
  uint32_t n = IN.n[calls++];
  VP_ASSUME(n >= 1 && n <= len);
  size_t p0 = S.index;
  for (uint32_t p = 0; p < 16; p++) if (p >= p0 && p < p0 + n) S.read_buffer[p] = IN.hd[p];
  return n;
}
static bool inv(void) { /* a partial frame */
  uint32_t ml = S.read_buffer[4] + (S.read_buffer[5] << 8);
  return S.index < sizeof S.read_buffer && (S.index == 0 || S.read_buffer[0] == 0x7E) && (S.index < 16 || S.index == 16 || (ml >= 20 && ml < sizeof S.read_buffer && S.index < ml));
}
void h_read(void) {
  VP_TAKE(IN);
  ixcom_sbp_init(&S, cb, &ctxobj);
  K = CALLS;
  calls = 0;
  S.index = IN.idx;
#ifdef HDR
  VP_ASSUME(IN.idx <= 16);
#else
  VP_ASSUME(IN.idx >= 16);
#endif
  for (int i = 0; i < 16; i++) S.read_buffer[i] = IN.b[i];
  VP_ASSUME(inv());
  S.read_stream_func = rd_any;
  int r = read_ixcom_frame(&S);
  uint32_t ml = S.read_buffer[4] + (S.read_buffer[5] << 8);
  if (r > 0) VP_ASSERT((uint32_t)r == ml && S.index == ml && ml >= 20 && ml < sizeof S.read_buffer && S.read_buffer[0] == 0x7E, "complete frame");
  else VP_ASSERT(inv(), "partial frame");
  VP_COVER(r > 0, "complete frame");
}
/* a valid frame after one octet of other data, in arbitrary pieces */
static uint32_t at, total;
static int rd_pieces(u8 *buf, size_t len, void *ctx) {
  (void)ctx;
  if (calls >= 5) return 0;
  uint32_t n = IN.n[calls++];
  if (n < 1) n = 1;
  if (n > len) n = len;
  if (at + n > total) n = total - at;
  size_t p0 = S.index;
  for (uint32_t p = 0; p < 28; p++) if (p >= p0 && p < p0 + n) S.read_buffer[p] = stream[at + (p - p0)];
  at += n;
  return n;
}
void h_pieces(void) {
  VP_TAKE(IN);
  mk();
  VP_ASSUME(IN.old != 0x7E);
  stream[0] = IN.old;
  for (int i = 0; i < LEN; i++) stream[1 + i] = IN.b[i];
  total = LEN + 1; at = 0; calls = 0;
  ixcom_sbp_init(&S, cb, &ctxobj);
  S.read_stream_func = rd_pieces;
  int r = read_ixcom_frame(&S);
  VP_ASSUME(at == total);
  VP_ASSERT(r == LEN, "frame found");
  for (int i = 0; i < LEN; i++) VP_ASSERT(S.read_buffer[i] == IN.b[i], "frame contents");
  VP_COVER(calls == 5, "in five pieces");
}

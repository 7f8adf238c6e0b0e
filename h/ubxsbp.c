/* U04 UBX framing, U05 observations, U06 navigation messages, U07 ESF sensor
 * data, U08 dispatch, subframes and forwarding.
 * ubx_sbp.c is included; the libubx decoders are represented by their contract
 * (any message, any return code - their layouts are properties U01-U03). */
#include "vp.h"
#include <math.h>
#ifdef VP_CPROVER /* powers of two, as the C library defines them */
static float vp_exp2(int n) { static const float T[] = {0x1p-16f, 0x1p-15f, 0x1p-14f, 0x1p-13f, 0x1p-12f, 0x1p-11f, 0x1p-10f, 0x1p-9f, 0x1p-8f, 0x1p-7f, 0x1p-6f, 0x1p-5f, 0x1p-4f, 0x1p-3f, 0x1p-2f, 0x1p-1f, 1}; return T[n + 16]; }
#define ldexpf(x, n) vp_exp2(n)
#define ldexp(x, n) ((double)vp_exp2(n))
#endif
#include "c/gnss_converters/src/ubx_sbp.c"
#ifndef N
#define N 2
#endif
#ifndef FL
#define FL 0x7ff
#endif
struct obs1 { double pr, cp; float d; uint8_t gnss, sv, sig, cno, trk; uint16_t lock; };
struct in {
  uint8_t data[24], rc, flag, buf[64];
  uint16_t sid, wn;
  double tow, d; float f;
  struct obs1 o[N ? N : 1];
  int8_t leap; uint8_t rec;
  ubx_nav_pvt pvt; ubx_nav_att att; ubx_nav_velecef vel; ubx_hnr_pvt hnr; ubx_nav_status st; ubx_rxm_sfrbx sf;
  ubx_nav_sat_data sat[N ? N : 1];
  struct { uint16_t flags; uint32_t calib, d[N ? N : 1], t[N ? N : 1], msss; } esf;
  struct ubx_esf_state es;
  sbp_msg_orient_euler_t oe;
  uint32_t tow_ms, v24, nw[8];
  uint8_t ps[3];
  size_t idx, bib;
};
VP_INPUT(struct in, IN);
static struct ubx_sbp_state S;
static int ctxobj;

/* --- contracts of what ubx_sbp.c calls */
#ifdef VP_CPROVER
double __CPROVER_uninterpreted_norm(double);
unsigned char __CPROVER_uninterpreted_elt(double);
#define NORM(t) __CPROVER_uninterpreted_norm(t)
u8 encode_lock_time(double t) { return __CPROVER_uninterpreted_elt(t); }
#else
static double NORM(double t) { double r = fmod(t, 604800.0); return r < 0 ? r + 604800.0 : r; }
u8 encode_lock_time(double t) { return t < 0.032 ? 0 : t >= 524.288 ? 15 : (u8)(floor(log2(t * 1000)) - 4); }
#endif
void normalize_gps_time(gps_time_t *t) { t->tow = NORM(t->tow); }
bool normalize_gps_time_safe(gps_time_t *t) { t->tow = NORM(t->tow); return true; }
bool gps_time_valid(const gps_time_t *t) { return t->tow >= 0 && t->tow < 604800.0 && t->wn >= 0; }
static int wk(double tow, double ref) { double dt = tow - ref; return dt > 302400.0 ? -1 : dt < -302400.0 ? 1 : 0; }
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) { t->wn = (s16)(ref->wn + wk(t->tow, ref->tow)); return true; }
static int called; /* last decoder asked */
#ifdef NODEC /* the real ones are linked */
#define DECODER(id, name, type, ...)
#else
#define DECODER(id, name, type, ...) ubx_rc ubx_decode_##name##_bytestream(swiftnav_bytestream_t *b, type *m) { (void)b; (void)m; called = id; __VA_ARGS__; return IN.rc ? RC_INVALID_MESSAGE : RC_OK; }
#endif
static void fill_rawx(ubx_rxm_rawx *m) {
  m->rcv_tow = IN.tow; m->rcv_wn = IN.wn; m->leap_second = IN.leap; m->rec_status = IN.rec; m->num_meas = N;
  for (int i = 0; i < N; i++) {
    m->pseudorange_m[i] = IN.o[i].pr; m->carrier_phase_cycles[i] = IN.o[i].cp; m->doppler_hz[i] = IN.o[i].d; m->gnss_id[i] = IN.o[i].gnss; m->sat_id[i] = IN.o[i].sv;
    m->sig_id[i] = IN.o[i].sig; m->lock_time[i] = IN.o[i].lock; m->cno_dbhz[i] = IN.o[i].cno; m->track_state[i] = IN.o[i].trk;
  }
}
static void fill_esfm(ubx_esf_meas *m) { m->flags = (uint16_t)(FL | N << 11); m->calib_tag = IN.esf.calib; for (int i = 0; i < N; i++) m->data[i] = IN.esf.d[i]; }
static void fill_esfr(ubx_esf_raw *m) { m->length = 4 + 8 * N; m->msss = IN.esf.msss; for (int i = 0; i < N; i++) { m->data[i] = IN.esf.d[i]; m->sensor_time_tag[i] = IN.esf.t[i]; } }
static void fill_sat(ubx_nav_sat *m) { m->num_svs = N; for (int i = 0; i < N && i < NAV_DATA_MAX_COUNT; i++) m->data[i] = IN.sat[i]; }
DECODER(1, hnr_pvt, ubx_hnr_pvt, *m = IN.hnr)
DECODER(2, rxm_rawx, ubx_rxm_rawx, fill_rawx(m))
DECODER(3, nav_att, ubx_nav_att, *m = IN.att)
DECODER(4, nav_pvt, ubx_nav_pvt, *m = IN.pvt)
DECODER(5, nav_velecef, ubx_nav_velecef, *m = IN.vel)
DECODER(6, nav_sat, ubx_nav_sat, fill_sat(m))
DECODER(7, nav_status, ubx_nav_status, *m = IN.st)
DECODER(8, rxm_sfrbx, ubx_rxm_sfrbx, *m = IN.sf)
DECODER(9, esf_meas, ubx_esf_meas, fill_esfm(m))
DECODER(10, esf_raw, ubx_esf_raw, fill_esfr(m))
static int sub; static u32 sub_prn, sub_tow, sub_fcn; static int sub_sz; static u16 sub_sid; static void *sub_ctx; static u32 sub_w[10];
static void rec(int k, u32 prn, const u32 *w, int sz) { sub = k; sub_prn = prn; sub_sz = sz; for (int i = 0; i < 10; i++) sub_w[i] = w[i]; }
void gps_decode_subframe(struct ubx_sbp_state *d, int prn, const u32 w[], int sz) { VP_ASSERT(d == &S, "state"); rec(1, (u32)prn, w, sz); }
void bds_decode_subframe(struct ubx_sbp_state *d, int prn, const u32 w[], int sz) { VP_ASSERT(d == &S, "state"); rec(2, (u32)prn, w, sz); }
void gal_decode_page(struct ubx_sbp_state *d, int prn, const u32 w[], int sz) { VP_ASSERT(d == &S, "state"); rec(3, (u32)prn, w, sz); }
void glo_decode_string(struct ubx_sbp_state *d, int prn, int fcn, const u32 w[], int sz) { VP_ASSERT(d == &S, "state"); sub_fcn = (u32)fcn; rec(4, (u32)prn, w, sz); }
#ifndef SBAS_PROTO
#define SBAS_PROTO struct eph_sat_data *d, uint32_t tow_ms, int prn, const u32 w[], int sz, u16 sid, void *ctx, void (*f)(uint16_t, sbp_msg_type_t, const sbp_msg_t *, void *)
#endif

/* --- recorded output */
#ifndef MAXCB
#define MAXCB 4
#endif
static int ncb;
static sbp_msg_type_t ty[MAXCB];
static sbp_msg_imu_raw_t g_raw[2]; static int n_raw; static sbp_msg_imu_aux_t g_aux; static sbp_msg_odometry_t g_odo[N + 1]; static sbp_msg_wheeltick_t g_tick[N + 1]; static int n_odo, n_tick;
static sbp_msg_pos_llh_t g_llh; static sbp_msg_orient_euler_t g_oe; static sbp_msg_vel_ecef_t g_vel; static sbp_msg_fwd_t g_fwd; static sbp_msg_gnss_time_offset_t g_off;
#ifdef WANT_OBS
static sbp_msg_obs_t g_obs[MAXCB]; static int n_obsm;
#endif
#ifdef WANT_SAT
static sbp_msg_sv_az_el_t g_az[2]; static int n_az; static sbp_msg_measurement_state_t g_ms[2]; static int n_ms;
#endif
static void cb(u16 sid, sbp_msg_type_t t, const sbp_msg_t *msg, void *ctx) {
  VP_ASSERT(ncb < MAXCB, "number of messages");
  VP_ASSERT(sid == IN.sid && ctx == &ctxobj, "sender and context");
  ty[ncb++] = t;
  if (t == SbpMsgImuRaw) { VP_ASSERT(n_raw < 2, "messages"); g_raw[n_raw++] = msg->imu_raw; }
  if (t == SbpMsgImuAux) g_aux = msg->imu_aux;
  if (t == SbpMsgOdometry) g_odo[n_odo++] = msg->odometry;
  if (t == SbpMsgWheeltick) g_tick[n_tick++] = msg->wheeltick;
  if (t == SbpMsgPosLlh) g_llh = msg->pos_llh;
  if (t == SbpMsgOrientEuler) g_oe = msg->orient_euler;
  if (t == SbpMsgVelEcef) g_vel = msg->vel_ecef;
  if (t == SbpMsgFwd) g_fwd = msg->fwd;
  if (t == SbpMsgGnssTimeOffset) g_off = msg->gnss_time_offset;
#ifdef WANT_OBS
  if (t == SbpMsgObs) g_obs[n_obsm++] = msg->obs;
#endif
#ifdef WANT_SAT
  if (t == SbpMsgSvAzEl) { VP_ASSERT(n_az < 2, "messages"); g_az[n_az++] = msg->sv_az_el; }
  if (t == SbpMsgMeasurementState) { VP_ASSERT(n_ms < 2, "messages"); g_ms[n_ms++] = msg->measurement_state; }
#endif
}
void sbas_decode_subframe(SBAS_PROTO) {
  VP_ASSERT(d == &S.eph_data && f == cb, "state");
  sub_tow = tow_ms; sub_sid = sid; sub_ctx = ctx; rec(5, prn, w, sz);
}
static swiftnav_bytestream_t bs;
static void run(u8 cls, u8 id) {
  static u8 hd[24];
  for (int i = 0; i < 24; i++) hd[i] = IN.data[i];
  hd[0] = cls; hd[1] = id;
  swiftnav_bytestream_init(&bs, hd, 24);
  ubx_handle_frame(&bs, &S);
}
static void init(void) {
  ubx_sbp_init(&S, cb, &ctxobj);
  ubx_set_sender_id(&S, IN.sid);
  IN.rc &= 1;
}

/* --- U04 */
static uint8_t stream[64];
static uint32_t at, total, nread;
#ifndef QN
#define QN 36
#endif
#define QS 1
#ifndef NPC
#define NPC 2
#endif
static unsigned seq;
static struct ubx_sbp_state *SP = &S;
static const uint8_t PSZ[8] = {1, 2, 3, 5, 0, 12};
static int rd_pieces(u8 *buf, size_t len, void *ctx) {
  VP_ASSERT(ctx == &ctxobj && buf == SP->read_buffer && len == UBX_BUFFER_SIZE, "reads into its buffer");
  if (at >= total || nread >= NPC + 6) return -3;
  uint32_t k = seq % 6, n = nread >= NPC ? 1 : PSZ[k];
  seq /= 6; nread++;
  if (n == 0) { nread = 99; return seq & 1 ? -3 : 0; }
  if (n > total - at) n = total - at;
  for (uint32_t i = 0; i < n; i++) buf[i] = stream[at + i];
  at += n;
  return (int)n;
}
#ifndef NODEC
void ubx_checksum(const uint8_t b[], size_t n, uint8_t *c) { c[0] = c[1] = 0; } /* not reached */
#endif
void h_cksum(void) {
  VP_TAKE(IN);
  for (unsigned n = 0; n <= 24; n += n < 3 ? 1 : 7) {
    uint8_t c[2], a = 0, b = 0;
    ubx_checksum(IN.data, n, c);
    for (unsigned i = 0; i < n; i++) { a = (uint8_t)(a + IN.data[i]); b = (uint8_t)(b + a); }
    VP_ASSERT(c[0] == a && c[1] == b, "8 bit Fletcher checksum of all octets");
  }
  VP_COVER(1, "reached");
}
#ifndef REST
#define REST 0
#define TOP 0
#define LEN1 1
#endif
static void bytes1(unsigned q, struct ubx_sbp_state *T) {
  uint8_t out[16];
  SP = T;
  T->read_stream_func = rd_pieces;
  T->context = &ctxobj;
  seq = q;
  T->bytes_in_buffer = TOP;
  T->index = TOP - REST;
  for (int i = 0; i < 16; i++) out[i] = 0x5a;
  for (int i = 0; i < REST; i++) T->read_buffer[TOP - REST + i] = stream[i] = IN.buf[i];
  for (int i = 0; i < 12; i++) stream[REST + i] = IN.buf[REST + i];
  at = REST; total = REST + 12; nread = 0;
  int r = read_ubx_bytes(out, LEN1, T);
  VP_ASSERT(T->index <= T->bytes_in_buffer && T->bytes_in_buffer <= UBX_BUFFER_SIZE, "buffer indices");
  if (r > 0) {
    VP_ASSERT(r == LEN1, "all octets asked for");
    for (int i = 0; i < LEN1; i++) VP_ASSERT(out[i] == stream[i], "the next octets of the stream");
    VP_ASSERT(LEN1 + (T->bytes_in_buffer - T->index) == at, "nothing lost");
  } else
    VP_ASSERT(nread == 99, "fails only when the reader does");
  for (int i = LEN1; i < 16; i++) VP_ASSERT(out[i] == 0x5a, "nothing written beyond");
  VP_COVER(r > 0, "read");
}
/* a small object when the members used come first, as they do now */
struct front { u8 read_buffer[UBX_BUFFER_SIZE]; size_t index, bytes_in_buffer; u16 sender_id; int (*read_stream_func)(u8 *, size_t, void *); void (*cb_ubx_to_sbp)(uint16_t, sbp_msg_type_t, const sbp_msg_t *, void *); void *context; };
#define SAME(m) (offsetof(struct front, m) == offsetof(struct ubx_sbp_state, m))
static void bytes2(unsigned q) {
#ifdef VP_CPROVER
  struct front f;
  if (SAME(read_buffer) && SAME(index) && SAME(bytes_in_buffer) && SAME(read_stream_func) && SAME(context)) { bytes1(q, (struct ubx_sbp_state *)&f); return; }
#endif
  struct ubx_sbp_state T;
  bytes1(q, &T);
}
void h_bytes(void) { /* REST octets still buffered, then whatever pieces the reader gives */
  VP_TAKE(IN);
  for (unsigned q = 0; q < QN; q++) bytes2(q);
}
static uint8_t F[UBX_FRAME_SIZE];
/* contract of read_ubx_bytes: fills exactly the region or fails */
static uint32_t one, last, prev;
int stub_read(u8 *buf, size_t length, struct ubx_sbp_state *st) {
  VP_ASSERT(st == &S && length >= 1, "state");
  VP_ASSERT(buf >= F && (size_t)(buf - F) + length <= UBX_FRAME_SIZE, "reads stay inside the frame");
  S.bytes_in_buffer = IN.bib; S.index = IN.idx;
  if (one >= 7) return 0;
  if (IN.nw[one] & 0x100) { one++; return IN.flag & 1 ? 0 : -3; }
  if (length == 1) { prev = last; last = buf[0] = (u8)IN.nw[one]; }
  one++;
  return (int)length;
}
static uint32_t ck_len; static const uint8_t *ck_at;
static const uint8_t *ckat[4]; static uint32_t cklen[4]; static int nck;
void stub_cksum2(const uint8_t b[], size_t length, uint8_t *c) { if (nck < 4) { ckat[nck] = b; cklen[nck] = (uint32_t)length; } nck++; c[0] = 0x5a; c[1] = 0xa5; }
void stub_cksum(const uint8_t b[], size_t length, uint8_t *c) { ck_at = b; ck_len = (uint32_t)length; c[0] = IN.ps[0]; c[1] = IN.ps[1]; }
#ifndef VP_CPROVER
static uint8_t big[4800];
static uint32_t bigpos, biglen;
static int rd_big(u8 *buf, size_t len, void *ctx) { (void)ctx; if (bigpos >= biglen) return 0; size_t n = biglen - bigpos < len ? biglen - bigpos : len; memcpy(buf, big + bigpos, n); bigpos += n; return (int)n; }
static void frame1_native(void) { /* the same inputs as a byte stream */
  static uint8_t exact[UBX_FRAME_SIZE];
  uint32_t p = 0;
  for (int i = 0; i < 7; i++) { if (IN.nw[i] & 0x100) break; big[p++] = (u8)IN.nw[i]; if (p > 1 && big[p - 2] == 0xB5 && big[p - 1] == 0x62) break; }
  uint32_t h = p, len = IN.buf[2] + (IN.buf[3] << 8);
  if (len > 4600) len = 4600;
  big[p++] = IN.buf[0]; big[p++] = IN.buf[1]; big[p++] = (u8)len; big[p++] = (u8)(len >> 8);
  for (uint32_t i = 0; i < len; i++) big[p++] = (u8)(i * 7);
  uint8_t a = 0, b = 0;
  for (uint32_t i = h; i < p; i++) { a = (uint8_t)(a + big[i]); b = (uint8_t)(b + a); }
  big[p++] = a + (IN.flag == 1); big[p++] = b;
  biglen = p; bigpos = 0;
  S.read_stream_func = rd_big;
  bool ok = h >= 2 && big[h - 2] == 0xB5 && big[h - 1] == 0x62 && len <= UBX_FRAME_SIZE - 6 && IN.flag != 1;
  int r = read_ubx_frame(exact, &S);
  if (ok) VP_ASSERT(r == (int)len + 4 && !memcmp(exact, big + h, len + 6), "frame found");
  else if (r > 0) { /* only a frame inside the payload may be found */
    uint32_t l2 = exact[2] + (exact[3] << 8); uint8_t x = 0, y = 0;
    for (int i = 0; i < r; i++) { x = (uint8_t)(x + exact[i]); y = (uint8_t)(y + x); }
    VP_ASSERT(r == (int)l2 + 4 && exact[r] == x && exact[r + 1] == y, "checksum of the frame");
  }
}
#endif
void h_frame1(void) { /* one frame attempt, any state and contents */
  VP_TAKE(IN);
  init();
#ifdef VP_CPROVER
  __CPROVER_havoc_object(F);
#endif
  one = 0; last = prev = 0; ck_at = 0;
#ifndef VP_CPROVER
  frame1_native();
  return;
#endif
  IN.bib = 0; /* no second attempt */
  int r = read_ubx_frame(F, &S);
  uint32_t len = F[2] + (F[3] << 8);
  if (r > 0) {
    VP_ASSERT(prev == 0xB5 && last == 0x62, "starts with the sync octets");
    VP_ASSERT((uint32_t)r == len + 4 && r + 2 <= UBX_FRAME_SIZE, "length of the frame");
    VP_ASSERT(ck_at == F && ck_len == (uint32_t)r, "checksum over class, id, length and payload");
    VP_ASSERT(F[r] == IN.ps[0] && F[r + 1] == IN.ps[1], "checksum octets");
  }
  VP_COVER(r == 4096 - 2, "longest frame");
}
#ifndef PRE
#define PRE {0}
#define NPRE 0
#define NREAD 1
#endif
/* contract of read_ubx_bytes: the next octets of the stream */
static uint32_t pos;
int stub_next(u8 *buf, size_t length, struct ubx_sbp_state *st) {
  VP_ASSERT(st == &S && length >= 1, "state");
  if (pos + length > total) return 0;
  for (uint32_t i = 0; i < length; i++) buf[i] = stream[pos + i];
  pos += (uint32_t)length;
  S.bytes_in_buffer = pos < total;
  return (int)length;
}
static int rd_all(u8 *buf, size_t len, void *ctx) { (void)ctx; if (pos) return 0; pos = total; for (uint32_t i = 0; i < total; i++) buf[i] = stream[i]; return (int)total; }
void h_pieces(void) { /* a frame after octets which are no frame; a second frame follows */
  VP_TAKE(IN);
  init();
  static const int pre[] = PRE;
  uint32_t p = 0;
  for (int i = 0; i < NPRE; i++) {
    stream[p] = pre[i] < 0 ? IN.buf[i] : (uint8_t)pre[i];
    VP_ASSUME(pre[i] >= 0 || (stream[p] != 0xB5 && stream[p] != 0x62));
    p++;
  }
  uint32_t f0 = p;
  for (int k = 0; k < 2; k++) {
    uint32_t g = p;
    stream[p++] = 0xB5; stream[p++] = 0x62; stream[p++] = IN.buf[10 + k * 8]; stream[p++] = IN.buf[11 + k * 8]; stream[p++] = 2; stream[p++] = 0; stream[p++] = IN.buf[12 + k * 8]; stream[p++] = IN.buf[13 + k * 8];
#ifdef VP_CPROVER
    stream[p++] = 0x5a; stream[p++] = 0xa5; /* as stub_cksum2 */
#else
    uint8_t a = 0, b = 0;
    for (uint32_t i = g + 2; i < g + 8; i++) { a = (uint8_t)(a + stream[i]); b = (uint8_t)(b + a); }
    stream[p++] = a; stream[p++] = b;
#endif
  }
  total = p; pos = 0;
  S.read_stream_func = rd_all;
  for (int k = 0; k < 2; k++) {
    int r = read_ubx_frame(F, &S);
    VP_ASSERT(r == 6, "a valid frame is found");
    for (int i = 0; i < 6; i++) VP_ASSERT(F[i] == stream[f0 + 10 * k + 2 + i], "frame contents");
  }
#ifdef VP_CPROVER
  for (int k = 0; k < 2; k++) VP_ASSERT(nck >= 2 && ckat[nck - 2 + k] == F && cklen[nck - 2 + k] == 6, "checksum over class, id, length and payload");
#endif
  VP_ASSERT(read_ubx_frame(F, &S) <= 0, "end of the stream");
  VP_COVER(1, "frame");
}

/* --- U05 */
#define CODE(g, s, c) if (gnss == (g) && sig == (s)) return c;
static int code_of(unsigned gnss, unsigned sig) {
  CODE(0, 0, CODE_GPS_L1CA) CODE(0, 3, CODE_GPS_L2CL) CODE(0, 4, CODE_GPS_L2CM) CODE(1, 0, CODE_SBAS_L1CA) CODE(2, 0, CODE_GAL_E1C) CODE(2, 1, CODE_GAL_E1B) CODE(2, 5, CODE_GAL_E7I) CODE(2, 6, CODE_GAL_E7Q)
  CODE(3, 0, CODE_BDS2_B1) CODE(3, 1, CODE_BDS2_B1) CODE(3, 2, CODE_BDS2_B2) CODE(3, 3, CODE_BDS2_B2) CODE(5, 0, CODE_QZS_L1CA) CODE(5, 4, CODE_QZS_L2CM) CODE(5, 5, CODE_QZS_L2CL) CODE(6, 0, CODE_GLO_L1OF) CODE(6, 2, CODE_GLO_L2OF)
  return CODE_INVALID;
}
void h_code(void) {
  VP_TAKE(IN);
  VP_ASSERT((int)convert_ubx_gnssid_sigid(IN.buf[0], IN.buf[1]) == code_of(IN.buf[0], IN.buf[1]), "signal of gnssId and sigId");
  VP_COVER(IN.buf[0] == 6, "reached");
}
void h_cp(void) {
  VP_TAKE(IN);
  double L = IN.d;
  VP_ASSUME(L == L && !(L >= 2147483647.0 && L < 2147483648.0));
  sbp_carrier_phase_t o = {0, 0};
  bool ok = pack_carrier_phase(L, &o);
  VP_ASSERT(ok == (L >= -2147483648.0 && L < 2147483648.0), "accepted exactly when it fits");
  if (ok) {
    double d = (double)o.i + (double)o.f * 0.00390625 - L;
    VP_ASSERT(d <= 0.00195313 && d >= -0.00195313, "nearest 1/256 cycle");
  }
  VP_COVER(ok && o.f == 7, "packed");
}
void h_dop(void) {
  VP_TAKE(IN);
  double D = (double)IN.f;
  VP_ASSUME(D == D && !(D >= 32767.0 && D < 32768.0));
  sbp_doppler_t o = {0, 0};
  bool ok = pack_doppler(D, &o);
  VP_ASSERT(ok == (D >= -32768.0 && D < 32768.0), "accepted exactly when it fits");
  if (ok) {
    double d = (double)o.i + (double)o.f * 0.00390625 - D;
    VP_ASSERT(d <= 0.00195313 && d >= -0.00195313, "nearest 1/256 Hz");
  }
  VP_COVER(ok && o.f == 7, "packed");
}
#ifdef WANT_OBS
#ifdef VP_CPROVER /* contracts of the packers: functions of their argument */
int __CPROVER_uninterpreted_cpi(double); unsigned char __CPROVER_uninterpreted_cpf(double); bool __CPROVER_uninterpreted_cpk(double);
short __CPROVER_uninterpreted_dpi(double); unsigned char __CPROVER_uninterpreted_dpf(double); bool __CPROVER_uninterpreted_dpk(double);
bool stub_cp(double L, sbp_carrier_phase_t *o) { bool k = __CPROVER_uninterpreted_cpk(L); if (k) { o->i = __CPROVER_uninterpreted_cpi(L); o->f = __CPROVER_uninterpreted_cpf(L); } return k; }
bool stub_dop(double D, sbp_doppler_t *o) { bool k = __CPROVER_uninterpreted_dpk(D); if (k) { o->i = __CPROVER_uninterpreted_dpi(D); o->f = __CPROVER_uninterpreted_dpf(D); } return k; }
#endif
static bool fin(double x, double lim) { return x > -lim && x < lim; }
void h_rawx(void) {
  VP_TAKE(IN);
  init();
  static uint32_t P[N + 1]; static sbp_carrier_phase_t L[N + 1]; static sbp_doppler_t D[N + 1]; static uint8_t lk[N + 1];
  VP_ASSUME(IN.tow >= 0 && IN.tow < 604800.0);
  for (int i = 0; i < N; i++) {
    double p = 50 * IN.o[i].pr;
    VP_ASSUME(IN.o[i].pr >= 0 && IN.o[i].pr < 8.5e7 && p >= 0 && p < 4294967296.0 && fin(IN.o[i].cp, 2e9) && fin(IN.o[i].d, 30000));
    P[i] = (uint32_t)p;
    VP_ASSUME(pack_carrier_phase(IN.o[i].cp, &L[i]));
    VP_ASSUME(pack_doppler(IN.o[i].d, &D[i]));
    lk[i] = encode_lock_time((double)IN.o[i].lock / 1000);
  }
  double ms = 1e3 * IN.tow, ip;
  double ns = 1e6 * modf(ms, &ip);
  VP_ASSUME(ip >= 0 && ip < 604800000.0 && ns >= 0 && ns <= 1000000.0);
  uint32_t tow = (uint32_t)ip;
  int32_t nsr = (int32_t)ns;
  if (nsr > 500000) { nsr -= 1000000; tow++; }
  S.esf_state.weeknumber_set = IN.flag & 1;
  n_obsm = 0;
  run(UBX_CLASS_RXM, UBX_MSG_RXM_RAWX);
  if (IN.rc) { VP_ASSERT(ncb == 0, "nothing from a refused message"); return; }
  VP_ASSERT(ncb == (N ? (N + 13) / 14 : 1) && n_obsm == ncb, "number of observation messages");
  for (int m = 0; m < (N ? (N + 13) / 14 : 1); m++) {
    int k = N - 14 * m > 14 ? 14 : N - 14 * m;
    VP_ASSERT(g_obs[m].n_obs == k && g_obs[m].header.n_obs == (((N ? (N + 13) / 14 : 1) << 4) | m), "message count and index");
    VP_ASSERT(g_obs[m].header.t.wn == (IN.wn ? IN.wn : 0xffff) && g_obs[m].header.t.tow == tow && g_obs[m].header.t.ns_residual == nsr, "time of the observations");
    for (int j = 0; j < 14 && 14 * m + j < N; j++) {
      int i = 14 * m + j;
      const sbp_packed_obs_content_t *o = &g_obs[m].obs[j];
      VP_ASSERT(o->P == P[i] && o->L.i == L[i].i && o->L.f == L[i].f && o->D.i == D[i].i && o->D.f == D[i].f, "measurements");
      VP_ASSERT(o->cn0 == (IN.o[i].cno > 63 ? 255 : 4 * IN.o[i].cno) && o->lock == lk[i], "C/N0 and lock time");
      VP_ASSERT(o->flags == (8 | (IN.o[i].trk & 7)) && o->sid.sat == IN.o[i].sv && o->sid.code == (uint8_t)code_of(IN.o[i].gnss, IN.o[i].sig), "flags and signal");
    }
  }
  VP_ASSERT(S.leap_second_known == (IN.rec & 1), "leap seconds known");
  if (IN.rec & 1) VP_ASSERT(S.utc_params.dt_ls == IN.leap && S.utc_params.dt_lsf == IN.leap, "leap seconds");
  if (N && IN.wn && (IN.flag & 1)) VP_ASSERT(S.esf_state.last_obs_time_gnss.wn == (s16)IN.wn && S.esf_state.last_obs_time_gnss.tow == IN.tow, "time of the last observation kept");
  else VP_ASSERT(S.esf_state.last_obs_time_gnss.wn == -1, "no time kept");
  VP_COVER(nsr == 0, "reached");
}
void h_unfit(void) { /* values which do not fit are sent as zero */
  VP_TAKE(IN);
  init();
  VP_ASSUME(IN.tow >= 0 && IN.tow < 604800.0);
  IN.rc = 0;
  for (int i = 0; i < N; i++) VP_ASSUME(IN.o[i].pr >= 0 && IN.o[i].pr < 8.5e7 && (IN.o[i].cp < -3e9 || IN.o[i].cp > 3e9) && (IN.o[i].d < -40000 || IN.o[i].d > 40000));
  run(UBX_CLASS_RXM, UBX_MSG_RXM_RAWX);
  for (int i = 0; i < N; i++) VP_ASSERT(g_obs[0].obs[i].L.i == 0 && g_obs[0].obs[i].L.f == 0 && g_obs[0].obs[i].D.i == 0 && g_obs[0].obs[i].D.f == 0, "no stale value");
  VP_COVER(n_obsm == 1, "reached");
}
#endif

/* --- U06 */
#define U16SAT(x) ((x) > 65535 ? 65535 : (x))
void h_pvt(void) {
  VP_TAKE(IN);
  init();
  S.use_hnr = IN.flag & 1;
  double lat = 1e-7 * IN.pvt.lat, lon = 1e-7 * IN.pvt.lon, h = 1e-3 * IN.pvt.height;
  VP_ASSUME(lat == lat && lon == lon && h == h);
  pvt_state.num_sats = IN.ps[0]; pvt_state.flags = IN.ps[1]; pvt_state.fix_type = IN.ps[2];
  run(UBX_CLASS_NAV, UBX_MSG_NAV_PVT);
  if (IN.rc) { VP_ASSERT(ncb == 0 && S.last_tow_ms == UINT32_MAX && pvt_state.flags == IN.ps[1] && pvt_state.fix_type == IN.ps[2], "nothing from a refused message"); return; }
  VP_ASSERT(ncb == !(IN.flag & 1) && S.last_tow_ms == IN.pvt.i_tow, "sent unless high rate navigation is used");
  int ft = IN.pvt.fix_type, cs = IN.pvt.flags & 0xc0;
  int fl = ft == 1 ? 5 : ft >= 2 && ft <= 4 ? (!(IN.pvt.flags & 2) ? 1 : cs == 0 ? 2 : cs == 0x40 ? 3 : cs == 0x80 ? 4 : 0) : 0;
  if (ft == 1 || ft == 4) fl |= 8;
  VP_ASSERT(pvt_state.num_sats == IN.pvt.num_sats && pvt_state.flags == fl && pvt_state.fix_type == ft, "fix remembered");
  if (ncb) {
    VP_ASSERT(ty[0] == SbpMsgPosLlh && g_llh.tow == IN.pvt.i_tow && g_llh.lat == lat && g_llh.lon == lon && g_llh.height == h, "position");
    VP_ASSERT(g_llh.h_accuracy == U16SAT(IN.pvt.horizontal_accuracy) && g_llh.v_accuracy == U16SAT(IN.pvt.vertical_accuracy) && g_llh.n_sats == IN.pvt.num_sats && g_llh.flags == fl, "accuracy, satellites, fix");
  }
  VP_COVER(ncb == 1 && fl == 12, "fixed with INS");
}
void h_hnr(void) {
  VP_TAKE(IN);
  init();
  S.use_hnr = IN.flag & 1;
  S.last_orient_euler = IN.oe;
  pvt_state.num_sats = IN.ps[0]; pvt_state.flags = IN.ps[1]; pvt_state.fix_type = IN.ps[2];
  VP_ASSUME(IN.hnr.heading_vehicle > -36000001 && IN.hnr.heading_vehicle < 36000001);
  double lat = 1e-7 * IN.hnr.lat, lon = 1e-7 * IN.hnr.lon, h = 1e-3 * IN.hnr.height;
  VP_ASSUME(lat == lat && lon == lon && h == h);
  float ya = (float)(IN.hnr.heading_acc * 1e-5);
  run(UBX_CLASS_HNR, UBX_MSG_HNR_PVT);
  VP_ASSERT(ncb == (!IN.rc && (IN.flag & 1) ? 2 : 0), "sent when high rate navigation is used");
  if (ncb) {
    VP_ASSERT(ty[0] == SbpMsgPosLlh && g_llh.tow == IN.hnr.i_tow && g_llh.lat == lat && g_llh.lon == lon && g_llh.height == h, "position");
    VP_ASSERT(g_llh.h_accuracy == U16SAT(IN.hnr.horizontal_accuracy) && g_llh.v_accuracy == U16SAT(IN.hnr.vertical_accuracy) && g_llh.n_sats == IN.ps[0] && g_llh.flags == IN.ps[1], "accuracy; satellites and fix of the last NAV-PVT");
    VP_ASSERT(ty[1] == SbpMsgOrientEuler && g_oe.tow == IN.hnr.i_tow && g_oe.yaw == IN.hnr.heading_vehicle * 10 && (g_oe.yaw_accuracy == ya || ya != ya), "heading");
    VP_ASSERT(g_oe.roll == IN.oe.roll && g_oe.pitch == IN.oe.pitch && g_oe.flags == IN.oe.flags, "roll and pitch of the last NAV-ATT");
  }
  VP_COVER(ncb == 2, "reached");
}
void h_att(void) {
  VP_TAKE(IN);
  init();
  S.use_hnr = IN.flag & 1;
  S.last_orient_euler = IN.oe;
  pvt_state.fix_type = IN.ps[2];
#define DEG(x) VP_ASSUME((x) > -36000001 && (x) < 36000001)
  DEG(IN.att.roll); DEG(IN.att.pitch); DEG(IN.att.heading);
  float a[3] = {(float)(IN.att.acc_roll * 1e-5), (float)(IN.att.acc_pitch * 1e-5), (float)(IN.att.acc_heading * 1e-5)};
  for (int i = 0; i < 3; i++) VP_ASSUME(a[i] == a[i]);
  run(UBX_CLASS_NAV, UBX_MSG_NAV_ATT);
  VP_ASSERT(ncb == (!IN.rc && !(IN.flag & 1)), "sent unless high rate navigation is used");
  if (IN.rc) { VP_ASSERT(S.last_orient_euler.roll == IN.oe.roll && S.last_orient_euler.tow == IN.oe.tow, "nothing kept"); return; }
  const sbp_msg_orient_euler_t *o = ncb ? &g_oe : &S.last_orient_euler;
  VP_ASSERT(o->tow == IN.att.i_tow && o->roll == IN.att.roll * 10 && o->pitch == IN.att.pitch * 10 && o->yaw == IN.att.heading * 10, "attitude in microdegrees");
  VP_ASSERT(o->roll_accuracy == a[0] && o->pitch_accuracy == a[1] && o->yaw_accuracy == a[2], "accuracies in degrees");
  VP_ASSERT(o->flags == (IN.ps[2] == 1 || IN.ps[2] == 4), "INS used");
  VP_ASSERT(S.last_orient_euler.roll == o->roll && S.last_orient_euler.pitch == o->pitch && S.last_orient_euler.yaw == o->yaw, "kept for high rate navigation");
  VP_COVER(ncb == 1, "reached");
}
void h_vel(void) {
  VP_TAKE(IN);
  init();
  pvt_state.num_sats = IN.ps[0]; pvt_state.fix_type = IN.ps[2];
#define SPD(x) VP_ASSUME((x) > -200000001 && (x) < 200000001)
  SPD(IN.vel.ecefVX); SPD(IN.vel.ecefVY); SPD(IN.vel.ecefVZ);
  run(UBX_CLASS_NAV, UBX_MSG_NAV_VELECEF);
  VP_ASSERT(ncb == !IN.rc, "sent");
  if (ncb) {
    VP_ASSERT(ty[0] == SbpMsgVelEcef && g_vel.tow == IN.vel.i_tow && g_vel.x == IN.vel.ecefVX * 10 && g_vel.y == IN.vel.ecefVY * 10 && g_vel.z == IN.vel.ecefVZ * 10, "velocity in mm/s");
    VP_ASSERT(g_vel.accuracy == (IN.vel.speed_acc > 6553 ? 65535 : IN.vel.speed_acc * 10), "accuracy in mm/s, saturated");
    VP_ASSERT(g_vel.n_sats == IN.ps[0] && g_vel.flags == (8 | (IN.ps[2] ? 5 : 0)), "satellites and flags");
  }
  VP_COVER(ncb == 1, "reached");
}
#ifdef WANT_SAT
void h_sat(void) {
  VP_TAKE(IN);
  init();
  IN.rc = 0;
  static uint8_t az[N + 1], cn[N + 1];
  for (int i = 0; i < N; i++) {
    if (N > 3 && i && i != 62 && i != 63 && i != 84 && i != 85) { IN.sat[i].azim = (int16_t)(2 * i); IN.sat[i].cno = (uint8_t)(i & 63); }
    VP_ASSUME(IN.sat[i].azim >= 0 && IN.sat[i].azim <= 360 && IN.sat[i].cno <= 63);
    az[i] = (uint8_t)((IN.sat[i].azim + 1) / 2); cn[i] = (uint8_t)(4 * IN.sat[i].cno);
  }
  n_az = n_ms = 0;
  run(UBX_CLASS_NAV, UBX_MSG_NAV_SAT);
  VP_ASSERT(n_az == (N + 62) / 63 && n_ms == (N + 84) / 85 && ncb == n_az + n_ms, "number of messages");
  for (int i = 0; i < N; i++) {
    uint8_t c = (uint8_t)code_of(IN.sat[i].gnss_id, 0);
    const sbp_sv_az_el_t *a = &g_az[i / 63].azel[i % 63];
    const sbp_measurement_state_t *m = &g_ms[i / 85].states[i % 85];
    VP_ASSERT(a->sid.sat == IN.sat[i].sv_id && a->sid.code == c && a->az == az[i] && a->el == IN.sat[i].elev, "azimuth and elevation");
    VP_ASSERT(m->mesid.sat == IN.sat[i].sv_id && m->mesid.code == c && m->cn0 == cn[i], "signal state");
  }
  for (int k = 0; k < (N + 62) / 63; k++) VP_ASSERT(g_az[k].n_azel == (N - 63 * k > 63 ? 63 : N - 63 * k), "entries");
  for (int k = 0; k < (N + 84) / 85; k++) VP_ASSERT(g_ms[k].n_states == (N - 85 * k > 85 ? 85 : N - 85 * k), "entries");
  VP_COVER(1, "reached");
}
#endif
void h_status(void) {
  VP_TAKE(IN);
  init();
  gps_time_t g = IN.es.last_obs_time_gnss, l = IN.es.last_imu_time_msss;
  S.esf_state.last_obs_time_gnss = g; S.esf_state.last_imu_time_msss = l;
  VP_ASSUME(g.wn < 30000 && l.wn < 30000 && g.wn >= -1 && l.wn >= -1);
  S.esf_state.weeknumber_set = IN.flag & 1;
  double tg = NORM(0.001 * IN.st.i_tow), tl = NORM(0.001 * IN.st.msss);
  int w = (g.wn + wk(tg, g.tow)) - (l.wn + wk(tl, l.tow));
  double x = 1000.0 * (tg - tl);
  VP_ASSUME(x > -1e9 && x < 1e9);
  run(UBX_CLASS_NAV, UBX_MSG_NAV_STATUS);
  bool fix = (IN.st.fix_type == 3 || IN.st.fix_type == 4) && (IN.st.status_flags & 1), tm = (IN.st.status_flags & 12) == 12;
  bool send = !IN.rc && fix && tm && gps_time_valid(&g) && gps_time_valid(&l);
  VP_ASSERT(ncb == send, "sent exactly with a fix, a known time and both clocks");
  VP_ASSERT(S.esf_state.weeknumber_set == ((IN.flag & 1) || (!IN.rc && tm)), "week number known");
  VP_ASSERT(S.last_tow_ms == (send ? IN.st.i_tow : UINT32_MAX), "time of week");
  if (send) VP_ASSERT(ty[0] == SbpMsgGnssTimeOffset && g_off.weeks == w && g_off.milliseconds == (s32)lround(x) && g_off.microseconds == 0 && g_off.flags == 0, "GNSS minus local time");
  VP_COVER(send, "reached");
}

/* --- U07 */
void h_conv24(void) {
  VP_TAKE(IN);
  VP_ASSUME(IN.v24 < (1u << 24));
  VP_ASSERT(convert24b(IN.v24) == (IN.v24 & 0x800000 ? (int32_t)IN.v24 - 16777216 : (int32_t)IN.v24), "24 bit two's complement");
  double T = IN.d;
  VP_ASSUME(T == T);
  int16_t r = ubx_convert_temperature_to_bmi160(T);
  if (T >= 87) VP_ASSERT(r == INT16_MAX, "saturates");
  else if (T <= -41) VP_ASSERT(r == INT16_MIN + 1, "saturates");
  else { double e = (double)r * 0.001953125 + 23.0 - T; VP_ASSERT(e < 0.002 && e > -0.002, "temperature in 1/512 K from 23 C"); }
  VP_COVER(r == 100, "reached");
}
#ifdef WANT_MEAS
void h_meas(void) {
  VP_TAKE(IN);
  init();
  IN.rc = 0;
  S.esf_state = IN.es;
  int64_t R = IN.es.running_odo_msss;
  VP_ASSUME(R == -1 || R == IN.es.last_odo_msss);
  bool valid = FL & 8;
  uint32_t lin = IN.es.last_input_tick_count; int32_t outc = IN.es.output_tick_count;
  n_odo = n_tick = 0;
  double t = NORM(0.001 * (int64_t)IN.esf.calib), us = t * 1000000, ms = t * 1000;
  VP_ASSUME(us >= 0 && us < 604800000000.0 && ms >= 0 && ms < 604800000.0);
  run(UBX_CLASS_ESF, UBX_MSG_ESF_MEAS);
  int eo = 0, et = 0;
  bool stop = !valid;
  for (int i = 0; i < N; i++) {
    unsigned ty = IN.esf.d[i] >> 24 & 0x3f, v = IN.esf.d[i] & 0xffffff;
    if (stop || ty < 6 || ty > 11) continue;
    if (R != -1 && ((int64_t)IN.esf.calib - R > 1000 || (int64_t)IN.esf.calib < R)) { R = -1; stop = true; continue; }
    R = IN.esf.calib;
    if (ty == 11) {
      VP_ASSERT(n_odo > eo && g_odo[eo].velocity == (v & 0x800000 ? (int)v - 16777216 : (int)v) && g_odo[eo].tow == (u32)ms && g_odo[eo].flags == (2 | 3 << 3 | (v >> 23) << 5), "speed");
      eo++;
    } else {
      uint32_t c = v & 0x3fffff;
      if (lin == UINT32_MAX) { outc = (int32_t)c; lin = c; }
      else { outc = (int32_t)((uint32_t)outc + (v >> 23 ? lin - c : c - lin)); lin = c; }
      VP_ASSERT(n_tick > et && g_tick[et].ticks == outc && g_tick[et].time == (u64)us && g_tick[et].flags == 2 && g_tick[et].source == (ty == 8 ? 1 : ty == 6 ? 2 : ty == 7 ? 3 : 0), "wheel ticks");
      et++;
    }
  }
  VP_ASSERT(n_odo == eo && n_tick == et && ncb == eo + et, "number of messages");
  VP_ASSERT(S.esf_state.running_odo_msss == R && (R == -1 || S.esf_state.last_odo_msss == R), "time reference");
  VP_ASSERT(S.esf_state.last_input_tick_count == lin && S.esf_state.output_tick_count == outc, "tick counters");
  VP_COVER(N < 2 || (et == 1 && eo == 1), "both");
}
#endif
#ifdef WANT_RAW
static int axis(unsigned t) { return t == 14 ? 0 : t == 13 ? 1 : t == 5 ? 2 : t == 16 ? 3 : t == 17 ? 4 : t == 18 ? 5 : -1; }
static int16_t scaled(int ax, uint32_t v) {
  int s = v & 0x800000 ? (int)v - 16777216 : (int)v;
  return ax < 3 ? float_to_s16_clamped(ldexpf(1, -12) * s / (float)(125.0 / 32768.0)) : float_to_s16_clamped(ldexpf(1, -10) * s / (float)(4.0 * 9.80665 / 32768.0));
}
void h_raw(void) {
  VP_TAKE(IN);
  init();
  IN.rc = 0;
  S.esf_state = IN.es;
  VP_ASSUME(IN.es.running_imu_msss >= -1 && IN.es.running_imu_msss < (1ll << 40) && IN.es.imu_raw_msgs_sent <= 20);
  S.esf_state.temperature_set = IN.flag & 1;
  double temp = IN.es.last_imu_temp;
  VP_ASSUME(temp == temp);
  bool tset = IN.flag & 1;
#ifdef ORDER
  static const uint8_t ord[] = ORDER;
  for (int i = 0; i < N; i++) IN.esf.d[i] = (uint32_t)ord[i] << 24 | (i & 1 ? 0x800123u + (uint32_t)i * 0x10407 : 0x123u + (uint32_t)i * 0x4070); /* values: h_raw without ORDER */
#endif
#ifdef ORDER
  for (int i = 0; i < N; i++) IN.esf.t[i] = (0xfffff0u + 5 * i) & 0xffffff;
#else
  for (int i = 0; i < N; i++) IN.esf.t[i] &= 0xffffff;
#endif
  static int16_t val[N]; static double tw[N];
  int64_t R = IN.es.running_imu_msss, Q = R == -1 ? IN.esf.msss : R + (uint32_t)(IN.esf.msss - IN.es.last_imu_msss);
  bool reset = R != -1 && (uint32_t)(IN.esf.msss - IN.es.last_imu_msss) > 1000;
  double first = 0.001 * Q;
  for (int i = 0; i < N; i++) {
    int ax = axis(IN.esf.d[i] >> 24);
    if (ax >= 0) val[i] = scaled(ax, IN.esf.d[i] & 0xffffff);
    int32_t df = (int32_t)(IN.esf.t[i] - IN.esf.t[0]);
    if (df < 0) df += 1 << 24;
    tw[i] = NORM(39.0625e-6 * df + first - 0.05);
    double ms = tw[i] * 1000;
    VP_ASSUME(ms >= 0 && ms < 604800000.0);
    double fr = (ms - (u32)ms) * 256.0;
    VP_ASSUME(fr >= 0 && fr < 256.0);
  }
  n_raw = 0;
  run(UBX_CLASS_ESF, UBX_MSG_ESF_RAW);
  int em = 0, ec = 0;
  unsigned seen = 0;
  uint32_t sent = IN.es.imu_raw_msgs_sent;
  int16_t cur[6] = {0};
  bool stop = false;
  for (int i = 0; i < N; i++) {
    int ax = axis(IN.esf.d[i] >> 24);
    if (!stop && IN.esf.d[i] >> 24 == 12) { uint32_t v = IN.esf.d[i] & 0xffffff; temp = 0.01 * (v & 0x800000 ? (int)v - 16777216 : (int)v); tset = true; }
    if (stop || ax < 0) continue;
    if (reset) { stop = true; continue; }
    cur[ax] = val[i];
    if (seen >> ax & 1) { stop = true; continue; }
    seen |= 1u << ax;
    if (seen == 63) {
      VP_ASSERT(n_raw > em, "sent");
      if (sent % 20 == 0) { VP_ASSERT(ncb > ec && ty[ec] == SbpMsgImuAux, "auxiliary message first"); ec++; sent = 0; }
      VP_ASSERT(ncb > ec && ty[ec] == SbpMsgImuRaw, "IMU message"); ec++; sent++;
      const sbp_msg_imu_raw_t *m = &g_raw[em++];
      VP_ASSERT(m->gyr_x == cur[0] && m->gyr_y == cur[1] && m->gyr_z == cur[2] && m->acc_x == cur[3] && m->acc_y == cur[4] && m->acc_z == cur[5], "the six readings");
      double ms = tw[i] * 1000;
      VP_ASSERT(m->tow == ((u32)ms | 1u << 30) && m->tow_f == (u8)(u32)((ms - (u32)ms) * 256.0), "time of the sample");
      seen = 0;
    }
  }
  VP_ASSERT(n_raw == em && ncb == ec, "number of messages");
  VP_ASSUME(temp == temp);
  VP_ASSERT(S.esf_state.imu_raw_msgs_sent == sent && S.esf_state.temperature_set == tset && S.esf_state.last_imu_temp == temp, "state kept");
  if (ncb && ty[0] == SbpMsgImuAux && IN.es.imu_raw_msgs_sent % 20 == 0) VP_ASSERT(g_aux.imu_type == 0 && g_aux.imu_conf == 0x41, "IMU configuration: 4 g, 125 deg/s");
#ifndef ORDER
  if (reset) { bool any = false; for (int i = 0; i < N; i++) any |= axis(IN.esf.d[i] >> 24) >= 0; VP_ASSERT(S.esf_state.running_imu_msss == (any ? -1 : R), "restart after a gap"); }
#endif
  VP_COVER(1, "reached");
}
void h_aux(void) {
  VP_TAKE(IN);
  init();
  S.esf_state.temperature_set = IN.flag & 1;
  S.esf_state.last_imu_temp = IN.d;
  VP_ASSUME(IN.d > -60 && IN.d < 100);
  send_imu_aux(&S);
  VP_ASSERT(ncb == 1 && ty[0] == SbpMsgImuAux && g_aux.imu_type == 0 && g_aux.imu_conf == 0x41, "IMU configuration: 4 g, 125 deg/s");
  VP_ASSERT(g_aux.temp == (IN.flag & 1 ? ubx_convert_temperature_to_bmi160(IN.d) : -32768), "temperature, or invalid");
  VP_COVER(1, "reached");
}
void h_clamp(void) {
  VP_TAKE(IN);
  float v = IN.f;
  VP_ASSUME(v == v);
  int16_t r = float_to_s16_clamped(v);
  if (v < -32768) VP_ASSERT(r == -32768, "saturates below");
  else if (v > 32767) VP_ASSERT(r == 32767, "saturates above");
  else { float d = (float)r - v; VP_ASSERT(d <= 0.5f && d >= -0.5f, "nearest"); }
  VP_COVER(v == 1.5f, "reached");
}
#endif

/* --- U08 */
void h_disp(void) {
  VP_TAKE(IN);
  init();
  IN.rc = 1;
  called = 0; sub = 0;
  u8 c = IN.data[0], m = IN.data[1];
  VP_ASSUME(!(c == 0x0A && m == 0x09));
  run(c, m);
  int want = c == 0x28 && m == 0x00 ? 1 : c == 2 && m == 0x15 ? 2 : c == 1 && m == 5 ? 3 : c == 1 && m == 7 ? 4 : c == 1 && m == 0x11 ? 5 : c == 1 && m == 0x35 ? 6 : c == 1 && m == 3 ? 7 : c == 2 && m == 0x13 ? 8 : c == 0x10 && m == 2 ? 9 : c == 0x10 && m == 3 ? 10 : 0;
  VP_ASSERT(called == want, "decoder of the message class and id");
  VP_ASSERT(ncb == 0 && sub == 0, "nothing from refused or unknown messages");
  VP_COVER(want == 10, "reached");
}
void h_short(void) {
  VP_TAKE(IN);
  init();
  static u8 one8[1];
  one8[0] = IN.data[0];
  for (unsigned n = 0; n < 2; n++) {
    swiftnav_bytestream_init(&bs, one8, n);
    ubx_handle_frame(&bs, &S);
    VP_ASSERT(ncb == 0 && called == 0, "nothing from an empty frame");
  }
  VP_COVER(1, "reached");
}
void h_sfrbx(void) {
  VP_TAKE(IN);
  init();
  IN.rc = 0;
  S.last_tow_ms = IN.tow_ms;
  sub = 0;
  run(UBX_CLASS_RXM, UBX_MSG_RXM_SFRBX);
  int g = IN.sf.gnss_id;
  int want = g == 0 ? 1 : g == 3 ? 2 : g == 2 ? 3 : g == 6 ? 4 : g == 1 && IN.tow_ms <= 604800000u ? 5 : 0;
  VP_ASSERT(sub == want, "decoder of the constellation");
  if (sub) {
    VP_ASSERT(sub_prn == IN.sf.sat_id && sub_sz == IN.sf.num_words, "satellite and number of words");
    for (int i = 0; i < 10; i++) VP_ASSERT(sub_w[i] == IN.sf.data_words[i], "navigation words");
  }
  if (sub == 4) VP_ASSERT(sub_fcn == IN.sf.freq_id, "frequency channel");
  if (sub == 5) VP_ASSERT(sub_tow == (IN.tow_ms >= 1120 ? IN.tow_ms - 1120 : IN.tow_ms + 604800000u - 1120) && sub_sid == IN.sid && sub_ctx == &ctxobj, "approximate time of transmission");
  VP_ASSERT(ncb == 0, "nothing else sent");
  VP_COVER(sub == 5 && IN.tow_ms < 1120, "wrap");
}
void h_fwd(void) {
  VP_TAKE(IN);
  init();
  run(0x0A, 0x09);
  VP_ASSERT(ncb == 1 && ty[0] == SbpMsgFwd && g_fwd.source == 0 && g_fwd.protocol == 1 && g_fwd.n_fwd_payload == 24, "forwarded");
  for (int i = 2; i < 24; i++) VP_ASSERT((u8)g_fwd.fwd_payload[i] == IN.data[i], "payload forwarded");
  VP_ASSERT((u8)g_fwd.fwd_payload[0] == 0x0A && (u8)g_fwd.fwd_payload[1] == 0x09, "class and id forwarded");
  static u8 big[300];
  big[0] = 0x0A; big[1] = 9;
  swiftnav_bytestream_init(&bs, big, 300);
  ubx_handle_frame(&bs, &S);
  VP_ASSERT(ncb == 1, "too large to forward: nothing");
  VP_COVER(1, "reached");
}
void h_init(void) {
  VP_TAKE(IN);
  ubx_sbp_init(&S, cb, &ctxobj);
  VP_ASSERT(S.sender_id == 61568 && !S.use_hnr && S.last_tow_ms == UINT32_MAX && !S.leap_second_known && S.index == 0 && S.bytes_in_buffer == 0, "start state");
  VP_ASSERT(!gps_time_valid(&S.esf_state.last_obs_time_gnss) && !gps_time_valid(&S.esf_state.last_imu_time_msss) && S.esf_state.running_imu_msss == -1 && S.esf_state.running_odo_msss == -1 && S.esf_state.last_input_tick_count == UINT32_MAX && !S.esf_state.temperature_set && !S.esf_state.weeknumber_set, "nothing known");
  ubx_set_hnr_flag(&S, IN.flag & 1);
  VP_ASSERT(S.use_hnr == (IN.flag & 1), "high rate navigation");
  VP_COVER(1, "reached");
}

/* N05: one round of the Novatel parser loop from an ARBITRARY buffer state.
 * Any reachable state satisfies n <= 4096, so proving one round for every such
 * state (and every amount delivered by the read callback) is the induction step
 * over the whole byte stream.  The CRC and the body decoders are replaced by
 * contracts (N02-N04 prove them). */
#include "vp.h"
#define CAP 4096u
#define PRE_N 64 /* bytes of the buffer shown in a counterexample */
struct in { uint8_t b[PRE_N]; uint16_t n, k; uint32_t crc, fcrc; int32_t id0, id1; uint8_t err; };
VP_INPUT(struct in, IN);
uint32_t nov_process(uint32_t n, int id0, int id1, void *ctx);

static unsigned reads, crcs, bodies, handled[2], order;
static const uint8_t *base;
static uint32_t tot, consumed, remain;
static uint32_t exp_id, exp_len, exp_week, exp_ms, exp_hdr, body_id;
static const void *body_ptr;
static int exp_frame, exp_deliver, exp_crc_asked;

static uint32_t le(const uint8_t *p, int sz) {
  uint32_t v = 0;
  for (int i = sz - 1; i >= 0; i--) v = (v << 8) | p[i];
  return v;
}
int nov_read_cb(uint8_t *buf, uint32_t cap, void *ctx) {
  VP_ASSERT(ctx == (void *)&IN, "context handed back");
  if (reads++ == 0) {
    VP_ASSERT(buf == base + IN.n && cap == CAP - IN.n, "asks for the free space");
    return IN.err ? -1 : (int)IN.k;
  }
  VP_ASSERT(buf == base + remain && cap == CAP - remain, "reads behind the kept bytes");
  return -1;
}
uint32_t _ZN7Novatel10CrcChecker7get_crcEPKhj(const uint8_t *p, uint32_t n) {
  VP_ASSERT(p == base, "CRC from the first sync byte");
  VP_ASSERT(n == exp_hdr + exp_len && n + 4 <= tot, "CRC over header and body");
  crcs++;
  return IN.crc;
}
static void body(int id, const void *self, const uint8_t *p, size_t n) {
  VP_ASSERT(exp_deliver, "a body is decoded only for a verified frame of matching length");
  VP_ASSERT(exp_id == (uint32_t)id, "decoder matches the message id");
  VP_ASSERT(p == base + exp_hdr && n == exp_len, "decoder gets the body");
  bodies++;
  body_ptr = self;
}
#define BODY(NAME, ID, SELF) void NAME(void *self, const uint8_t *p, size_t n) { body(ID, self, p, n); }
BODY(_ZN7Novatel7Message10GPSEPHEM_t9FromBytesEPKhm, 7, 0)
BODY(_ZN7Novatel7Message9BESTPOS_t9FromBytesEPKhm, 42, 0)
BODY(_ZN7Novatel7Message9BESTVEL_t9FromBytesEPKhm, 99, 0)
BODY(_ZN7Novatel7Message10RANGECMP_t9FromBytesEPKhm, 140, 0)
BODY(_ZN7Novatel7Message8INSATT_t9FromBytesEPKhm, 263, 0)
BODY(_ZN7Novatel7Message14GLOEPHEMERIS_t9FromBytesEPKhm, 723, 0)
BODY(_ZN7Novatel7Message10RAWIMUSX_t9FromBytesEPKhm, 1462, 0)
void nov_handler(int which, uint16_t id, uint16_t len, uint16_t week, int32_t ms, const void *bd) {
  VP_ASSERT(exp_deliver, "handler called only for a verified frame");
  VP_ASSERT(id == exp_id && len == exp_len && week == exp_week && (uint32_t)ms == exp_ms, "header fields");
  VP_ASSERT(bd == body_ptr, "decoded body handed over");
  VP_ASSERT((which ? IN.id1 : IN.id0) == (int32_t)id, "handler registered for this id");
  handled[which]++;
}
#ifdef VP_CPROVER
/* contract of the library's memmove, for the one use the parser makes of it */
static unsigned moved;
void vp_memmove(void *dst, const void *src, size_t n) {
  VP_ASSERT(dst == (void *)base && (const uint8_t *)src == base + consumed && n == remain, "kept bytes move to the front");
  moved++;
}
#endif
static const void *fun[2];
#ifdef VP_CPROVER
/* std::function<void(const BinaryHeader *, const void *)>: the two registered
 * handlers are set, every other one is empty */
uint8_t _ZNKSt8functionIFvPKN7Novatel12BinaryHeaderEPKvEEcvbEv(uint8_t *self) { return self == fun[0] || self == fun[1]; }
struct hdr { uint16_t message_len, message_id, week; int32_t ms; };
void _ZNKSt8functionIFvPKN7Novatel12BinaryHeaderEPKvEEclES3_S5_(uint8_t *self, uint8_t *h, uint8_t *bd) {
  VP_ASSERT(self == fun[0] || self == fun[1], "only registered handlers are called");
  const struct hdr *hh = (const struct hdr *)h;
  nov_handler(self == fun[1], hh->message_id, hh->message_len, hh->week, hh->ms, bd);
}
#endif
static uint32_t body_size(uint32_t id, const uint8_t *b) {
  switch (id) {
    case 7: return 224;
    case 42: return 72;
    case 99: return 44;
    case 140: { uint32_t c = le(b, 4); return c > 200 ? 0xffffffffu : 4 + 24 * c; }
    case 263: return 40;
    case 723: return 144;
    case 1462: return 40;
    default: return 0xffffffffu;
  }
}
static uint8_t old[CAP];
static const uint8_t *B;
/* the parser exists, its buffer has arbitrary content: fix the expectations */
void nov_begin(uint8_t *buf, const void *f0, const void *f1) {
  fun[0] = f0; fun[1] = f1;
  base = buf;
#ifdef VP_CPROVER
  B = buf;
  for (int i = 0; i < PRE_N; i++) VP_ASSUME(buf[i] == IN.b[i]);
#else
  memcpy(buf, IN.b, PRE_N);
  B = IN.b;
#endif
  tot = IN.n + IN.k;
  consumed = 1;
  if (tot >= 32 && B[0] == 0xAA && B[1] == 0x44 && B[2] == 0x12 && B[3] == 28) {
    exp_hdr = 28;
    exp_len = le(B + 8, 2); exp_id = le(B + 4, 2); exp_week = le(B + 14, 2); exp_ms = le(B + 16, 4);
    exp_frame = exp_len <= tot - 32;
  } else if (tot >= 16 && B[0] == 0xAA && B[1] == 0x44 && B[2] == 0x13) {
    exp_hdr = 12;
    exp_len = B[3]; exp_id = le(B + 4, 2); exp_week = le(B + 6, 2); exp_ms = le(B + 8, 4);
    exp_frame = exp_len <= tot - 16;
  }
  exp_crc_asked = exp_frame;
#ifdef VP_CPROVER
  if (exp_frame) VP_ASSUME(le(B + exp_hdr + exp_len, 4) == IN.fcrc);
#else
  if (exp_frame && exp_hdr + exp_len >= PRE_N) for (int i = 0; i < 4; i++) buf[exp_hdr + exp_len + i] = (uint8_t)(IN.fcrc >> (8 * i));
  memcpy(old, buf, CAP);
  B = old;
#endif
  exp_frame = exp_frame && IN.crc == le(B + exp_hdr + exp_len, 4);
  if (exp_frame) {
    consumed = exp_hdr + exp_len + 4;
    exp_deliver = body_size(exp_id, B + exp_hdr) == exp_len && (exp_id != 140 || exp_len >= 4);
  }
  remain = tot - consumed;
  if (IN.err) { tot = IN.n; exp_deliver = 0; }
}
void nov_end(const uint8_t *buf) {
  if (IN.err || tot == 0) return;
#ifdef VP_CPROVER
  VP_ASSERT(moved == 1 || remain == 0, "later bytes kept in order");
#else
  VP_ASSERT(memcmp(buf, B + consumed, remain) == 0, "later bytes kept in order");
#endif
}
void h_round(void) {
  VP_TAKE(IN);
  VP_ASSUME(IN.n <= CAP && IN.k <= CAP - IN.n);
  uint32_t left = nov_process(IN.n, IN.id0, IN.id1, &IN);
  if (IN.err) {
    VP_ASSERT(reads == 1 && left == IN.n && bodies == 0, "read error ends processing, buffer kept");
  } else if (tot == 0) {
    VP_ASSERT(reads == 1 && left == 0 && bodies == 0, "nothing to read, nothing buffered: returns");
  } else {
    VP_ASSERT(left == remain, "exactly the frame, or one byte, is dropped");
    VP_ASSERT(reads == (remain ? 2u : 1u), "goes on while bytes are left");
    VP_ASSERT(crcs == (exp_crc_asked ? 1u : 0u), "CRC is checked for every complete frame");
    VP_ASSERT(bodies == (exp_deliver ? 1u : 0u), "verified body decoded once");
    VP_ASSERT(handled[0] == (exp_deliver && IN.id0 == (int32_t)exp_id ? 1u : 0u), "first handler once");
    VP_ASSERT(handled[1] == (exp_deliver && IN.id1 == (int32_t)exp_id ? 1u : 0u), "second handler once");
  }
  VP_COVER(!IN.err && exp_deliver && exp_hdr == 28 && exp_id == 140 && remain == 5, "observation frame delivered");
  VP_COVER(!IN.err && exp_deliver && exp_hdr == 12 && handled[0] && handled[1], "short frame to two handlers");
  VP_COVER(!IN.err && exp_crc_asked && !exp_frame, "bad CRC");
  VP_COVER(!IN.err && tot == 0, "empty");
}

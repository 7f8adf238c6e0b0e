/* N01-N04, N06: Novatel binary decoding (the C++ sources, through LLVM IR). */
#include "vp.h"
uint64_t nov_le(int k, const uint8_t *p);
uint64_t nov_bits64(const uint8_t *p, size_t off, size_t n);
uint32_t nov_bits32(const uint8_t *p, size_t off, size_t n);
uint16_t nov_bits16(const uint8_t *p, size_t off, size_t n);
uint8_t nov_bits8(const uint8_t *p, size_t off, size_t n);
uint32_t nov_crc(const uint8_t *p, uint32_t n);
void nov_hdr_short(const uint8_t *p, uint64_t *f);
void nov_hdr_regular(const uint8_t *p, uint64_t *f);
int nov_bestpos(const uint8_t *b, size_t n, uint64_t *f);
int nov_bestvel(const uint8_t *b, size_t n, uint64_t *f);
int nov_gloephemeris(const uint8_t *b, size_t n, uint64_t *f);
int nov_gpsephem(const uint8_t *b, size_t n, uint64_t *f);
int nov_insatt(const uint8_t *b, size_t n, uint64_t *f);
int nov_rawimusx(const uint8_t *b, size_t n, uint64_t *f);
uint64_t nov_rangecmp(const uint8_t *b, size_t n, size_t r, uint64_t *f);

#ifndef NB
#define NB 256
#endif
struct in { uint8_t b[NB]; uint32_t q; uint8_t r; };
VP_INPUT(struct in, IN);

/* specification: little-endian number of sz bytes at p */
static uint64_t le(const uint8_t *p, int sz) {
  uint64_t v = 0;
  for (int i = sz - 1; i >= 0; i--) v = (v << 8) | p[i];
  return v;
}

void h_le(void) {
  VP_TAKE(IN);
  VP_ASSERT(nov_le(0, IN.b + 1) == le(IN.b + 1, 2), "uint16");
  VP_ASSERT(nov_le(1, IN.b + 3) == le(IN.b + 3, 4), "uint32");
  VP_ASSERT(nov_le(2, IN.b + 5) == le(IN.b + 5, 4), "int32");
  uint64_t d = nov_le(3, IN.b + 9), f = nov_le(4, IN.b + 7);
  VP_ASSERT(d == le(IN.b + 9, 8), "double");
  VP_ASSERT(f == le(IN.b + 7, 4), "float");
  VP_COVER(IN.b[9] == 7 && IN.b[16] == 0x40, "some double");
}

/* bit k of the field is bit (off + k) % 8, counted from the least significant, of byte (off + k) / 8 */
static uint64_t spec_bits(const uint8_t *w, uint32_t r, uint32_t n) {
  unsigned __int128 v = ((unsigned __int128)le(w + 8, 8) << 64) | le(w, 8);
  v >>= r;
  return n == 64 ? (uint64_t)v : (uint64_t)v & (((uint64_t)1 << n) - 1);
}
#ifndef VP_LO
#define VP_LO 0
#define VP_HI 8
#endif
/* every width, every alignment, at any byte position (window of 16 bytes) */
void h_bits(void) {
  VP_TAKE(IN);
#ifdef VP_ANYPOS
  VP_ASSUME(IN.q <= 0x1fffff00u);
#else
  IN.q = 0;
#endif
#ifdef VP_CPROVER
  const uint8_t *base = IN.b - IN.q;
#else
  const uint8_t *base = (const uint8_t *)((uintptr_t)IN.b - IN.q);
#endif
  for (uint32_t n = VP_LO; n <= VP_HI; n++)
    for (uint32_t r = 0; r < 8; r++) {
      size_t off = 8 * (size_t)IN.q + r;
      uint64_t want = spec_bits(IN.b, r, n);
      VP_ASSERT(nov_bits64(base, off, n) == want, "64-bit reader");
      if (n <= 32) VP_ASSERT(nov_bits32(base, off, n) == want, "32-bit reader");
      if (n <= 16) VP_ASSERT(nov_bits16(base, off, n) == want, "16-bit reader");
      if (n <= 8) VP_ASSERT(nov_bits8(base, off, n) == want, "8-bit reader");
    }
  #ifdef VP_ANYPOS
  VP_COVER(IN.q == 1234567, "far into the buffer");
#else
  VP_COVER(IN.b[0] == 0x81, "reached");
#endif
}

void h_headers(void) {
  VP_TAKE(IN);
  uint64_t f[12];
  const uint8_t *b = IN.b;
  nov_hdr_short(b, f);
  VP_ASSERT(f[0] == b[0] && f[1] == le(b + 1, 2) && f[2] == le(b + 3, 2) && f[3] == le(b + 5, 4), "short header");
  nov_hdr_regular(b, f);
  VP_ASSERT(f[1] == le(b, 2), "id");
  VP_ASSERT(f[4] == b[2], "type");
  VP_ASSERT(f[5] == b[3], "port");
  VP_ASSERT(f[0] == le(b + 4, 2), "length");
  VP_ASSERT(f[6] == le(b + 6, 2), "sequence");
  VP_ASSERT(f[7] == b[8], "idle time");
  VP_ASSERT(f[8] == b[9], "time status");
  VP_ASSERT(f[2] == le(b + 10, 2), "week");
  VP_ASSERT(f[3] == le(b + 12, 4), "ms");
  VP_ASSERT(f[9] == le(b + 16, 4), "receiver status");
  VP_ASSERT(f[10] == le(b + 20, 2), "reserved");
  VP_ASSERT(f[11] == le(b + 22, 2), "software version");
  VP_COVER(f[0] > 300 && f[3] == 0x80000000u, "long message, negative ms");
}

/* member k of the structure occupies w[k] bytes, in order, no gaps */
static void layout(const uint64_t *f, int got, const char *w, size_t total) {
  size_t off = 0;
  int k = 0;
  for (; w[k] != 0; k++) {
    int sz = w[k] - '0';
    VP_ASSERT(f[k] == le(IN.b + off, sz), "member holds its bytes");
    off += (size_t)sz;
  }
  VP_ASSERT(k == got, "all members");
  VP_ASSERT(off == total, "whole body used");
}
void h_layouts(void) {
  VP_TAKE(IN);
  uint64_t f[40];
  int k;
  k = nov_bestpos(IN.b, 72, f); layout(f, k, "448884444411114411111111", 72);
  k = nov_bestvel(IN.b, 44, f); layout(f, k, "44448884", 44);
  k = nov_gloephemeris(IN.b, 144, f); layout(f, k, "2211244224488888888888844444", 144);
  VP_COVER(IN.b[0] == 9, "reached");
}
void h_layouts2(void) {
  VP_TAKE(IN);
  uint64_t f[40];
  int k;
  k = nov_gpsephem(IN.b, 224, f); layout(f, k, "48444448888888888888888488888488", 224);
  k = nov_insatt(IN.b, 40, f); layout(f, k, "488884", 40);
  k = nov_rawimusx(IN.b, 40, f);
  for (int j = 6; j <= 9; j += 3) { /* the Y axis is reported negated; the most negative value saturates */
    uint32_t raw = (uint32_t)le(IN.b + (j == 6 ? 20 : 32), 4);
    VP_ASSERT(f[j] == (raw == 0x80000000u ? 0x7fffffffu : (uint32_t)(0u - raw)), "Y axis negated");
    f[j] = raw;
  }
  layout(f, k, "11284444444", 40);
  VP_COVER(le(IN.b + 20, 4) == 0x80000000u, "most negative");
}

#ifdef VP_CONTRACT_BITS
/* contract of the bit-field reader (proved in N01): touches only the field's bytes */
uint64_t _ZN7Novatel4UtilL14read_le_bits64EPKhmm(const uint8_t *p, uint64_t off, uint64_t n) {
  uint64_t first = off / 8, last = (off + n - 1) / 8;
  VP_ASSERT(n >= 1 && n <= 64, "width in range");
#ifdef VP_R /* only record VP_R is observed: the value of other fields is irrelevant */
  if (p != IN.b + 4 + 24 * VP_R) {
    VP_ASSERT(p >= IN.b && p + last < IN.b + NB, "inside the body");
    return 0;
  }
#endif
  unsigned __int128 v = 0;
  for (uint64_t i = last + 1; i > first; i--) v = (v << 8) | p[i - 1];
  return (uint64_t)(v >> (off % 8)) & (n == 64 ? ~(uint64_t)0 : ((uint64_t)1 << n) - 1);
}
#endif
/* RANGECMP: record r of a message of NREC records */
#ifndef NREC
#define NREC 2
#endif
static uint64_t fld(const uint8_t *rec, uint32_t bit, uint32_t n) { return spec_bits(rec + bit / 8, bit % 8, n); }
void h_rangecmp(void) {
  VP_TAKE(IN);
  uint64_t f[11];
  uint64_t cnt = NREC;
  for (int i = 0; i < 4; i++) IN.b[i] = (uint8_t)(cnt >> (8 * i));
#if NREC == 0
  uint64_t got = nov_rangecmp(IN.b, 4, 0, f);
  VP_ASSERT(got == 0, "no records");
  VP_COVER(1, "reached");
#else
#ifdef VP_R
  IN.r = VP_R;
#endif
  VP_ASSUME(IN.r < 63 && IN.r < NREC);
  uint64_t got = nov_rangecmp(IN.b, 4 + 24 * NREC, IN.r, f);
  VP_ASSERT(got == (NREC > 63 ? 63 : NREC), "record count, at most 63");
  const uint8_t *rec = IN.b + 4 + 24 * IN.r;
  uint32_t dop = (uint32_t)fld(rec, 32, 28);
  if (dop >> 27) dop |= 0xf0000000u;
  VP_ASSERT(f[0] == fld(rec, 0, 32), "tracking status");
  VP_ASSERT(f[1] == dop, "doppler, sign extended");
  VP_ASSERT(f[2] == fld(rec, 60, 36), "pseudorange");
  VP_ASSERT(f[3] == fld(rec, 96, 32), "ADR");
  VP_ASSERT(f[4] == fld(rec, 128, 4) && f[5] == fld(rec, 132, 4), "deviations");
  VP_ASSERT(f[6] == fld(rec, 136, 8), "PRN");
  VP_ASSERT(f[7] == fld(rec, 144, 21), "lock time");
  VP_ASSERT(f[8] == fld(rec, 165, 5), "C/N0");
  VP_ASSERT(f[9] == fld(rec, 170, 6), "GLONASS frequency");
  VP_ASSERT(f[10] == fld(rec, 176, 16), "reserved");
  VP_COVER(dop == 0xf8000001u, "negative doppler");
#endif
}

/* CRC: reflected polynomial 0xEDB88320, zero start, no final inversion */
static uint32_t crc_step(uint32_t c, uint8_t byte) {
  c ^= byte;
  for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1u)));
  return c;
}
#ifndef NCRC
#define NCRC 8
#endif
void h_crc(void) {
  VP_TAKE(IN);
  uint32_t want = 0;
  VP_ASSERT(nov_crc(IN.b, 0) == 0, "empty");
  for (uint32_t n = 1; n <= NCRC; n++) {
    want = crc_step(want, IN.b[n - 1]);
    VP_ASSERT(nov_crc(IN.b, n) == want, "one step per byte");
  }
  VP_COVER(IN.b[0] == 1, "reached");
}
#ifndef VP_CPROVER /* the frame part of the shim is not exercised here */
void nov_begin(uint8_t *buffer, const void *f0, const void *f1) {}
void nov_end(const uint8_t *buffer) {}
int nov_read_cb(uint8_t *buf, uint32_t n, void *ctx) { return -1; }
void nov_handler(int which, uint16_t id, uint16_t len, uint16_t week, int32_t ms, const void *body) {}
#endif

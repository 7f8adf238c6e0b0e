/* Executable contracts of the libswiftnav bit- and bytestream readers. */
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <string.h>

void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const u8 *data, u32 len) {
  buf->data = data;
  buf->offset = 0;
  buf->len = len;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf) {
  return buf->len - buf->offset;
}
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, u32 n) {
  if (n > buf->len - buf->offset) return false;
  buf->offset += n;
  return true;
}
static bool vp_bs_fits(const swiftnav_bitstream_t *buf, u32 pos, u8 n) {
  u32 left = buf->len - buf->offset;
  return pos <= left && n <= left - pos;
}
static u64 vp_bs_field(const u8 *data, u32 pos, u8 n) {
  if (n == 0) return 0;
  u32 a = pos / 8, b = (pos + n - 1) / 8;
  unsigned __int128 v = 0;
  for (u32 i = a; i <= b; i++) v = (v << 8) | data[i];
  v >>= 8 * (b + 1) - (pos + n);
  return (u64)v & (n >= 64 ? ~(u64)0 : ((u64)1 << n) - 1);
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf, u64 *out, u32 pos, u8 n) {
  if (!vp_bs_fits(buf, pos, n)) return false;
  *out = vp_bs_field(buf->data, buf->offset + pos, n);
  return true;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf, u32 *out, u32 pos, u8 n) {
  if (!vp_bs_fits(buf, pos, n)) return false;
  *out = (u32)vp_bs_field(buf->data, buf->offset + pos, n);
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf, s64 *out, u32 pos, u8 n) {
  if (!vp_bs_fits(buf, pos, n)) return false;
  u64 v = vp_bs_field(buf->data, buf->offset + pos, n);
  if (n > 0 && n < 64 && ((v >> (n - 1)) & 1u)) v |= ~(u64)0 << n;
  *out = (s64)v;
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf, s32 *out, u32 pos, u8 n) {
  s64 v;
  if (!swiftnav_bitstream_getbitsl(buf, &v, pos, n)) return false;
  *out = (s32)v;
  return true;
}

void swiftnav_bytestream_init(swiftnav_bytestream_t *buf, const u8 *data, u32 len) {
  buf->data = data;
  buf->offset = 0;
  buf->len = len;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *buf) {
  return buf->len - buf->offset;
}
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *buf, u32 n) {
  if (n > buf->len - buf->offset) return false;
  buf->offset += n;
  return true;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *buf, u32 pos, u32 n, u8 *dst) {
  u32 left = buf->len - buf->offset;
  if (pos > left || n > left - pos) return false;
  memcpy(dst, buf->data + buf->offset + pos, n);
  return true;
}

/* Interface stand-in for libswiftnav's <swiftnav/bitstream.h>.  Contract assumed
 * by every check: a read succeeds exactly when the requested bits lie inside
 * [0, len) counted from offset, yields the big-endian field (sign extended for
 * the signed readers), and changes nothing else; remove(n) advances by n bits
 * and reports failure, unchanged, when fewer than n remain. */
#ifndef SWIFTNAV_BITSTREAM_H
#define SWIFTNAV_BITSTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const u8 *data;
  u32 offset; /* bits */
  u32 len;    /* bits */
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *buf, const u8 *data, u32 len);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *buf);
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *buf, u32 n);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *buf, u32 *out, u32 pos, u8 n);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *buf, u64 *out, u32 pos, u8 n);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *buf, s32 *out, u32 pos, u8 n);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *buf, s64 *out, u32 pos, u8 n);
#ifdef __cplusplus
}
#endif
#endif

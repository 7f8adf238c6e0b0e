/* Interface stand-in for libswiftnav's <swiftnav/bytestream.h>.  Contract
 * assumed: get_bytes succeeds exactly when [offset+pos, offset+pos+n) lies
 * inside the buffer and then copies those n bytes; remove(n) advances. */
#ifndef SWIFTNAV_BYTESTREAM_H
#define SWIFTNAV_BYTESTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const u8 *data;
  u32 offset; /* bytes */
  u32 len;    /* bytes */
} swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *buf, const u8 *data, u32 len);
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *buf);
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *buf, u32 n);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *buf, u32 pos, u32 n, u8 *dst);
#ifdef __cplusplus
}
#endif
#endif

/* Interface stand-in for libswiftnav's <swiftnav/bits.h>. */
#ifndef LIBSWIFTNAV_BITS_H
#define LIBSWIFTNAV_BITS_H
#include <assert.h>
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
u32 getbitu(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count);
void bitshl(void *buf, u32 size, u32 shift);
#ifdef __cplusplus
}
#endif
#endif

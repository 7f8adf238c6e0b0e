/* Interface stand-in for libswiftnav's <swiftnav/fifo_byte.h>. */
#ifndef LIBSWIFTNAV_FIFO_BYTE_H
#define LIBSWIFTNAV_FIFO_BYTE_H
#include <swiftnav/common.h>
typedef u32 fifo_size_t;
typedef struct { fifo_size_t read_index, write_index; u8 *buffer; fifo_size_t buffer_size; } fifo_t;
#ifdef __cplusplus
extern "C" {
#endif
void fifo_init(fifo_t *fifo, u8 *buffer, fifo_size_t buffer_size);
fifo_size_t fifo_write(fifo_t *fifo, const u8 *buffer, fifo_size_t length);
fifo_size_t fifo_read(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_peek(fifo_t *fifo, u8 *buffer, fifo_size_t length);
fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length);
#ifdef __cplusplus
}
#endif
#endif

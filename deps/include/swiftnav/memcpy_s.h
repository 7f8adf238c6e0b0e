#ifndef LIBSWIFTNAV_MEMCPY_S_H
#define LIBSWIFTNAV_MEMCPY_S_H
#include <assert.h>
#include <string.h>
#define MEMCPY_S(dest, dest_size, src, n) do { assert((n) <= (dest_size)); memcpy((dest), (src), (n)); } while (0)
#endif

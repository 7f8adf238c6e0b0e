/* Interface stand-in for libswiftnav's lock time coding (DF402). */
#ifndef VP_nav_meas
#define VP_nav_meas
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);
#endif

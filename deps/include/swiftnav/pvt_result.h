/* Interface stand-in for libswiftnav's <swiftnav/pvt_result.h>: solution modes. */
#ifndef LIBSWIFTNAV_PVT_RESULT_H
#define LIBSWIFTNAV_PVT_RESULT_H
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#define POSITION_MODE_NONE 0
#define POSITION_MODE_SPP 1
#define POSITION_MODE_DGNSS 2
#define POSITION_MODE_FLOAT 3
#define POSITION_MODE_FIXED 4
#define POSITION_MODE_DEAD_RECKONING 5
#define POSITION_MODE_SBAS 6
#define VELOCITY_MODE_MASK 7
#define VELOCITY_MODE_NONE 0
#define VELOCITY_MODE_MEASURED_DOPPLER 1
#define VELOCITY_MODE_COMPUTED_DOPPLER 2
#define VELOCITY_MODE_DEAD_RECKONING 3
#define NO_TIME 0
#endif

/* Interface stand-in for libswiftnav's <swiftnav/ephemeris.h>. */
#ifndef LIBSWIFTNAV_EPHEMERIS_H
#define LIBSWIFTNAV_EPHEMERIS_H
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#define INVALID_URA_VALUE -1.0f
#define EPH_SOURCE_GAL_INAV 0
#define EPH_SOURCE_GAL_FNAV 1
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 4
#define GAL_INAV_CONTENT_BYTE 16
extern const float g_bds_ura_table[16];
typedef enum { EPH_NULL = 0 } ephemeris_status_vp_t;
typedef struct {
  double tgd_gps_s, tgd_qzss_s, tgd_bds_s[2], tgd_gal_s[2];
  double crc, crs, cuc, cus, cic, cis, dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot, af0, af1, af2;
  gps_time_t toc;
  u16 iodc;
  u16 iode;
  struct { float gps_s[2], qzss_s[2], bds_s[2], gal_s[2]; } tgd;
} ephemeris_kepler_t;
typedef struct { double gamma, tau, d_tau; double pos[3], vel[3], acc[3]; u16 fcn; u8 iod; } ephemeris_glo_t;
typedef struct { double pos[3], vel[3], acc[3]; double a_gf0, a_gf1; } ephemeris_xyz_t;
typedef struct ephemeris {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
  u8 source;
  union { ephemeris_kepler_t kepler; ephemeris_xyz_t xyz; ephemeris_glo_t glo; } data;
} ephemeris_t;
#endif

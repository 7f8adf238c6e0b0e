/* Interface stand-in for libswiftnav's <swiftnav/gnss_time.h>. */
#ifndef LIBSWIFTNAV_GNSS_TIME_H
#define LIBSWIFTNAV_GNSS_TIME_H
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WN_UNKNOWN -1
#define TOW_UNKNOWN -1
#define TOW_INVALID -1
#define GPS_WEEK_REFERENCE 1876
#define GPS_WEEK_CYCLE 1024
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK 1024
#define GPS_EPOCH 315964800
typedef struct { double tow; s16 wn; } gps_time_t;
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
typedef struct { u16 year; u16 year_day; u8 month; u8 month_day; u8 week_day; u8 hour; u8 minute; u8 second_int; double second_frac; } utc_tm;
typedef struct { double a0, a1; gps_time_t tot, t_lse; s8 dt_ls, dt_lsf; } utc_params_t;
bool gps_time_valid(const gps_time_t *t);
void normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
void add_secs(gps_time_t *t, double secs);
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
gps_time_t time2gps_t(const time_t t_unix);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *utc_params);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *utc_params);
u8 days_in_month(u16 year, u8 month);
#ifdef __cplusplus
}
#endif
#endif

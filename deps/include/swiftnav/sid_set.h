#ifndef LIBSWIFTNAV_SID_SET_H
#define LIBSWIFTNAV_SID_SET_H
#include <swiftnav/signal.h>
typedef struct { u64 sats[CODE_COUNT]; } gnss_sid_set_t;
void sid_set_init(gnss_sid_set_t *sid_set);
void sid_set_add(gnss_sid_set_t *sid_set, gnss_signal_t sid);
u32 sid_set_get_sat_count(const gnss_sid_set_t *sid_set);
bool sid_set_contains(const gnss_sid_set_t *sid_set, gnss_signal_t sid);
#endif

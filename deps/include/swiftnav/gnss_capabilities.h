#ifndef VP_gnss_capabilities
#define VP_gnss_capabilities
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#endif

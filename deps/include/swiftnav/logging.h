/* Interface stand-in for libswiftnav's <swiftnav/logging.h>: logging has no
 * effect on the verified behaviour; the arguments are still evaluated. */
#ifndef LIBSWIFTNAV_LOGGING_H
#define LIBSWIFTNAV_LOGGING_H
#include <swiftnav/common.h>
static inline void vp_log(const char *fmt, ...) { (void)fmt; }
#define LOG_EMERG 0
#define LOG_ALERT 1
#define LOG_CRITICAL 2
#define LOG_ERROR 3
#define LOG_WARN 4
#define LOG_NOTICE 5
#define LOG_INFO 6
#define LOG_DEBUG 7
#define log_info(...) vp_log(__VA_ARGS__)
#define log_warn(...) vp_log(__VA_ARGS__)
#define log_error(...) vp_log(__VA_ARGS__)
#define log_debug(...) vp_log(__VA_ARGS__)
#endif

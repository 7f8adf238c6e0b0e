#ifndef SWIFTNAV_MACROS_H
#define SWIFTNAV_MACROS_H
#ifdef VP_CPROVER
#define SWIFT_ATTR_FORMAT(fmt, arg)
#else
#define SWIFT_ATTR_FORMAT(fmt, arg) __attribute__((format(printf, fmt, arg)))
#endif
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_PACKED_STRUCT struct __attribute__((packed))
#define SWIFT_ATTR_WEAK __attribute__((weak))
#define SWIFT_ATTR_DEPRECATED
#define SWIFT_ATTR_DEPRECATED_MSG(m)
#define SWIFT_ATTR_UNUSED __attribute__((unused))
#endif

#ifndef LIBSWIFTNAV_GEOID_MODEL_H
#define LIBSWIFTNAV_GEOID_MODEL_H
float get_geoid_offset(double lat, double lon);
#endif

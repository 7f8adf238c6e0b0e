/* Interface stand-in for libswiftnav's <swiftnav/constants.h>. */
#ifndef LIBSWIFTNAV_CONSTANTS_H
#define LIBSWIFTNAV_CONSTANTS_H
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_C 299792458.0
#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define SBAS_L1_HZ 1.57542e9
#define SBAS_L5_HZ 1.17645e9
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B2_HZ 1.20714e9
#define BDS3_B1C_HZ 1.57542e9
#define BDS3_B3_HZ 1.26852e9
#define BDS3_B5_HZ 1.17645e9
#define BDS3_B7_HZ 1.20714e9
#define GAL_E1_HZ 1.57542e9
#define GAL_E5_HZ 1.17645e9
#define GAL_E6_HZ 1.27875e9
#define GAL_E7_HZ 1.20714e9
#define GAL_E8_HZ 1.191795e9
#define QZS_L1_HZ 1.57542e9
#define QZS_L2_HZ 1.22760e9
#define QZS_L5_HZ 1.17645e9
#define MAX_CHANNELS 79
#ifndef C_1_2P5
#define C_1_2P5 0.03125
#endif
#ifndef C_1_2P6
#define C_1_2P6 0.015625
#endif
#ifndef C_1_2P10
#define C_1_2P10 0.0009765625
#endif
#ifndef C_1_2P11
#define C_1_2P11 0.00048828125
#endif
#ifndef C_1_2P12
#define C_1_2P12 0.000244140625
#endif
#ifndef C_1_2P19
#define C_1_2P19 1.9073486328125e-06
#endif
#ifndef C_1_2P20
#define C_1_2P20 9.5367431640625e-07
#endif
#ifndef C_1_2P21
#define C_1_2P21 4.76837158203125e-07
#endif
#ifndef C_1_2P22
#define C_1_2P22 2.384185791015625e-07
#endif
#ifndef C_1_2P24
#define C_1_2P24 5.960464477539063e-08
#endif
#ifndef C_1_2P27
#define C_1_2P27 7.450580596923828e-09
#endif
#ifndef C_1_2P29
#define C_1_2P29 1.862645149230957e-09
#endif
#ifndef C_1_2P30
#define C_1_2P30 9.313225746154785e-10
#endif
#ifndef C_1_2P31
#define C_1_2P31 4.656612873077393e-10
#endif
#ifndef C_1_2P32
#define C_1_2P32 2.3283064365386963e-10
#endif
#ifndef C_1_2P33
#define C_1_2P33 1.1641532182693481e-10
#endif
#ifndef C_1_2P34
#define C_1_2P34 5.820766091346741e-11
#endif
#ifndef C_1_2P35
#define C_1_2P35 2.9103830456733704e-11
#endif
#ifndef C_1_2P38
#define C_1_2P38 3.637978807091713e-12
#endif
#ifndef C_1_2P40
#define C_1_2P40 9.094947017729282e-13
#endif
#ifndef C_1_2P43
#define C_1_2P43 1.1368683772161603e-13
#endif
#ifndef C_1_2P44
#define C_1_2P44 5.684341886080802e-14
#endif
#ifndef C_1_2P46
#define C_1_2P46 1.4210854715202004e-14
#endif
#ifndef C_1_2P48
#define C_1_2P48 3.552713678800501e-15
#endif
#ifndef C_1_2P50
#define C_1_2P50 8.881784197001252e-16
#endif
#ifndef C_1_2P51
#define C_1_2P51 4.440892098500626e-16
#endif
#ifndef C_1_2P55
#define C_1_2P55 2.7755575615628914e-17
#endif
#ifndef C_1_2P57
#define C_1_2P57 6.938893903907228e-18
#endif
#ifndef C_1_2P59
#define C_1_2P59 1.734723475976807e-18
#endif
#ifndef C_1_2P66
#define C_1_2P66 1.3552527156068805e-20
#endif
#ifndef C_1_2P68
#define C_1_2P68 3.3881317890172014e-21
#endif
#define UTC_SU_OFFSET 3
#define YEAR_MONTHS 12
#define MINUTE_SECS 60
#define HOUR_MINUTES 60
#define HOUR_SECS (MINUTE_SECS * HOUR_MINUTES)
#define DAY_HOURS 24
#define DAY_SECS (DAY_HOURS * HOUR_SECS)
#define WEEK_DAYS 7
#define WEEK_SECS (WEEK_DAYS * DAY_SECS)
#define SECS_MS 1000
#define SECS_US 1000000
#define SECS_NS 1000000000
#define DAY_MS (DAY_SECS * SECS_MS)
#define WEEK_MS (WEEK_SECS * SECS_MS)
#define FLOAT_EQUALITY_EPS 1e-12
#endif

/* Interface stand-in for libsbp's generated C headers: the message structures
 * (fields and types of the SBP specification), message numbers and constants
 * which gnss-converters names.  Only messages used by this repository. */
#ifndef LIBSBP_VP_V4_H
#define LIBSBP_VP_V4_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_OK 0
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID (0)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID (1)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(flags) ((u8)((flags) & 0x7))
#define SBP_MAX_PAYLOAD_LEN 255
typedef u16 sbp_msg_type_raw_t;
typedef struct { u16 wn; u32 tow; } sbp_gps_time_sec_t;
typedef struct { u32 tow; s32 ns_residual; u16 wn; } sbp_v4_gps_time_t;
typedef struct { u8 sat; u8 code; } sbp_v4_gnss_signal_t;
typedef struct { s32 i; u8 f; } sbp_carrier_phase_t;
typedef struct { s16 i; u8 f; } sbp_doppler_t;
typedef struct { sbp_v4_gps_time_t t; u8 n_obs; } sbp_observation_header_t;
typedef struct { u32 P; sbp_carrier_phase_t L; sbp_doppler_t D; u8 cn0; u8 lock; u8 flags; sbp_v4_gnss_signal_t sid; } sbp_packed_obs_content_t;
#define SBP_MSG_OBS_OBS_MAX 14u
typedef struct { sbp_observation_header_t header; sbp_packed_obs_content_t obs[SBP_MSG_OBS_OBS_MAX]; u8 n_obs; } sbp_msg_obs_t;
typedef struct { double x, y, z; } sbp_msg_base_pos_ecef_t;
typedef struct { u8 mask; s16 l1ca_bias, l1p_bias, l2ca_bias, l2p_bias; } sbp_msg_glo_biases_t;
typedef struct { sbp_v4_gnss_signal_t sid; sbp_gps_time_sec_t toe; float ura; u32 fit_interval; u8 valid; u8 health_bits; } sbp_ephemeris_common_content_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_gps_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd, c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; float af0, af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_qzss_t;
typedef struct { sbp_ephemeris_common_content_t common; float tgd1, tgd2, c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; double af0; float af1, af2; sbp_gps_time_sec_t toc; u8 iode; u16 iodc; } sbp_msg_ephemeris_bds_t;
typedef struct { sbp_ephemeris_common_content_t common; float bgd_e1e5a, bgd_e1e5b, c_rs, c_rc, c_uc, c_us, c_ic, c_is; double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot; double af0, af1; float af2; sbp_gps_time_sec_t toc; u16 iode; u16 iodc; u8 source; } sbp_msg_ephemeris_gal_t;
typedef struct { sbp_ephemeris_common_content_t common; float gamma, tau, d_tau; double pos[3]; double vel[3]; float acc[3]; u8 fcn; u8 iod; } sbp_msg_ephemeris_glo_t;
typedef struct { u8 code; s16 value; } sbp_code_biases_content_t;
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81u
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval; u8 iod_ssr; sbp_code_biases_content_t biases[SBP_MSG_SSR_CODE_BIASES_BIASES_MAX]; u8 n_biases; } sbp_msg_ssr_code_biases_t;
typedef struct { u8 code, integer_indicator, widelane_integer_indicator, discontinuity_counter; s32 bias; } sbp_phase_biases_content_t;
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30u
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval, iod_ssr, dispersive_bias, mw_consistency; u16 yaw; s8 yaw_rate; sbp_phase_biases_content_t biases[SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX]; u8 n_biases; } sbp_msg_ssr_phase_biases_t;
typedef struct { sbp_gps_time_sec_t time; sbp_v4_gnss_signal_t sid; u8 update_interval, iod_ssr; u32 iod; s32 radial, along, cross, dot_radial, dot_along, dot_cross, c0, c1, c2; } sbp_msg_ssr_orbit_clock_t;
typedef struct { sbp_v4_gnss_signal_t sid; u32 tow; u8 message_type; u8 data[27]; } sbp_msg_sbas_raw_t;
#define SBP_STRING_LEN 255
typedef struct { size_t encoded_len; char data[SBP_STRING_LEN]; } sbp_string_t;
#define SBP_MSG_LOG_TEXT_MAX 254u
typedef struct { u8 level; sbp_string_t text; } sbp_msg_log_t;
#define SBP_MSG_FWD_FWD_PAYLOAD_MAX 253u
typedef struct { u8 source; u8 protocol; char fwd_payload[SBP_MSG_FWD_FWD_PAYLOAD_MAX]; u8 n_fwd_payload; } sbp_msg_fwd_t;
typedef struct { u32 tow; u8 tow_f; s16 acc_x, acc_y, acc_z, gyr_x, gyr_y, gyr_z; } sbp_msg_imu_raw_t;
typedef struct { u8 imu_type; s16 temp; u8 imu_conf; } sbp_msg_imu_aux_t;
typedef struct { u32 tow; s32 velocity; u8 flags; } sbp_msg_odometry_t;
typedef struct { u64 time; u8 flags; u8 source; s32 ticks; } sbp_msg_wheeltick_t;
typedef struct { u32 tow; s32 roll, pitch, yaw; float roll_accuracy, pitch_accuracy, yaw_accuracy; u8 flags; } sbp_msg_orient_euler_t;
typedef struct { u32 tow; s32 x, y, z; u8 flags; } sbp_msg_angular_rate_t;
typedef struct { u32 tow; double lat, lon, height; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } sbp_msg_pos_llh_t;
typedef struct { u32 tow; double lat, lon, height; float cov_n_n, cov_n_e, cov_n_d, cov_e_e, cov_e_d, cov_d_d; u8 n_sats; u8 flags; } sbp_msg_pos_llh_cov_t;
typedef struct { u32 tow; s32 x, y, z; u16 accuracy; u8 n_sats; u8 flags; } sbp_msg_vel_ecef_t;
typedef struct { u32 tow; s32 n, e, d; u16 h_accuracy, v_accuracy; u8 n_sats; u8 flags; } sbp_msg_vel_ned_t;
typedef struct { u16 wn; u32 tow; s32 ns_residual; u8 flags; } sbp_msg_gps_time_t;
typedef struct { u8 flags; u32 tow; u16 year; u8 month, day, hours, minutes, seconds; u32 ns; } sbp_msg_utc_time_t;
typedef struct { u32 tow; u16 gdop, pdop, tdop, hdop, vdop; u8 flags; } sbp_msg_dops_t;
typedef struct { u32 tow; u16 age; } sbp_msg_age_corrections_t;
typedef struct { u32 tow; u32 heading; u8 n_sats; u8 flags; } sbp_msg_baseline_heading_t;
typedef struct { sbp_v4_gnss_signal_t sid; u8 az; s8 el; } sbp_sv_az_el_t;
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63u
typedef struct { sbp_sv_az_el_t azel[SBP_MSG_SV_AZ_EL_AZEL_MAX]; u8 n_azel; } sbp_msg_sv_az_el_t;
typedef struct { sbp_v4_gnss_signal_t mesid; u8 cn0; } sbp_measurement_state_t;
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85u
typedef struct { sbp_measurement_state_t states[SBP_MSG_MEASUREMENT_STATE_STATES_MAX]; u8 n_states; } sbp_msg_measurement_state_t;
typedef struct { u8 group_id; u8 flags; u8 n_group_msgs; u16 group_msgs[126]; } sbp_msg_group_meta_t;
typedef struct { u8 sensor_type; u8 flags; } sbp_solution_input_type_t;
typedef struct { u32 tow; u16 pdop, hdop, vdop; u16 age_corrections; u8 alignment_status; u32 last_used_gnss_pos_tow, last_used_gnss_vel_tow; sbp_solution_input_type_t sol_in[120]; u8 n_sol_in; } sbp_msg_soln_meta_t;
typedef struct { s16 weeks; s32 milliseconds; s16 microseconds; u8 flags; } sbp_msg_gnss_time_offset_t;
typedef struct { u32 time; } sbp_msg_osr_stub_t;
#ifdef VP_MSG_STRUCT /* members side by side: no function under contract reads a member it did not write */
typedef struct {
#else
typedef union {
#endif

  sbp_msg_obs_t obs; sbp_msg_base_pos_ecef_t base_pos_ecef; sbp_msg_glo_biases_t glo_biases;
  sbp_msg_ephemeris_gps_t ephemeris_gps; sbp_msg_ephemeris_qzss_t ephemeris_qzss; sbp_msg_ephemeris_bds_t ephemeris_bds;
  sbp_msg_ephemeris_gal_t ephemeris_gal; sbp_msg_ephemeris_glo_t ephemeris_glo;
  sbp_msg_ssr_code_biases_t ssr_code_biases; sbp_msg_ssr_phase_biases_t ssr_phase_biases; sbp_msg_ssr_orbit_clock_t ssr_orbit_clock;
  sbp_msg_sbas_raw_t sbas_raw; sbp_msg_log_t log; sbp_msg_fwd_t fwd; sbp_msg_imu_raw_t imu_raw; sbp_msg_imu_aux_t imu_aux;
  sbp_msg_odometry_t odometry; sbp_msg_wheeltick_t wheeltick; sbp_msg_orient_euler_t orient_euler; sbp_msg_angular_rate_t angular_rate;
  sbp_msg_pos_llh_t pos_llh; sbp_msg_pos_llh_cov_t pos_llh_cov; sbp_msg_vel_ecef_t vel_ecef; sbp_msg_vel_ned_t vel_ned;
  sbp_msg_gps_time_t gps_time; sbp_msg_utc_time_t utc_time; sbp_msg_dops_t dops; sbp_msg_age_corrections_t age_corrections;
  sbp_msg_baseline_heading_t baseline_heading; sbp_msg_sv_az_el_t sv_az_el; sbp_msg_measurement_state_t measurement_state;
  sbp_msg_gps_time_t gps_time_gnss; sbp_msg_utc_time_t utc_time_gnss; sbp_msg_pos_llh_cov_t pos_llh_cov_gnss; sbp_msg_vel_ned_t vel_ned_gnss; sbp_msg_group_meta_t group_meta; sbp_msg_soln_meta_t soln_meta; sbp_msg_gnss_time_offset_t gnss_time_offset;
} sbp_msg_t;
typedef enum {
  SbpMsgObs = 0x4A, SbpMsgBasePosEcef = 0x48, SbpMsgGloBiases = 0x75, SbpMsgEphemerisGps = 0x8A, SbpMsgEphemerisQzss = 0x8E,
  SbpMsgEphemerisBds = 0x89, SbpMsgEphemerisGal = 0x8D, SbpMsgEphemerisGlo = 0x8B, SbpMsgSsrCodeBiases = 0x5E1, SbpMsgSsrPhaseBiases = 0x5E6,
  SbpMsgSsrOrbitClock = 0x5DD, SbpMsgSbasRaw = 0x7777, SbpMsgLog = 0x401, SbpMsgFwd = 0x402, SbpMsgImuRaw = 0x900, SbpMsgImuAux = 0x901,
  SbpMsgOdometry = 0x903, SbpMsgWheeltick = 0x904, SbpMsgOrientEuler = 0x221, SbpMsgAngularRate = 0x222, SbpMsgPosLlh = 0x20A,
  SbpMsgPosLlhCov = 0x211, SbpMsgVelEcef = 0x20D, SbpMsgVelNed = 0x20E, SbpMsgGpsTime = 0x102, SbpMsgUtcTime = 0x103, SbpMsgDops = 0x208,
  SbpMsgAgeCorrections = 0x210, SbpMsgBaselineHeading = 0x20F, SbpMsgSvAzEl = 0x97, SbpMsgMeasurementState = 0x61, SbpMsgGroupMeta = 0xFF0A,
  SbpMsgSolnMeta = 0xFF0E, SbpMsgGnssTimeOffset = 0xFF07
} sbp_msg_type_t;
#define SBP_MSG_OBS 0x004A
#define SBP_MSG_BASE_POS_ECEF 0x0048
#define SBP_MSG_GLO_BIASES 0x0075
#define SBP_MSG_EPHEMERIS_GPS 0x008A
#define SBP_MSG_EPHEMERIS_QZSS 0x008E
#define SBP_MSG_EPHEMERIS_BDS 0x0089
#define SBP_MSG_EPHEMERIS_GAL 0x008D
#define SBP_MSG_EPHEMERIS_GLO 0x008B
#define SBP_MSG_SSR_CODE_BIASES 0x05E1
#define SBP_MSG_SSR_PHASE_BIASES 0x05E6
#define SBP_MSG_SSR_ORBIT_CLOCK 0x05DD
#define SBP_MSG_SBAS_RAW 0x7777
#define SBP_MSG_LOG 0x0401
#define SBP_MSG_FWD 0x0402
#define SBP_MSG_IMU_RAW 0x0900
#define SBP_MSG_IMU_AUX 0x0901
#define SBP_MSG_ODOMETRY 0x0903
#define SBP_MSG_WHEELTICK 0x0904
#define SBP_MSG_ORIENT_EULER 0x0221
#define SBP_MSG_ANGULAR_RATE 0x0222
#define SBP_MSG_POS_LLH 0x020A
#define SBP_MSG_POS_LLH_COV 0x0211
#define SBP_MSG_VEL_ECEF 0x020D
#define SBP_MSG_VEL_NED 0x020E
#define SBP_MSG_GPS_TIME 0x0102
#define SBP_MSG_UTC_TIME 0x0103
#define SBP_MSG_DOPS 0x0208
#define SBP_MSG_AGE_CORRECTIONS 0x0210
#define SBP_MSG_BASELINE_HEADING 0x020F
#define SBP_MSG_SV_AZ_EL 0x0097
#define SBP_MSG_MEASUREMENT_STATE 0x0061
#define SBP_MSG_GROUP_META 0xFF0A
#define SBP_MSG_SOLN_META 0xFF0E
typedef struct { u8 x; } sbp_state_t;
typedef struct { u8 x; } sbp_msg_callbacks_node_t;
bool sbp_msg_log_text_init_(sbp_msg_log_t *m);
void sbp_msg_log_text_init(sbp_msg_log_t *m);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *m, const char *buf, size_t len, bool should_trunc, size_t *n_written);
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *ctx);
#ifdef __cplusplus
}
#endif
#endif

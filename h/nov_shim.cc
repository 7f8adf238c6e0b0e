// Flattens the parser's structures: every member becomes the raw bits of one
// uint64_t, in declaration order.  No logic of its own.
#include <cstring>
#define private public
#include <array>
#include <functional>
#include "c/nov2sbp/parser/novatel.h"
#include "c/nov2sbp/parser/crc_checker.h"
#include "c/nov2sbp/parser/read_little_endian.h"
#undef private
using namespace Novatel;
static uint64_t u(uint8_t v) { return v; }
static uint64_t u(char v) { return (uint8_t)v; }
static uint64_t u(uint16_t v) { return v; }
static uint64_t u(uint32_t v) { return v; }
static uint64_t u(int32_t v) { return (uint32_t)v; }
static uint64_t u(uint64_t v) { return v; }
static uint64_t u(float v) { uint32_t b; memcpy(&b, &v, 4); return b; }
static uint64_t u(double v) { uint64_t b; memcpy(&b, &v, 8); return b; }
extern "C" {
uint64_t nov_le(int k, const uint8_t *p) {
  switch (k) {
    case 0: return u(Util::read_le_uint16(p));
    case 1: return u(Util::read_le_uint32(p));
    case 2: return u(Util::read_le_int32(p));
    case 3: return u(Util::read_le_double(p));
    default: return u(Util::read_le_float(p));
  }
}
uint64_t nov_bits64(const uint8_t *p, size_t off, size_t n) { return Util::read_le_bits64(p, off, n); }
uint32_t nov_bits32(const uint8_t *p, size_t off, size_t n) { return Util::read_le_bits32(p, off, n); }
uint16_t nov_bits16(const uint8_t *p, size_t off, size_t n) { return Util::read_le_bits16(p, off, n); }
uint8_t nov_bits8(const uint8_t *p, size_t off, size_t n) { return Util::read_le_bits8(p, off, n); }
uint32_t nov_crc(const uint8_t *p, uint32_t n) { return CrcChecker::get_crc(p, n); }
void nov_hdr_short(const uint8_t *p, uint64_t *f) {
  BinaryHeaderShort h;
  h.read(p);
  f[0] = h.message_len; f[1] = h.message_id; f[2] = h.week; f[3] = u(h.ms);
}
void nov_hdr_regular(const uint8_t *p, uint64_t *f) {
  BinaryHeaderRegular h;
  h.read(p);
  f[0] = h.message_len; f[1] = h.message_id; f[2] = h.week; f[3] = u(h.ms);
  f[4] = h.message_type; f[5] = h.port_addr; f[6] = h.sequence; f[7] = h.idle_time;
  f[8] = h.time_status; f[9] = h.rx_status; f[10] = h.reserved; f[11] = h.rx_software_version;
}
#define F(x) f[k++] = u(m.x);
int nov_bestpos(const uint8_t *b, size_t n, uint64_t *f) {
  Message::BESTPOS_t m; int k = 0; m.FromBytes(b, n);
  F(sol_stat) F(pos_type) F(lat) F(lon) F(hgt) F(undulation) F(datum_id) F(lat_stddev) F(lon_stddev) F(hgt_stddev)
  F(stn_id[0]) F(stn_id[1]) F(stn_id[2]) F(stn_id[3]) F(diff_age) F(sol_age) F(num_sv_tracked) F(num_sv_in_soln)
  F(num_sv_in_soln_L1) F(num_sv_in_soln_multi) F(reserved) F(ext_sol_stat) F(galileo_beidou_mask) F(gps_glonass_mask)
  return k;
}
int nov_bestvel(const uint8_t *b, size_t n, uint64_t *f) {
  Message::BESTVEL_t m; int k = 0; m.FromBytes(b, n);
  F(sol_stat) F(vel_type) F(latency) F(diff_age) F(hor_speed) F(trk_gnd) F(vert_speed) F(reserved)
  return k;
}
int nov_gloephemeris(const uint8_t *b, size_t n, uint64_t *f) {
  Message::GLOEPHEMERIS_t m; int k = 0; m.FromBytes(b, n);
  F(sloto) F(freqo) F(sat_type) F(reserved_1) F(e_week) F(e_time) F(t_offset) F(Nt) F(reserved_2) F(issue) F(health)
  F(pos_x) F(pos_y) F(pos_z) F(vel_x) F(vel_y) F(vel_z) F(LS_acc_x) F(LS_acc_y) F(LS_acc_z) F(tau_n) F(delta_tau_n)
  F(gamma) F(Tk) F(P) F(Ft) F(age) F(flags)
  return k;
}
int nov_gpsephem(const uint8_t *b, size_t n, uint64_t *f) {
  Message::GPSEPHEM_t m; int k = 0; m.FromBytes(b, n);
  F(prn) F(tow) F(health) F(iode1) F(iode2) F(week) F(z_week) F(toe) F(A) F(delta_N) F(M0) F(ecc) F(omega) F(cuc)
  F(cus) F(crc) F(crs) F(cic) F(cis) F(I0) F(I_dot) F(omega0) F(omega_dot) F(iodc) F(toc) F(tgd) F(af0) F(af1)
  F(af2) F(AS) F(N) F(URA)
  return k;
}
int nov_insatt(const uint8_t *b, size_t n, uint64_t *f) {
  Message::INSATT_t m; int k = 0; m.FromBytes(b, n);
  F(gnss_week) F(tow) F(roll) F(pitch) F(azimuth) F(status)
  return k;
}
int nov_rawimusx(const uint8_t *b, size_t n, uint64_t *f) {
  Message::RAWIMUSX_t m; int k = 0; m.FromBytes(b, n);
  F(imu_info) F(imu_type) F(gnss_week) F(gnss_week_seconds) F(imu_status) F(z_accel) F(y_accel) F(x_accel) F(z_gyro)
  F(y_gyro) F(x_gyro)
  return k;
}
uint64_t nov_rangecmp(const uint8_t *b, size_t n, size_t r, uint64_t *f) {
  static Message::RANGECMP_t M; int k = 0; M.FromBytes(b, n);
  const Message::RANGECMP_record_t &m = M.records[r];
  F(tracking_status) F(doppler) F(pseudorange) F(ADR) F(stddev_psr) F(stddev_adr) F(prn_slot) F(lock_time) F(CN0)
  F(glo_freq_no) F(reserved)
  return M.n_records;
}
}  // extern "C"

// ---- one Parser with two registered handlers, from an arbitrary buffer state
extern "C" {
void nov_begin(uint8_t *buffer, const void *f0, const void *f1);
void nov_end(const uint8_t *buffer);
int nov_read_cb(uint8_t *buf, uint32_t n, void *ctx);
void nov_handler(int which, uint16_t id, uint16_t len, uint16_t week, int32_t ms, const void *body);
}
struct NovCb {
  int which;
  void operator()(const BinaryHeader *h, const void *body) const {
    nov_handler(which, h->message_id, h->message_len, h->week, h->ms, body);
  }
};
extern "C" uint32_t nov_process(uint32_t n, int id0, int id1, void *ctx) {
  Message::CallbackArray cbs{};
  cbs[0].message_id = (Message::Id)id0;
  cbs[1].message_id = (Message::Id)id1;
#ifndef VP_CPROVER  // the verifier sees std::function's call operator as a contract
  cbs[0].callfn = NovCb{0};
  cbs[1].callfn = NovCb{1};
#endif
  for (size_t i = 2; i < cbs.size(); i++) cbs[i].message_id = Message::kNoCallback;
  Parser p{nov_read_cb, nullptr, cbs, ctx};
  nov_begin(p.buffer_, &p.callbacks_[0].callfn, &p.callbacks_[1].callfn);
  p.num_bytes_in_buffer_ = n;
  p.process();
  nov_end(p.buffer_);
  return p.num_bytes_in_buffer_;
}

/* UBX wire layouts (u-blox interface description): one line per field, in
 * wire order, F(octets, field).  All fields are little endian. */
#define L_hnr_pvt F(4,i_tow) F(2,year) F(1,month) F(1,day) F(1,hour) F(1,min) F(1,sec) F(1,valid) F(4,nano) F(1,fix_type) F(1,flags) \
  F(1,reserved1[0]) F(1,reserved1[1]) F(4,lon) F(4,lat) F(4,height) F(4,height_mean_sea_level) F(4,ground_speed) F(4,speed) F(4,heading_of_motion) \
  F(4,heading_vehicle) F(4,horizontal_accuracy) F(4,vertical_accuracy) F(4,speed_acc) F(4,heading_acc) F(1,reserved2[0]) F(1,reserved2[1]) F(1,reserved2[2]) F(1,reserved2[3])
#define L_rxm_rawx F(8,rcv_tow) F(2,rcv_wn) F(1,leap_second) F(1,num_meas) F(1,rec_status) F(1,version) F(1,reserved1[0]) F(1,reserved1[1]) \
  for (int i = 0; i < VP_N; i++) { F(8,pseudorange_m[i]) F(8,carrier_phase_cycles[i]) F(4,doppler_hz[i]) F(1,gnss_id[i]) F(1,sat_id[i]) F(1,sig_id[i]) F(1,freq_id[i]) \
    F(2,lock_time[i]) F(1,cno_dbhz[i]) F(1,pr_std_m[i]) F(1,cp_std_cycles[i]) F(1,doppler_std_hz[i]) F(1,track_state[i]) F(1,reserved2[i]) }
#define L_nav_att F(4,i_tow) F(1,version) F(1,reserved[0]) F(1,reserved[1]) F(1,reserved[2]) F(4,roll) F(4,pitch) F(4,heading) F(4,acc_roll) F(4,acc_pitch) F(4,acc_heading)
#define L_nav_clock F(4,i_tow) F(4,clk_bias) F(4,clk_drift) F(4,time_acc) F(4,freq_acc)
#define L_nav_pvt F(4,i_tow) F(2,year) F(1,month) F(1,day) F(1,hour) F(1,min) F(1,sec) F(1,valid) F(4,time_acc) F(4,nano) F(1,fix_type) F(1,flags) F(1,flags2) F(1,num_sats) \
  F(4,lon) F(4,lat) F(4,height) F(4,height_mean_sea_level) F(4,horizontal_accuracy) F(4,vertical_accuracy) F(4,vel_north) F(4,vel_east) F(4,vel_down) F(4,ground_speed) \
  F(4,heading_of_motion) F(4,speed_acc) F(4,heading_acc) F(2,PDOP) F(1,flags3) F(1,reserved1[0]) F(1,reserved1[1]) F(1,reserved1[2]) F(1,reserved1[3]) F(1,reserved1[4]) \
  F(4,heading_vehicle) F(2,magnetic_declination) F(2,magnetic_declination_accuracy)
#define L_nav_velecef F(4,i_tow) F(4,ecefVX) F(4,ecefVY) F(4,ecefVZ) F(4,speed_acc)
#define L_nav_sat F(4,i_tow) F(1,version) F(1,num_svs) F(2,reserved1) \
  for (int i = 0; i < VP_N && i < 100; i++) { F(1,data[i].gnss_id) F(1,data[i].sv_id) F(1,data[i].cno) F(1,data[i].elev) F(2,data[i].azim) F(2,data[i].pr_res) F(4,data[i].flags) }
#define L_nav_status F(4,i_tow) F(1,fix_type) F(1,status_flags) F(1,fix_status) F(1,status_flags_ext) F(4,ttff_ms) F(4,msss)
#define L_mga_gps_eph F(1,msg_type) F(1,version) F(1,sat_id) F(1,reserved1) F(1,fit_interval) F(1,ura_index) F(1,sat_health) F(1,tgd) F(2,iodc) F(2,toc) F(1,reserved2) F(1,af2) F(2,af1) F(4,af0) \
  F(2,crs) F(2,delta_N) F(4,m0) F(2,cuc) F(2,cus) F(4,e) F(4,sqrt_A) F(2,toe) F(2,cic) F(4,omega0) F(2,cis) F(2,crc) F(4,i0) F(4,omega) F(4,omega_dot) F(2,i_dot) F(1,reserved3[0]) F(1,reserved3[1])
#define L_rxm_sfrbx F(1,gnss_id) F(1,sat_id) F(1,reserved1) F(1,freq_id) F(1,num_words) F(1,channel) F(1,version) F(1,reserved2) \
  for (int i = 0; i < VP_N; i++) { F(4,data_words[i]) }
#define L_esf_ins F(4,bitfield0) F(1,reserved1[0]) F(1,reserved1[1]) F(1,reserved1[2]) F(1,reserved1[3]) F(4,i_tow) F(4,x_ang_rate) F(4,y_ang_rate) F(4,z_ang_rate) F(4,x_accel) F(4,y_accel) F(4,z_accel)
#define L_esf_meas F(4,time_tag) F(2,flags) F(2,id) for (int i = 0; i < VP_N; i++) { F(4,data[i]) } if (VP_CALIB) { F(4,calib_tag) }
#define L_esf_raw F(4,msss) for (int i = 0; i < VP_N; i++) { F(4,data[i]) F(4,sensor_time_tag[i]) }

#define C_hnr_pvt 0x28, 0x00
#define C_rxm_rawx 0x02, 0x15
#define C_nav_att 0x01, 0x05
#define C_nav_clock 0x01, 0x22
#define C_nav_pvt 0x01, 0x07
#define C_nav_velecef 0x01, 0x11
#define C_nav_sat 0x01, 0x35
#define C_nav_status 0x01, 0x03
#define C_mga_gps_eph 0x13, 0x00
#define C_rxm_sfrbx 0x02, 0x13
#define C_esf_ins 0x10, 0x15
#define C_esf_meas 0x10, 0x02
#define C_esf_raw 0x10, 0x03

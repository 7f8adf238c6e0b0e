F = 'c/gnss_converters/src/ubx_sbp.c'
prop('U04', 'UBX frames are found in the byte stream in whatever pieces it arrives',
 'The UBX reader hands its caller exactly the next octets of the stream however the read function cuts it into pieces, never outside its buffers; a frame is accepted exactly when it starts with the octets B5 62, its length fits the frame buffer and the 8 bit Fletcher checksum over class, id, length and payload matches, with its contents unchanged; octets before a frame, extra sync octets, frames with a length that is too large and frames with a wrong checksum are skipped and the following valid frames are still found.',
 'every content, every length field, every cut of the stream', 'No test feeds a stream in pieces or a damaged frame.',
 [F, 'c/libubx/src/decode.c'], [('read_ubx_bytes', F), ('read_ubx_frame', F), ('ubx_checksum', 'c/libubx/src/decode.c')],
 note='Bounded: reads of 1 and 6 octets with 0, 1 or 3 octets left in the buffer, pieces of 1, 2, 3, 5 and 12 octets; frame attempts with any contents, length and buffer state and up to 7 reads; resynchronisation for nine kinds of octets in front of two frames. read_ubx_frame is checked against the contract of read_ubx_bytes.')
prop('U05', 'UBX raw measurements become SBP observations',
 'A RXM-RAWX message becomes SBP observation messages of up to 14 measurements each with consecutive indices and the right total (one empty message when there is no measurement, none when the message is refused), all with the receiver time rounded to the nanosecond and the receiver week; each measurement carries the pseudorange in 2 cm, carrier phase and Doppler to the nearest 1/256 (zero when they do not fit the field), C/N0 in quarter dB-Hz saturated, encoded lock time, tracking flags, satellite and the signal code of its gnssId and sigId (invalid when unknown).',
 'every measurement, every number of measurements per message', 'No test of UBX conversion is in the reliable set; samples cannot settle overflow and carry between integer and fraction.',
 [F], [('handle_rxm_rawx', F), ('pack_carrier_phase', F), ('pack_doppler', F), ('convert_ubx_gnssid_sigid', F)],
 note='Bounded: 0, 1, 2 and 15 measurements. Messages of more than 210 measurements (index beyond 4 bit) are outside. The products and casts of rawx are uninterpreted functions shared with the specification; the packers are verified with IEEE arithmetic on their own.')
prop('U06', 'UBX navigation messages become the SBP messages of the same content',
 'NAV-PVT becomes a position message with latitude, longitude and height scaled, accuracies saturated at 16 bit, number of satellites and the SBP fix mode of fix type, differential and carrier solution flags plus the INS flag; NAV-ATT an orientation in microdegrees with accuracies; NAV-VELECEF a velocity in mm/s with a saturated accuracy; HNR-PVT, when enabled, position and orientation with the fix of the last NAV-PVT and the roll and pitch of the last NAV-ATT; NAV-SAT azimuth, elevation and C/N0 lists split at 63 and 85 entries; NAV-STATUS the offset between GNSS and local time exactly when a fix, the time and both clocks are known. Refused messages send and change nothing.',
 'every content of every message and every remembered state', 'Wrong units or saturation show only at values no sample has.',
 [F], [('handle_nav_pvt', F), ('handle_nav_att', F), ('handle_hnr_pvt', F), ('handle_nav_velecef', F), ('handle_nav_sat', F), ('handle_nav_status', F)],
 note='Bounded: NAV-SAT with 0, 1, 2 and 86 satellites (C/N0 up to 63 dB-Hz, most of the 86 with fixed values). Floating point products are uninterpreted functions shared with the specification. Time normalisation and week matching are contracts of libswiftnav.')
prop('U07', 'UBX inertial and wheel sensor data become SBP with continuous time and counts',
 'ESF-RAW data become IMU messages, one for each complete set of the three rates and three accelerations with each value scaled to the BMI160 range and saturated and the time of the completing sample (24 bit sensor time unwrapped), preceded by an auxiliary message with temperature and range for every twentieth; ESF-MEAS data with a calibrated time become odometry and wheel tick messages with 24 bit signed speed, direction and a tick count that keeps counting across messages; after a gap of more than a second, or time running back, the message is dropped and time starts again.',
 'every value, every earlier state', 'The behaviour depends on history (counts, gaps, wrapping clocks) which samples do not reach.',
 [F], [('handle_esf_raw', F), ('handle_esf_meas', F), ('ubx_convert_temperature_to_bmi160', F)],
 note='Bounded: 1 or 2 arbitrary raw samples, 7 samples in two fixed orders with fixed values, up to 3 measurements per ESF-MEAS. Floating point operations of time and scaling are uninterpreted functions shared with the specification; conversions to 16 bit are verified with IEEE arithmetic.')
prop('U08', 'UBX messages reach the handler of their class and id',
 'Every UBX message class and id reaches exactly its own decoder and unknown or empty frames produce nothing; navigation subframes reach the decoder of their constellation with satellite, words, count and GLONASS channel unchanged, SBAS ones with the time of transmission 1120 ms before the last time of week within the same week cycle, and none before a time is known; MON-HW frames are forwarded unchanged unless they do not fit; a new converter knows no time, no leap second and no sensor state.',
 'every class and id, every subframe, every time of week', 'Tests replay single recordings.',
 [F], [('ubx_handle_frame', F), ('handle_rxm_sfrbx', F), ('ubx_sbp_init', F)])

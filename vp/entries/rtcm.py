L = 'c/librtcm/src/'
prop('R01', 'RTCM bit fields are read and written exactly',
 'Reading a field of n bits at any bit position yields the big-endian number formed by those bits, sign extended (two\'s complement) for the signed readers and interpreted as sign bit plus magnitude for the sign-magnitude readers. Writing a field stores exactly its low n bits there and changes no other bit of the buffer, and reading back returns the value written; a sign-magnitude read that would run past the end of the input is refused.',
 'all buffer contents, all widths 1..32 / 1..64, all alignments, all values', 'The tests only exercise the widths and alignments of the sampled messages.',
 [L + 'bits.c', 'c/librtcm/include/rtcm3/bits.h'], [('rtcm_getbit*/rtcm_setbit*', L + 'bits.c'), ('rtcm_*_sign_magnitude_*', L + 'bits.c')],
 note='dfcc-enforced contracts (assigns + ensures) at arbitrary position for a 5-bit field; every width at every alignment with whole-window frame.')
prop('R04', 'Legacy RTCM observation messages decode to the documented fields',
 'Decoding a complete RTCM 1001-1004, 1010 or 1012 message yields the header and, for every announced satellite, exactly the satellite number, code, channel, pseudorange (0.02 m units plus the transmitted ambiguity), carrier phase (0.5 mm units relative to the pseudorange, converted to cycles of that signal), lock time (DF013 table), and C/N0 which its own bits encode; a value is flagged invalid exactly when its field holds the documented invalid pattern (or, for GLONASS phase, an unknown channel). The message is refused when the time of week is out of range, and all announced satellites are consumed.',
 'every content of every field', 'No RTCM test runs here; a wrong sign, width, sentinel or table entry shows only for particular values.',
 [L + 'decode.c', L + 'bits.c'], [('rtcm3_decode_100x_bitstream', L + 'decode.c'), ('construct_L1/L2_*', L + 'decode.c'), ('from_lock_ind', L + 'decode.c')],
 note='Header unit with arbitrary header; two satellites with arbitrary contents (the per-satellite code is the same loop body; other counts not separately discharged). Floating-point operators are uninterpreted functions in both code and specification (sound abstraction).')
prop('R06', 'RTCM station and auxiliary messages have the documented layout both ways',
 'Decoding a complete 1005, 1006, 1007, 1008, 1029, 1033, 1230 or 4062 message yields every field exactly as its bits encode it (coordinates in 0.1 mm, antenna height in 0.1 mm, GLONASS biases in 2 cm and 0 where the signal mask says absent, strings with their counted bytes, terminated in 1033) and consumes the whole message; descriptor strings longer than 32 bytes are refused. Encoding such a message produces exactly that layout with each value in its units (antenna height limited to its range), the documented length, and touches no byte after the message.',
 'every content of every field; string lengths 0, short, maximal', 'No test decodes these messages here; a wrong width, scale or sign shows only for some values.',
 [L + 'decode.c', L + 'encode.c'], [('rtcm3_decode_{1005,1006,1007,1008,1029,1033,1230,4062}', L + 'decode.c'), ('rtcm3_encode_{1005,1006,1007,1008,1029,1033,1230,4062}', L + 'encode.c')],
 note='Variable parts at fixed lengths (0, short, maximal and mixed) and every signal mask of 1230; floating-point operators are uninterpreted functions in both code and specification (sound abstraction).')
prop('R03', 'Truncated RTCM messages are refused',
 'A station, auxiliary, broadcast ephemeris, MSM or SSR message (1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062, 1019, 1020, 1042, 1044, 1045, 1046, MSM4-7, SSR orbit, clock, code and phase bias) cut short before its last field is never reported as successfully decoded, and decoding it reads no byte beyond the given length; MSM and SSR decoders refuse messages of another kind.',
 'every byte prefix, every content', 'Tests only feed complete messages.',
 [L + 'decode.c', L + 'eph_decode.c'], [('rtcm3_decode_*_bitstream', L + 'decode.c'), ('rtcm3_decode_*_eph_bitstream', L + 'eph_decode.c')],
 note='String lengths of the variable parts up to 3; ephemeris prefixes: the last six bytes and every sixth before in the quick check, all in the thorough one; 1020 up to its optional part; MSM and SSR: at the boundaries of their parts and every third byte.')
prop('R07', 'RTCM broadcast ephemerides have the documented layout in both directions',
 'Decoding a complete 1019, 1020, 1042, 1044, 1045 or 1046 message yields each ephemeris parameter exactly as its field encodes it (position in the message, width, signed, unsigned or sign-magnitude; GLONASS health is the union of its health flags; Galileo health in the low bits of health_bits), with the right constellation, and refuses other message types and BeiDou geostationary satellites. Encoding 1019, 1020, 1042, 1045 or 1046 writes each parameter to that same field, fills the remaining bits with the fixed values, and touches no byte after the message, so that decoding an encoded ephemeris gives it back.',
 'every content of every field', 'No test covers these messages here; two exchanged fields of equal width or a lost bit is invisible in samples.',
 [L + 'eph_decode.c', L + 'eph_encode.c'], [('rtcm3_decode_{gps,glo,bds,qzss,gal}_eph*', L + 'eph_decode.c'), ('rtcm3_encode_{gps,glo,bds,gal}_eph*', L + 'eph_encode.c')],
 note='GLONASS values which do not fit their sign-magnitude field are outside the encoding statement.')
prop('R08', 'RTCM message numbers and masks are classified correctly',
 'For every 16 bit message number, the MSM type is the last digit for 1071-1077, 1081-1087, ... 1121-1127 and unknown otherwise, and the constellation is the one the RTCM tables assign to MSM and SSR message numbers, invalid for all others. For every Boolean mask of up to 64 entries the number of set values, and the position of the n-th set value, are exact.',
 'all message numbers, all masks', 'Tests sample a few numbers.',
 [L + 'msm_utils.c'], [('to_msm_type', L + 'msm_utils.c'), ('to_constellation', L + 'msm_utils.c'), ('count_mask_values', L + 'msm_utils.c'), ('find_nth_mask_value', L + 'msm_utils.c')])
prop('R09', 'RTCM MSM4-7 messages decode to the documented fields',
 'Decoding a complete MSM4, 5, 6 or 7 message yields the header and masks, and for each satellite and cell exactly the rough range, satellite information (GLONASS channel unknown without it), range rate, pseudorange, carrier phase, lock time, half cycle flag and C/N0 its own bits encode, in the documented units; each value is flagged invalid (and 0) exactly when one of its fields holds the documented invalid pattern. BeiDou times up to 14 s before the week are wrapped. Messages whose masks exceed 64 cells or 32 satellites or whose time is out of range are refused, and nothing is written outside the message structure.',
 'every content of every field; every header and mask for the header part', 'Tests sample a few recorded messages and do not run here.',
 [L + 'decode.c'], [('rtcm3_decode_msm{4,5,6,7}_bitstream', L + 'decode.c'), ('rtcm3_read_msm_header', L + 'decode.c')],
 note='The header is decided for arbitrary masks; the data part for fixed masks (three satellites, two signals, four cells) with arbitrary contents. Floating-point operators are uninterpreted in both code and specification (sound abstraction).')
prop('R10', 'RTCM MSM4 and MSM5 messages are encoded in the documented layout',
 'Encoding an MSM4 or MSM5 message writes header, masks and, column by column, each satellite\'s rough range (rounded to 1/1024 ms, never off by more than half a unit), satellite information and range rate and each cell\'s fine pseudorange, fine phase, lock indicator, half cycle flag, C/N0 and fine range rate relative to the rough values actually sent, with the documented invalid pattern exactly where a value is not valid or out of range; the length is the documented one and nothing after it is touched.',
 'every content of every field', 'Tests sample a few messages and do not run here.',
 [L + 'encode.c'], [('rtcm3_encode_msm{4,5}', L + 'encode.c'), ('encode_msm_sat_data', L + 'encode.c')],
 note='Fixed masks (three satellites, two signals, four cells), arbitrary contents within what the fields express (rough range below 255 ms, C/N0 below 63.5 dB-Hz). Rounding of the rough range is decided in exact IEEE arithmetic, the rest with uninterpreted operators.')
prop('R11', 'RTCM lock time indicators never overstate the lock time and round trip',
 'Encoding a lock time (legacy DF013 in seconds, MSM DF402) gives the largest indicator whose decoded minimum lock time does not exceed it; every indicator survives decoding and encoding again; the extended indicator DF407 decodes according to its table for all 1024 values.',
 'all indicators, all lock times', 'Tests sample single values.',
 [L + 'encode.c', L + 'decode.c'], [('to_lock_ind', L + 'encode.c'), ('rtcm3_encode_lock_time', L + 'encode.c'), ('rtcm3_decode_lock_time', L + 'decode.c'), ('from_lock_ind', L + 'decode.c'), ('from_msm_lock_ind_ext', L + 'decode.c')],
 note='Legacy lock times are compared with a tolerance of 1e-9 s.')
prop('R12', 'RTCM SSR messages decode to the documented fields',
 'Decoding a complete SSR orbit, clock, combined, code bias or phase bias message of any supported constellation yields exactly the header (epoch width by constellation), and for each satellite the satellite number, IODE (for BeiDou the second IOD field, for SBAS also the IOD CRC), corrections or biases its bits encode, and consumes the whole message.',
 'every content of every field', 'Tests sample a few recorded messages and do not run here.',
 [L + 'ssr_decode.c'], [('rtcm3_decode_{orbit,clock,orbit_clock,code_bias,phase_bias}_bitstream', L + 'ssr_decode.c'), ('decode_ssr_header', L + 'ssr_decode.c')],
 note='Header: arbitrary contents for every message number; body: two satellites, up to three biases each, arbitrary contents.')
prop('R13', 'STA firmware and configuration strings are bounded and terminated',
 'Decoding the firmware version writes exactly its counted characters cut to the buffer length given, always terminated, and nothing past the buffer; decoding the receiver configuration writes 15 characters, each group of four reversed, terminated.',
 'all contents, version lengths and buffer sizes', 'Tests use one message and a large buffer.',
 [L + 'sta_decode.c'], [('sta_decode_fwver', L + 'sta_decode.c'), ('sta_decode_rcc_config', L + 'sta_decode.c')],
 note='Version lengths 0-8 and buffer sizes 1-6.')

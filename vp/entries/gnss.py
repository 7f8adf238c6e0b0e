G = 'c/gnss_converters/src/'
prop('G05', 'MSM signals, satellites and message numbers follow the RTCM tables',
 'For every constellation, the signals announced by an MSM signal mask get the SBP codes of RTCM tables 3.5-91 to 3.5-108, a code gets the lowest signal id with that code (or none), satellites get the numbers of the satellite mask counted from the first PRN (out of range: 0), frequencies are the carriers of the signal (GLONASS: by frequency channel, from satellite information or the map), and message number, constellation and MSM type translate into each other.',
 'all masks, codes, satellites, channels', 'The tests sample a few masks and do not run here.',
 [G + 'rtcm3_utils.c'], [('msm_signal_to_code, get_msm_*_code', G + 'rtcm3_utils.c'), ('code_to_msm_signal_id/index', G + 'rtcm3_utils.c'), ('msm_sat_to_prn, prn_to_msm_sat_id/index', G + 'rtcm3_utils.c'), ('msm_signal_frequency, msm_get_glo_fcn, to_msm_msg_num', G + 'rtcm3_utils.c')],
 note='Satellite counts per constellation and code numbers come from the stand-in headers of libswiftnav.')
prop('G06', 'An MSM header never announces more than 64 cells and cells are the right ones',
 'Adding a satellite and signal to an MSM header with an empty cell mask succeeds exactly when the satellite belongs to the constellation, the code has an MSM signal and the product of satellites and signals stays within 64; it adds exactly these two mask bits. Marking a cell succeeds exactly when both are in the masks and sets exactly the bit at satellite rank times number of signals plus signal rank; nothing outside the masks is touched.',
 'all masks, codes and satellites', 'Tests add a few signals and do not run here.',
 [G + 'rtcm3_utils.c'], [('msm_add_to_header', G + 'rtcm3_utils.c'), ('msm_add_to_cell_mask', G + 'rtcm3_utils.c')])
prop('G07', 'Accuracy, fit interval indices and GLONASS biases are the tabulated ones',
 'GPS, GLONASS and BDS accuracy indices and Galileo SISA translate to the metres of their interface documents and back to the same index (Galileo: any distance within 0 to 6 m to an index of its own step range, others to "none"); GPS curve fit intervals follow the IODC table and GLONASS ones P1, and both survive encoding; the configured GLONASS biases are applied linearly in the frequency channel to L1 and L2 GLONASS signals only.',
 'all indices, IODC values, channels', 'Tests sample a few values and do not run here.',
 [G + 'rtcm3_utils.c', G + 'rtcm3_sbp_ephemeris.c', G + 'options.c'], [('convert_*_to_ura, convert_ura_to_uri, convert_sisa_to_meters, convert_meters_to_sisa', G + 'rtcm3_utils.c'), ('rtcm3_*_fit_interval_*', G + 'rtcm3_utils.c'), ('convert_glo_ft_to_meters', G + 'rtcm3_sbp_ephemeris.c'), ('msm_glo_fcn_bias', G + 'options.c')],
 note='powf/log2f are exact on powers of two (asserted to be called with nothing else).')

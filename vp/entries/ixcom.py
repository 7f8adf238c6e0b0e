I = 'c/libixcom/src/'
G = 'c/gnss_converters/src/'
prop('X01', 'iXCOM messages have the documented layout, length and checksum',
 'Encoding an IMURAW or WHEELDATA message writes header, payload and footer little endian at the documented offsets, returns 44 or 28 and touches nothing beyond; decoding yields every field exactly and is accepted exactly when sync, message id, announced length and the CRC-16 (x^16+x^12+x^5+1, start 0) over all octets before the CRC are right; no octet outside the message is read.',
 'every content', 'No test covers iXCOM here.',
 [I + 'decode.c', I + 'encode.c', I + 'messages.c'], [('ixcom_decode_imuraw / ixcom_decode_wheeldata', I + 'decode.c'), ('ixcom_encode_*', I + 'encode.c'), ('crc_byte, ixcom_checksum', I + 'decode.c')],
 note='The CRC step is proved for all states and octets; message units use it as an uninterpreted function of its arguments.')
prop('X02', 'iXCOM framing stays inside its buffer and finds frames in any pieces',
 'Whatever the reader delivers, the iXCOM frame reader only asks for octets that fit into the free part of its buffer, from every partial state; a frame is reported only when it starts with the sync octet and its announced length (at least header plus footer, less than the buffer) is completely there; frames with impossible lengths are skipped; a frame preceded by another octet is found with its exact contents however it is split.',
 'every reader behaviour, every partial state', 'Tests read from files in large blocks.',
 [G + 'ixcom_sbp.c'], [('read_ixcom_frame, read_ixcom_bytes', G + 'ixcom_sbp.c')],
 note='Inductive: from an arbitrary state satisfying the partial-frame invariant, up to three reads (two in the payload) of arbitrary size re-establish it; reassembly of a 28 octet frame in up to five arbitrary pieces.')
prop('X03', 'iXCOM measurements convert to the SBP messages with their values',
 'A valid IMURAW frame gives one SBP IMU RAW message with its time of week (milliseconds and 1/256 ms) and the six readings scaled to 4 g and 125 deg/s full scale, rounded and saturated to 16 bit, followed by an IMU AUX message for the first and every hundredth; a valid WHEELDATA frame gives odometry in mm/s and wheel ticks with the time in microseconds; a frame with a wrong checksum gives nothing.',
 'every content (times within a week, speeds in the range of the field)', 'No test covers iXCOM here.',
 [G + 'ixcom_sbp.c'], [('handle_imuraw, handle_wheeldata, send_imu_aux', G + 'ixcom_sbp.c'), ('convert_ixcom_to_sbp_tow', G + 'ixcom_sbp.c'), ('float_to_s16_clamped', G + 'ixcom_sbp.c')],
 note='Floating-point operators are uninterpreted in both code and specification, except in the saturation unit, which is exact.')

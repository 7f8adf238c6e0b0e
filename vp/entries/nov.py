NP = 'c/nov2sbp/parser/'
prop('N01', 'Novatel little-endian number and bit-field readers are exact',
 'Every little-endian integer, float and double reader returns exactly the number its 2, 4 or 8 bytes encode (least significant byte first, IEEE-754 bits unchanged). A bit-field reader of width n at bit offset k returns the n bits starting k bits into the data, counted from the least significant bit of the first byte, for every n from 0 up to the width of the returned type and every offset, and reads no byte outside the field.',
 'all byte contents, all field widths 0..64, all bit offsets', 'The two unit tests read one negative number and a few bit fields; the guarantee is for every content, width and alignment.',
 [NP + 'read_little_endian.h'], [('read_le_*', NP + 'read_little_endian.h'), ('read_le_bits*', NP + 'read_little_endian.h')], tech=TECHCC,
 note='All obligations discharged for every width 0..64 at all 8 alignments with fully symbolic contents, plus a 3-bit field at any byte position. Trusts clang -O0 + mem2reg, the IR-to-C translation (vp/ll2c.py) and CBMC.')
prop('N02', 'Novatel headers and fixed-length logs decode to the documented layout',
 'Decoding a short or regular binary header, or a BESTPOS, BESTVEL, GPSEPHEM, GLOEPHEMERIS, INSATT or RAWIMUSX body, yields for every input exactly the little-endian value of each field at its documented offset, bit for bit, and uses the whole body. The Y axis of the RAWIMUSX acceleration and rotation is delivered negated, the most negative raw value saturating at the largest positive value.',
 'all byte contents of each header and body', 'No test checks decoded field values; a swapped, mis-sized or mis-signed field only shows for particular contents.',
 [NP + f for f in ('binary_header.cc', 'message_bestpos.cc', 'message_bestvel.cc', 'message_gloephemeris.cc', 'message_gpsephem.cc', 'message_insatt.cc', 'message_rawimusx.cc')],
 [('BinaryHeader::read', NP + 'binary_header.cc'), ('FromBytes', NP + 'message_*.cc')], tech=TECHCC,
 note='Every member compared bit for bit with its byte range, symbolic contents; memory safety and overflow obligations included.')
prop('N03', 'Novatel RANGECMP records decode to the documented bit fields',
 'For every RANGECMP body the number of decoded records is the transmitted count, limited to 63, and each decoded record holds exactly its own bit fields (status 32, signed Doppler 28, pseudorange 36, signed ADR 32, deviations 4+4, PRN 8, lock time 21, C/N0 5, GLONASS frequency 6, reserved 16 bits) from its own 24 bytes. Decoding never reads or writes outside the body or the record table.',
 'all record contents; counts below, at and above the limit', 'Sign extension, masks and record stride only go wrong for particular bit patterns or counts.',
 [NP + 'message_rangecmp.cc', NP + 'message_rangecmp.h', NP + 'read_little_endian.h'], [('RANGECMP_t::FromBytes', NP + 'message_rangecmp.cc')], tech=TECHCC,
 note='Counts 0, 1, 2 and 64 (clamped), any content; the per-record obligation for intermediate counts is covered by the same loop body but not separately discharged (bounded in the count).')
prop('N04', 'Novatel CRC-32 is the documented polynomial over the whole message',
 'The checksum of a byte sequence is the reflected CRC-32 with polynomial 0xEDB88320, initial value 0 and no final inversion, each byte contributing exactly one step in order; the checksum of no bytes is 0.',
 'all byte contents (sequences of up to 8 bytes)', 'A wrong polynomial bit or shift mask can still agree on sampled messages.',
 [NP + 'crc_checker.cc'], [('get_crc', NP + 'crc_checker.cc')], tech=TECHCC,
 note='All contents, lengths 0..8 (labelled bounded in the length: the loop carries only the running checksum, whose step is fully covered).')
prop('N05', 'Novatel stream parser delivers exactly the verified frames',
 'From any buffer state and any amount of newly read data, a buffered regular or short frame whose length fits and whose CRC-32 matches is consumed whole and handed once to every handler registered for its id with its own header and body; anything else costs exactly one byte, and later bytes are kept in order. A body is only decoded when its length is the one its message type requires, a read error or an exhausted empty buffer ends processing, and nothing outside the buffered bytes is accessed.',
 'every buffer content and fill level, every read size including none and errors (one inductive round of the loop)', 'The only test (not runnable here) feeds one recorded file; resynchronisation, length and CRC edge cases need adversarial streams.',
 [NP + 'parser.cc', NP + 'parser.h', NP + 'binary_header.cc'], [('process / parse_*', NP + 'parser.cc')], over=('inputs', 'histories'), tech=TECHCC,
 state=[('buffer_, num_bytes_in_buffer_', 'bytes read but not consumed', NP + 'parser.h')],
 note='One round from an arbitrary state = induction step for the whole stream. CRC and body decoders replaced by contracts (N02-N04); std::function call and memmove by their library contracts.')

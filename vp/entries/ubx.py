B = 'c/libubx/src/'
UMSG = 'HNR-PVT, RXM-RAWX, RXM-SFRBX, NAV-ATT, NAV-CLOCK, NAV-PVT, NAV-VELECEF, NAV-SAT, NAV-STATUS, MGA-GPS-EPH, ESF-INS, ESF-MEAS and ESF-RAW'
prop('U01', 'UBX messages decode to the documented fields',
 'Decoding a complete UBX message of the supported kinds (' + UMSG + ') succeeds, yields class, id, length and every field exactly as the little endian octets at its documented offset encode it, for every repeated element (RAWX measurements, NAV-SAT satellites up to 100, SFRBX words, ESF-MEAS and ESF-RAW data, the ESF-MEAS calibration tag when flagged), and consumes exactly the octets of the message.',
 'every content of every field', 'No test decodes UBX here; two exchanged fields of equal width are invisible in samples.',
 [B + 'decode.c'], [('ubx_decode_*_bytestream', B + 'decode.c')],
 note='Element counts fixed per unit: 0, 1, some, and the maximum where the quick check can afford it (31 ESF-MEAS data, 10 words; 128 ESF-RAW data and 101 NAV-SAT satellites in the thorough check; RAWX 24).')
prop('U02', 'UBX messages are encoded in the documented layout',
 'Encoding a UBX message structure of the supported kinds (' + UMSG + ') writes class, id, length and every field little endian at its documented offset, returns the number of octets written and leaves the buffer beyond the message unchanged (SFRBX clears the room of its unused words).',
 'every content of every field', 'No test encodes UBX here.',
 [B + 'encode.c'], [('ubx_encode_*', B + 'encode.c')],
 note='Element counts fixed per unit as in U01. Counts beyond the arrays of the message structure are the caller\'s responsibility.')
prop('U03', 'UBX decoders refuse other, truncated and oversized messages',
 'Every UBX decoder reports a type mismatch for every message of another class or id, reports an invalid message (never success) for every message cut short before its last field, and refuses RXM-SFRBX with more than 10 words and ESF-RAW with more than 128 data without writing outside the message structure.',
 'every class and id, every prefix, every content', 'Tests only feed complete messages.',
 [B + 'decode.c'], [('ubx_decode_*_bytestream', B + 'decode.c')],
 note='Prefixes: the last six octets and every fifth before; up to two repeated elements.')

N = 'c/nov2sbp/parser/'
NSRC = [N + x for x in ('crc_checker.cc', 'binary_header.cc', 'message_bestpos.cc', 'message_bestvel.cc', 'message_gloephemeris.cc',
                        'message_gpsephem.cc', 'message_insatt.cc', 'message_rangecmp.cc', 'message_rawimusx.cc')]
def nov(name, entry, **k):
    k.setdefault('unwind', 70)
    k.setdefault('shim', ['nov_shim.cc'])
    k.setdefault('repo_src', NSRC + [N + 'parser.cc'])
    k.setdefault('defs', [])
    only = k.pop('only')
    return U(name, 'nov.c', entry, cxx_roots=only, **k)
P('N01', [nov('le', 'h_le', only=['nov_le'], functions=['read_le_uint16', 'read_le_uint32', 'read_le_int32', 'read_le_double', 'read_le_float'])] +
  [nov('bits_%d' % lo, 'h_bits', only=[], defs=['VP_LO=%d' % lo, 'VP_HI=%d' % min(lo + 7, 64), 'NB=16'], functions=['read_le_bits64', 'read_le_bits32', 'read_le_bits16', 'read_le_bits8']) for lo in range(0, 65, 8)] +
  [nov('bits_anypos', 'h_bits', only=[], unwind=18, defs=['VP_LO=3', 'VP_HI=3', 'NB=16', 'VP_ANYPOS'], functions=['read_le_bits64'])])
P('N02', [nov('headers', 'h_headers', only=[], functions=['BinaryHeader::read', 'BinaryHeaderRegular::read'])] + 
  [nov('layouts', 'h_layouts', only=[], functions=['BESTPOS_t::FromBytes', 'BESTVEL_t::FromBytes', 'GLOEPHEMERIS_t::FromBytes']),
   nov('layouts2', 'h_layouts2', only=[], functions=['GPSEPHEM_t::FromBytes', 'INSATT_t::FromBytes', 'RAWIMUSX_t::FromBytes'])])
P('N05', [U('round', 'nov_frame.c', 'h_round', shim=['nov_shim.cc'], repo_src=[N + 'parser.cc', N + 'binary_header.cc'],
   unwind=66, flags=['--sat-solver', 'minisat2'], defs=["LL_MEMMOVE=vp_memmove"], cxx_drop=['@_ZNKSt8functionIFvPKN7Novatel12BinaryHeaderEPKvEEcvbEv', '@_ZNKSt8functionIFvPKN7Novatel12BinaryHeaderEPKvEEclES3_S5_'], cxx_only={'nov_process'}, functions=['Parser::process', 'Parser::parse_regular_message', 'Parser::parse_short_message', 'Parser::parse_body', 'Parser::invoke_callback'])])
P('N03', [nov('rangecmp_%d' % n, 'h_rangecmp', only=[], defs=['NREC=%d' % n, 'NB=%d' % max(64, 16 + 24 * n)], functions=['RANGECMP_t::FromBytes']) for n in (0, 1, 2)] +
  [nov('rangecmp_64_%d' % r, 'h_rangecmp', only=[], cxx_drop=['@_ZN7Novatel4UtilL14read_le_bits64EPKhmm'], defs=['VP_CONTRACT_BITS', 'NREC=64', 'VP_R=%d' % r, 'NB=1600'], functions=['RANGECMP_t::FromBytes']) for r in (62,)] +
  [nov('rangecmp_64', 'h_rangecmp', only=[], tier='thorough', timeout=1200, defs=['NREC=64', 'NB=1600'], functions=['RANGECMP_t::FromBytes'])])
P('N04', [nov('crc', 'h_crc', only=[], functions=['CrcChecker::get_crc', 'CrcChecker::crc32_byte_value'], bounded='messages of 0 to 8 bytes')])

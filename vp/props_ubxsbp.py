US = ['c/libubx/src/decode.c']
def us(e, tag='', defs=(), real=False, **k):
    k.setdefault('unwind', 30)
    d = list(defs) + ['VP_MSG_STRUCT'] + (['NODEC'] if real else [])
    return U('us_%s%s' % (e, tag), 'ubxsbp.c', 'h_' + e, repo_src=US if real else [], dep_src=['streams.c'], defs=d, inc=['/repo'], fs=k.pop('fs', 64), **k)
P('U04', [us('cksum', real=True, functions=['ubx_checksum'])] +
  [us('bytes', '_%d_%d_%d_%d' % (r, t, l, q), ['REST=%d' % r, 'TOP=%d' % t, 'LEN1=%d' % l, 'QN=%d' % q], True, unwind=40, fs=8192, functions=['read_ubx_bytes', 'reload_ubx_buffer']) for r, t in ((0, 0), (0, 512), (1, 512), (3, 5)) for l, q in ((1, 6), (6, 36))] +
  [us('frame1', '', (), True, calls={'read_ubx_bytes': 'stub_read', 'ubx_checksum': 'stub_cksum'}, fs=64, functions=['read_ubx_frame'])] +
  [us('pieces', '_%d' % i, ['PRE={%s}' % ','.join(map(str, x)), 'NPRE=%d' % len(x)], True, calls={'read_ubx_bytes': 'stub_next', 'ubx_checksum': 'stub_cksum2'}, fs=8192, functions=['read_ubx_frame']) for i, x in enumerate(([0], [0xB5], [0xB5, 0xB5], [0x62], [0, 0x62], [0xB5, 0x61], [0xB5, 0], [0xB5, 0x62, 1, 2, 0xff, 0xff], [0xB5, 0x62, 1, 2, 1, 0, 7, 0, 0]))])
P('U05', [us('code', functions=['convert_ubx_gnssid_sigid']), us('cp', functions=['pack_carrier_phase']), us('dop', functions=['pack_doppler'])] +
  [us('rawx', '_%d' % n, ['N=%d' % n, 'WANT_OBS'], uf=True, calls={'pack_carrier_phase': 'stub_cp', 'pack_doppler': 'stub_dop'}, functions=['handle_rxm_rawx']) for n in (0, 1, 2, 15)] + [us('unfit', '_2', ['N=2', 'WANT_OBS'], functions=['handle_rxm_rawx'])])
P('U06', [us('pvt', uf=True), us('hnr', uf=True), us('att', uf=True), us('vel'), us('status', uf=True)] + [us('sat', '_%d' % n, ['N=%d' % n, 'WANT_SAT'], fs=8192, unwind=max(n + 2, 30)) for n in (0, 1, 2, 86)])
P('U07', [us('conv24'), us('clamp', '', ['WANT_RAW']), us('aux', '', ['WANT_RAW'])] + [us('meas', '_%d_%x' % (n, f), ['N=%d' % n, 'WANT_MEAS', 'FL=%d' % f], uf=True) for n, f in ((1, 8), (1, 0x7f7), (2, 0x7ff), (3, 0x7ff))] +
  [us('raw', '_%d' % n, ['N=%d' % n, 'WANT_RAW'], uf=True) for n in (1, 2)] + [us('raw', '_o%d' % i, ['N=%d' % len(o), 'WANT_RAW', 'ORDER={%s}' % ','.join(map(str, o))], uf=True) for i, o in enumerate(([12, 14, 13, 5, 16, 17, 18], [18, 17, 16, 5, 13, 14, 14]))])
P('U08', [us('disp'), us('short'), us('sfrbx'), us('fwd', unwind=310), us('init')])

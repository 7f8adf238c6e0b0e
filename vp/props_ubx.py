UB = 'c/libubx/src/'
#           size, variants: (n, len, defs), encoder
UBX = {'hnr_pvt': [(0, 76, [])], 'rxm_rawx': [(n, 20 + 32 * n, ['VP_AT=15', 'CNTF=num_meas', 'VP_N=%d' % n]) for n in (0, 1, 3, 24)], 'nav_att': [(0, 36, [])],
       'nav_clock': [(0, 24, [])], 'nav_pvt': [(0, 96, [])], 'nav_velecef': [(0, 24, [])],
       'nav_sat': [(n, 12 + 12 * min(n, 100), ['VP_AT=9', 'CNTF=num_svs', 'VP_N=%d' % n]) for n in (0, 1, 3, 101)],
       'nav_status': [(0, 20, [])], 'mga_gps_eph': [(0, 72, [])],
       'rxm_sfrbx': [(n, 12 + 4 * n, ['VP_AT=8', 'CNTF=num_words', 'VP_N=%d' % n, 'VP_CLEARS']) for n in (0, 1, 9, 10)],
       'esf_ins': [(0, 40, [])],
       'esf_meas': [(n, 12 + 4 * n + 4 * c, ['VP_MEAS', 'VP_N=%d' % n, 'VP_CALIB=%d' % c]) for n in (0, 2, 31) for c in (0, 1)],
       'esf_raw': [(n, 8 + 8 * n, ['VP_RAW', 'VP_N=%d' % n]) for n in (0, 1, 3, 128)]}
UENC = {'rxm_rawx': 'ubx_encode_rawx'}
def ubx(e, m, n, ln, defs, **k):
    k.setdefault('unwind', 300 if m != 'esf_meas' else 45)
    if e == 'trunc': d0 = ['VP_STEP=5']
    else: d0 = []
    if ln > 500: k.setdefault('tier', 'thorough'); k.setdefault('timeout', 800)
    d = ['MSG=' + m, 'LEN=%d' % ln] + d0 + defs + (['ENCODER=' + UENC[m]] if m in UENC else [])
    fn = 'ubx_decode_%s_bytestream' % m if e != 'enc' else UENC.get(m, 'ubx_encode_' + m)
    return U('ubx_%s_%s_%d' % (e, m, ln) + ('_s1' if k.pop('all_', 0) else ''), 'ubx.c', 'h_' + e, repo_src=[UB + 'decode.c', UB + 'encode.c'], dep_src=['streams.c'], defs=d, functions=[fn], fs=4096 if n < 20 else 16384, **k)
P('U01', [ubx('dec', m, *v) for m in UBX for v in UBX[m]])
P('U02', [ubx('enc', m, *v) for m in UBX for v in UBX[m]])
P('U03', [ubx('other', m, *UBX[m][0]) for m in UBX] + [ubx('trunc', m, *v) for m in UBX for v in UBX[m] if v[0] in (0, 1, 2) and (v[0] or len(UBX[m]) == 1)]
  + [ubx('many', 'rxm_sfrbx', 0, 64, ['VP_AT=8', 'VP_MANY=10', 'NO_ENC']), ubx('many', 'esf_raw', 0, 64, ['VP_RAW', 'VP_MANY=128', 'NO_ENC'])])

S = 'c/librtcm/src/'
BS = ['streams.c']
def bits(fn, lens, hi):
    k = dict(repo_src=[S + 'bits.c'], dep_src=BS, functions=[fn])
    r = [U('c_%s_%d' % (fn, n), 'bits.c', 'c_' + fn, unwind=n + 3,
           defs=['VP_LEN=%d' % n], enforce=[fn], **k) for n in lens]
    lo = 1
    while lo <= hi:
        r.append(U('e_%s_%d' % (fn, lo), 'bits.c', 'e_' + fn, unwind=98, defs=['VP_LO=%d' % lo, 'VP_HI=%d' % (lo + 15)], **k))
        lo += 16
    return r

SM = ['rtcm_set_sign_magnitude_bit', 'rtcm_get_sign_magnitude_bit', 'rtcm_get_sign_magnitude_bitstream']
P('R01', sum([bits(f, (5,), 32) for f in ('rtcm_getbitu', 'rtcm_getbits', 'rtcm_setbitu', 'rtcm_setbits')], []) +
         sum([bits(f, (5,), 64) for f in ('rtcm_getbitul', 'rtcm_getbitsl', 'rtcm_setbitul', 'rtcm_setbitsl')], []) +
         [U('e_sm_%d' % lo, 'bits.c', 'e_sm', repo_src=[S + 'bits.c'], dep_src=BS, unwind=98, functions=SM, defs=['VP_LO=%d' % lo, 'VP_HI=%d' % hi]) for lo, hi in ((2, 9), (10, 17), (18, 25), (26, 32))] +
         [U('e_edge', 'bits.c', 'e_edge', repo_src=[S + 'bits.c'], dep_src=BS, unwind=98)])
DEC = [S + x for x in ('decode.c', 'bits.c', 'msm_utils.c', 'logging.c')]
def obs(msg, n, **k):
    d = ['MSG=%d' % msg, 'NSAT=%d' % n] + k.pop('defs', [])
    return U('obs_%d_%d%s' % (msg, n, k.pop('sfx', '')), 'rtcm_obs.c', 'h_obs', repo_src=DEC, dep_src=BS, unwind=68, defs=d, fs=512,
             functions=['rtcm3_decode_%d_bitstream' % msg, 'rtcm3_read_header', 'rtcm3_read_glo_header', 'from_lock_ind', 'get_cnr'], **k)
P('R04', [obs(m, n, uf=True) for m in (1001, 1002, 1003, 1004, 1010, 1012) for n in (0, 2)])

ENC = [S + x for x in ('encode.c', 'bits.c', 'msm_utils.c', 'logging.c')]
STA = (1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062)
def sta(e, msg, **k):
    return U('%s_%d' % (e, msg), 'rtcm_sta.c', 'h_' + e, repo_src=[S + 'decode.c', S + 'encode.c', S + 'bits.c', S + 'msm_utils.c', S + 'logging.c'], dep_src=BS, unwind=260, uf=True, fs=512,
             defs=['MSG=%d' % msg], functions=['rtcm3_%s_%d' % ('encode' if e == 'enc' else 'decode', msg)], **k)
def sta1230(e):
    us = []
    for k in range(4):
        u = sta(e, 1230)
        u['name'] += '_%d' % k
        u['defs'] = u['defs'] + ['VP_LO=%d' % (4 * k), 'VP_HI=%d' % (4 * k + 4)]
        us.append(u)
    return us
def trunc(msg):
    u = sta('trunc', msg)
    u['uf'] = False
    u['flags'] = ['--slice-formula', '--sat-solver', 'cadical']
    return u
P('R06', [sta(e, m) for m in STA if m != 1230 for e in ('dec', 'enc')] + sta1230('dec') + sta1230('enc') + [sta('long', m) for m in (1007, 1008, 1033)])

EPH = (1019, 1020, 1042, 1044, 1045, 1046)
def eph(e, msg, defs=(), sfx='', **k):
    n = {1019: 'gps_eph', 1020: 'glo_eph', 1042: 'bds_eph', 1044: 'qzss_eph', 1045: 'gal_eph_fnav', 1046: 'gal_eph_inav'}[msg]
    return U('eph_%s_%d%s' % (e, msg, sfx), 'rtcm_eph.c', 'h_' + e, repo_src=[S + x for x in ('eph_decode.c', 'eph_encode.c', 'bits.c', 'logging.c')], dep_src=BS, unwind=80, fs=512,
             defs=['MSG=%d' % msg] + list(defs), functions=['rtcm3_%s_%s%s' % ('encode' if e == 'enc' else 'decode', n, '' if e == 'enc' else '_bitstream')], **k)
P('R07', [eph('dec', m) for m in EPH] + [eph('enc', m) for m in EPH if m != 1044])

def msm(e, msg, sfx='', defs=(), **k):
    enc = e in ('enc', 'rough')
    k.setdefault('unwind', 100)
    return U('msm_%s_%d%s' % (e, msg, sfx), 'rtcm_msm.c', 'h_' + e, repo_src=[S + x for x in ('msm_utils.c', 'bits.c', 'logging.c')], dep_src=BS, fs=1024,
             inc=['/repo/c/librtcm/src'], san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment', '-fno-sanitize=vla-bound'], defs=['MSG=%d' % msg] + (['VP_ENC'] if enc else []) + list(defs),
             functions=['rtcm3_%s_msm%d%s' % ('encode' if enc else 'decode', msg % 10, '' if enc else '_bitstream')], **k)
P('R09', [msm('hdr', m) for m in (1074, 1084, 1124)] + [msm('dec', m, uf=True) for m in (1074, 1085, 1096, 1127)])
P('R10', [msm('enc', m, uf=True) for m in (1074, 1085)] + [msm('rough', 1074)])

SSRK = {1: (1057, 1063, 1240, 1246, 1258), 2: (1058, 1064, 1241, 1259), 3: (1060, 1066, 1243, 1249, 1261), 4: (1059, 1065, 1242, 1248), 5: (1265, 1266, 1268, 1269, 1270)}
SSRN = {0: 'header', 1: 'orbit', 2: 'clock', 3: 'orbit_clock', 4: 'code_bias', 5: 'phase_bias'}
def ssr(e, kind, msg, defs=(), **k):
    return U('ssr_%s_%d' % (e, msg), 'rtcm_ssr.c', 'h_' + e, repo_src=[S + x for x in ('ssr_decode.c', 'msm_utils.c', 'bits.c', 'logging.c')], dep_src=BS, unwind=100, fs=1024,
             defs=['KIND=%d' % kind, 'MSG=%d' % msg] + list(defs), functions=['rtcm3_decode_%s_bitstream' % SSRN[kind] if kind else 'decode_ssr_header', 'to_constellation'], **k)
P('R12', [ssr('hdr', 0, a, ['VP_LO=%d' % a, 'VP_HI=%d' % b]) for a, b in ((1050, 1071), (1236, 1254), (1255, 1272))] + [ssr('dec', k, m) for k in SSRK for m in SSRK[k]])
def small(e, **k):
    return U('small_' + e, 'rtcm_small.c', 'h_' + e, repo_src=[S + x for x in ('msm_utils.c', 'bits.c', 'logging.c', 'sta_decode.c')], dep_src=BS, unwind=80, inc=['/repo/c/librtcm/src'], **k)
P('R08', [small('num', functions=['to_msm_type', 'to_constellation']), small('mask', functions=['count_mask_values', 'find_nth_mask_value'])])
P('R11', [small('lock', functions=['to_lock_ind', 'from_lock_ind']), small('lock4', functions=['rtcm3_encode_lock_time', 'rtcm3_decode_lock_time', 'from_msm_lock_ind_ext'])])
P('R13', [small('fwver', functions=['sta_decode_fwver']), small('rcc', functions=['sta_decode_rcc_config'])])
P('R03', [trunc(m) for m in STA] + [eph('trunc', m, ['VP_STEP=6'], flags=['--slice-formula']) for m in EPH]
         + [eph('trunc', m, sfx='_all', flags=['--slice-formula'], tier='thorough') for m in EPH]
         + [msm('trunc', m, defs=['NS=2', 'NG=1', 'CELLS=3'], flags=['--slice-formula']) for m in (1074, 1127)] + [msm('type', m, defs=['NS=1', 'NG=1', 'CELLS=1'], flags=['--slice-formula']) for m in (1074, 1085, 1096, 1127)]
         + [ssr('trunc', k, SSRK[k][0], flags=['--slice-formula']) for k in SSRK])

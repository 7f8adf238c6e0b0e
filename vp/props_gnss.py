GU = ['c/gnss_converters/src/rtcm3_utils.c', 'c/librtcm/src/msm_utils.c']
CONS = ['GPS', 'SBAS', 'GLO', 'BDS', 'QZS', 'GAL']
def gu(e, c=None, src=GU, **k):
    k.setdefault('unwind', 67)
    d = ['C=RTCM_CONSTELLATION_' + c] if c else []
    if c == 'GLO': d.append('IS_GLO')
    return U('gu_%s%s' % (e, '_' + c if c else ''), 'gutil.c', 'h_' + e, repo_src=src, inc=['/repo'], dep_src=[], defs=d + k.pop('defs', []), fs=k.pop('fs', 8192), **k)
P('G05', [gu(e, c, functions=f.split()) for c in CONS for e, f in (('sig', 'msm_signal_to_code get_msm_%s_code' % c.lower()), ('id', 'code_to_msm_signal_id code_to_msm_signal_index'), ('freq', 'msm_signal_frequency'),
  ('sat', 'msm_sat_to_prn prn_to_msm_sat_id prn_to_msm_sat_index prn_valid'), ('nums', 'msm_get_num_satellites msm_get_num_signals to_msm_msg_num'), ('fcn', 'msm_get_glo_fcn'))])
P('G06', [gu(e, c, functions=f.split()) for c in CONS for e, f in (('addhdr', 'msm_add_to_header'), ('addcell', 'msm_add_to_cell_mask'))])
GE = GU + ['c/gnss_converters/src/rtcm3_sbp_ephemeris.c']
P('G07', [gu('ura', functions=['convert_ura_to_uri', 'convert_gps_uri_to_ura', 'convert_glo_uri_to_ura', 'convert_bds_uri_to_ura']), gu('sisa', unwind=130, functions=['convert_sisa_to_meters', 'convert_meters_to_sisa']),
  gu('sisaany', functions=['convert_meters_to_sisa']), gu('fit', functions=['rtcm3_decode_fit_interval_gps', 'rtcm3_encode_fit_interval_gps', 'rtcm3_encode_fit_interval_glo']),
  gu('ft', src=GE, defs=['WANT_EPH'], functions=['convert_glo_ft_to_meters']), gu('gfit', src=GE, defs=['WANT_EPH'], functions=['rtcm3_decode_fit_interval_glo'])] +
  [gu('bias', c, defs=['WANT_BIAS'], src=GU + ['c/gnss_converters/src/options.c'], uf=True, functions=['msm_glo_fcn_bias']) for c in ('GLO', 'GPS')])

IX = ['c/libixcom/src/' + x for x in ('decode.c', 'encode.c', 'messages.c')]
UFC = {'crc_byte': ('uint16_t', ['const uint16_t', 'const uint16_t'])}
def ix(e, ln, sfx='', defs=(), **k):
    if e in ('dec', 'conv', 'crcsum', 'other'): k['ufun'] = UFC
    k.setdefault('unwind', 60)
    return U('ix_%s_%d%s' % (e, ln, sfx), 'ixcom.c', 'h_' + e, repo_src=IX, inc=['/repo'], dep_src=['streams.c'], defs=['LEN=%d' % ln] + list(defs), fs=k.pop('fs', 8192), **k)
XF = {44: 'imuraw', 28: 'wheeldata'}
P('X01', [ix('crcbyte', 44, functions=['crc_byte']), ix('crcsum', 44, functions=['ixcom_checksum']), ix('crcsum', 28, functions=['ixcom_checksum'])] +
  [ix(e, n, functions=['ixcom_%scode_%s' % ('en' if e == 'enc' else 'de', XF[n])]) for n in XF for e in ('dec', 'enc', 'other')])
P('X02', [ix('read', 28, '_hdr', ['HDR', 'CALLS=3'], unwindset=['read_ixcom_frame.0:5'], functions=['read_ixcom_frame', 'read_ixcom_bytes']), ix('read', 28, '_body', ['CALLS=2'], unwindset=['read_ixcom_frame.0:4'], functions=['read_ixcom_frame']),
          ix('pieces', 28, unwindset=['read_ixcom_frame.0:7'], functions=['read_ixcom_frame'])])
P('X03', [ix('conv', n, functions=['ixcom_handle_frame', 'handle_' + XF[n]], uf=True) for n in XF] + [ix('conv', n, '_bad', ['BADCRC'], functions=['ixcom_handle_frame'], uf=True) for n in XF] + [ix('clamp', 44, functions=['float_to_s16_clamped'])])

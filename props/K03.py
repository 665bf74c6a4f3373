from vf import H
META = dict(
    title='KMP receiver accepts only valid connect packets and starts from their ids',
    statement='A connection is reported only for a connect packet with the right type, sane header and data sizes and a valid initial frame id; anything else closes the connection as a bad request. The channel id, track id, initial frame id and connect data that are reported are those of the packet, however it is fragmented.',
    over=['inputs', 'schedules'],
    q='all values of the fixed connect header, ids with a terminator at any position or none, header extension of 5 / 0 and data of 3 / 0 bytes, fragmentation at multiples of 10 bytes and one after',
    why='No test runs the KMP receiver; header validation must hold for all 2^128 headers.',
    files=['nginx-kmp-in-module/src/ngx_kmp_in.c'],
    mech=[('connect validation', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_read_header'), ('connect data', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_connect_data')])
ASSUMPTIONS = []
HARNESSES = [
    H('kmp_conn', 'kmp_conn.c', units=['nginx-common/src/ngx_buf_chain.c'], timeout=200),
    H('kmp_conn_nodata', 'kmp_conn.c', units=['nginx-common/src/ngx_buf_chain.c'], timeout=200, defs=['XH=0','XD=0']),
]

from vf import H
META = dict(
    title='KMP receiver acknowledgements are whole, increasing and never lost',
    statement='Whatever the order of acknowledged frame ids and however the socket accepts the bytes, the peer receives a sequence of complete acknowledgement packets whose frame ids strictly increase. Once the socket accepts data, the last packet carries the highest id acknowledged so far.',
    over=['inputs', 'schedules'],
    q='all 64-bit ids, all interleavings of acknowledgements and write events up to the bound, partial sends of 0/1/23/39/40/41/80 bytes',
    why='No test runs the KMP receiver; partial sends of a 40 byte packet practically never happen on loopback.',
    files=['nginx-kmp-in-module/src/ngx_kmp_in.c'],
    mech=[('ack queueing', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_ack_frames'), ('send continuation', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_write_handler')])
ASSUMPTIONS = []
HARNESSES = [
    H('kmp_ack', 'kmp_ack.c', units=['nginx-common/src/ngx_buf_chain.c'], timeout=200),
]

from vf import H
META = dict(
    title='KMP publisher sends every published packet, in order, across reconnects',
    statement='Each connection of a publisher to its upstream carries a connect packet, the media info in effect and then the published packets byte for byte from a packet boundary that matches the announced frame id. A reconnect resumes without losing a frame that was not acknowledged (or not sent / not written, according to the configured resume mode), acknowledgements of undelivered frames are refused, and buffers are never released while still needed nor leaked.',
    over=['inputs', 'schedules', 'histories', 'fault_sequences'],
    q='all header and payload contents, all sequences of frame / media info / write / acknowledge / disconnect / flush operations up to the bound, for the three resume modes and several buffer sizes',
    why='The repository has no test of the publisher; the guarantee ranges over disconnect points and partial sends.',
    files=['nginx-kmp-out-module/src/ngx_kmp_out_track.c', 'nginx-kmp-out-module/src/ngx_kmp_out_upstream.c', 'nginx-common/src/ngx_buf_queue.c', 'nginx-common/src/ngx_buf_queue_stream.c'],
    mech=[('packet writer', 'nginx-kmp-out-module/src/ngx_kmp_out_track.c: ngx_kmp_out_track_write_chain, ngx_kmp_out_track_append_all'), ('resume', 'nginx-kmp-out-module/src/ngx_kmp_out_upstream.c: ngx_kmp_out_upstream_send_buffered'), ('acks', 'nginx-kmp-out-module/src/ngx_kmp_out_upstream.c: ngx_kmp_out_upstream_ack_frames, ngx_kmp_out_upstream_auto_ack')])
ASSUMPTIONS = ['The peer, the TCP connection (arbitrary partial sends), the controller (answers every republish) and the buffer allocator are models.']
U = ['nginx-kmp-out-module/src/ngx_kmp_out_track.c', 'nginx-kmp-out-module/src/ngx_kmp_out_upstream.c', 'nginx-kmp-out-module/src/ngx_kmp_out_utils.c',
     'nginx-common/src/ngx_buf_queue.c', 'nginx-common/src/ngx_buf_queue_stream.c', 'nginx-common/src/ngx_json_parser.c']
B = 'one upstream; initial media info, then 4 (thorough: 5) operations out of: frame of 1/34 bytes (whole or in place), media info, write event with 130/unlimited bytes, acknowledgement of any id up to one beyond the published ones, drop and reconnect, flush timer; all header fields and payload symbolic; buffers of %s bytes'
SENT = ['RESUME="last_sent"', 'ACKED_MODE=0', 'SENT_MODE=1']
WR = ['RESUME="last_written"', 'ACKED_MODE=0', 'SENT_MODE=0']
HARNESSES = [
    H('kmp_out', 'kmp_out.c', units=U, timeout=300, defs=['OPS=4'], bounds=B % 72, thorough=dict(defs=['OPS=5', 'STEPS=5'], timeout=2000)),
    H('kmp_out_mi', 'kmp_out.c', units=U, timeout=300, defs=['OPS=5', 'STEPS=3', 'USED=24'], bounds=B % 24, thorough=dict(defs=['OPS=5', 'STEPS=4', 'USED=24'], timeout=2000)),
    H('kmp_out_sent', 'kmp_out.c', units=U, timeout=300, defs=['OPS=4'] + SENT, bounds=B % 72, optional=['ack', 'bad ack'], thorough=dict(defs=['OPS=5', 'STEPS=5'] + SENT, timeout=2000)),
    H('kmp_out_written', 'kmp_out.c', units=U, timeout=300, defs=['OPS=5', 'STEPS=3', 'USED=40'] + WR, optional=['ack', 'bad ack'], bounds=B % 40, thorough=dict(defs=['OPS=5', 'STEPS=4', 'USED=40'] + WR, timeout=2000)),
    H('kmp_out_mem', 'kmp_out.c', units=U, timeout=300, defs=['OPS=1', 'STEPS=5', 'USED=40', 'LIMIT=500', 'ACKED_MODE=0', 'SENT_MODE=0', 'RESUME="last_acked"'], optional=['ack', 'bad ack', 'resumed', 'reconnect'], bounds='memory limit of 500 bytes, 48-byte buffers; ' + B % 40),
]

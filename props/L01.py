from vf import H
META = dict(
    title='The segment list returns exactly the segments that were added',
    statement='For any history of segments (repeated or new durations, index gaps, time gaps, pending segments completed later, expiry of old ones) the run-length coded list of a channel returns the time and duration of every kept segment by index and by iteration, finds the segment that contains (or is closest to) any time and none for times between periods, never merges across a period boundary, keeps iterators at the removed edge valid, and restores the same segments from any persisted range.',
    over=['inputs', 'histories'],
    q='every history of up to 5 segments, and of 3 around the 118-element node boundary; symbolic start time, durations, gaps and query times; every expiry point and every persisted range split in two snapshots',
    why='Tests use a regular stream; run-length joins at node and period boundaries and at expiry are not sampled.',
    files=['nginx-live-module/src/ngx_live_segment_list.c', 'nginx-live-module/src/ngx_live_segment_list.h'],
    mech=[('add', 'nginx-live-module/src/ngx_live_segment_list.c: ngx_live_segment_list_add, ngx_live_segment_list_update_last, ngx_live_segment_list_free_nodes'), ('lookup', 'nginx-live-module/src/ngx_live_segment_list.c: ngx_live_segment_iter_init, ngx_live_segment_list_get_segment_index'), ('persist', 'nginx-live-module/src/ngx_live_segment_list.c: ngx_live_segment_list_write_periods, ngx_live_segment_list_read_period')])
ASSUMPTIONS = ['Block pool items are plain heap objects; a segment is pending only as the last one, as the segmenters do.']
I = ['nginx-live-module/src']
U = ['nginx-live-module/src/ngx_live_segment_list.c', 'nginx-common/src/ngx_persist_write.c', 'nginx-common/src/ngx_persist_read.c', 'nginx-common/src/ngx_mem_rstream.c']
HARNESSES = [
    H('seg_list', 'seg_list.c', units=U, incs=I, timeout=300, defs=['OPS=4'], bounds='up to 4 segments, symbolic times and durations', thorough=dict(defs=['OPS=6'], timeout=6000)),
    H('seg_list_fill', 'seg_list.c', units=U, incs=I, timeout=300, defs=['OPS=3', 'FILL'], bounds='3 calls from 116..118 used elements of a node'),
    H('seg_list_persist', 'seg_list.c', units=U, incs=I, timeout=300, defs=['OPS=3', 'PERSIST'], bounds='up to 3 segments, any sub-range, split in two snapshots', thorough=dict(defs=['OPS=5', 'PERSIST'], timeout=6000)),
    H('seg_list_pfill', 'seg_list.c', units=U, incs=I, timeout=300, defs=['OPS=2', 'PERSIST', 'FILL'], bounds='as above around the node boundary'),
]

from vf import H
from props_live import *
META = dict(
    title='A live timeline lists exactly the segments its configuration promises',
    statement='For any history of added, pending and completed segments, time gaps, inactivity, truncation and restarts, and for any limits (max segments, max duration, manifest limits, start/end range, period gap, end list) a live timeline holds exactly the segments it should: old ones are dropped only when a limit is exceeded (and from an open manifest only while three target durations remain), counts, durations, periods, target duration, media sequence and period numbers match, period corrections keep the configured gap, lookups by index, sequence and relative time return the right segment or the right error, and channel segments are released up to the oldest one any timeline needs. A copy of a timeline selects by [start, end) as a live one does; the state persisted at a snapshot is restored; and the served (KSMP) timeline lists exactly the segments in scope, with the end-list flag, the skipped segments and the pending segment reported correctly.',
    over=['inputs', 'histories'],
    q='every history of up to 3 (copy: 4) operations over 6 configurations; any gap < 5 s; every snapshot point and file split; every request scope, skip boundary and end-list mode',
    why='Tests stream a few fixed shapes; window expiry against period boundaries, inactivity, truncation between snapshot and write and skip boundaries are not sampled.',
    files=[L + 'ngx_live_timeline.c', L + 'ngx_live_timeline.h', L + 'ngx_live_segment_list.c'],
    mech=[('window', L + 'ngx_live_timeline.c: ngx_live_timelines_add_segment, ngx_live_timeline_remove_segments, ngx_live_timelines_truncate'), ('lookup', L + 'ngx_live_timeline.c: ngx_live_timeline_get_segment_info, ngx_live_timeline_sequence_to_index, ngx_live_timeline_get_time'), ('copy', L + 'ngx_live_timeline.c: ngx_live_timeline_copy'), ('persist', L + 'ngx_live_timeline.c: ngx_live_timeline_write_index, ngx_live_timeline_read_index'), ('serve', L + 'ngx_live_timeline.c: ngx_live_timeline_serve_write')])
ASSUMPTIONS = ['Block pool items are plain heap objects; segment times do not go backwards; a restart reads a full index file and at most one delta, with no segment expiring between the two.']
U = CH + TL
HARNESSES = [
    H('timeline', 'timeline.c', units=U, incs=I, defs=['OPS=4', 'GAPS'], timeout=500, bounds='up to 4 operations, 6 configurations', thorough=dict(defs=['OPS=5', 'GAPS'], timeout=6000)),
    H('timeline_gap', 'timeline.c', units=U, incs=I, defs=['OPS=2'], timeout=500, optional=['manifest window moved'], bounds='up to 2 operations, 6 configurations, symbolic gaps', thorough=dict(defs=['OPS=3'], timeout=6000)),
    H('timeline_copy', 'timeline.c', units=U, incs=I, defs=['OPS=4', 'COPY'], timeout=400, bounds='up to 4 segments, any range, gap or limit', thorough=dict(defs=['OPS=6', 'COPY'], timeout=6000)),
    H('timeline_persist', 'timeline.c', units=U, incs=I, defs=['OPS=3', 'PERSIST'], timeout=400, bounds='up to 3 operations, any snapshot point, one or two files', thorough=dict(defs=['OPS=4', 'PERSIST'], timeout=6000)),
    H('timeline_serve', 'timeline.c', units=U, incs=I, defs=['OPS=3', 'SERVE'], timeout=400, bounds='up to 3 operations, any scope', thorough=dict(defs=['OPS=4', 'SERVE'], timeout=6000)),
]

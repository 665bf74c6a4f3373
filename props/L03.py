from vf import H
from props_live import *
META = dict(
    title='Incoming frames are cut into segments at key frames, each exactly once',
    statement='For any group-of-pictures pattern, any frame reordering delay, any moment the creation timer runs, and any jump of the timestamps, change of media info, reconnection or silence of a stream: the segmenter puts the accepted frames of each track into segments exactly once and in order, with their sizes, key flags, presentation times and data (data chain terminated, nothing freed that is in use); a video segment starts with a key frame and no segment mixes the two sides of a timestamp discontinuity or media info change; while all tracks are ready a segment ends at the key frame nearest to the target duration, audio is cut at the frame nearest to that point; segments have consecutive indexes, never overlap, and a gap, a discontinuity, a media info change or a track that disappears starts a new period (and nothing else does); a subtitle cue is in every segment it is shown in; frames are dropped only around a discontinuity; when the streams end or fall silent everything pending is flushed and the channel becomes inactive; on reconnection exactly the unused frames are requested again.',
    over=['inputs', 'histories'],
    q='5 free groups of pictures repeated over 16-18 s; any jump from -8 s to +15 s at 8 positions; 2 tracks at most',
    why='Tests feed a few well formed streams; cut decisions depend on the relation of key frames, boundaries, jumps and timer moments.',
    files=[L + 'ngx_live_segmenter.c', L + 'ngx_live_segmenter.h', L + 'ngx_live_channel.c'],
    mech=[('cut', L + 'ngx_live_segmenter.c: ngx_live_segmenter_create_segments, ngx_live_segmenter_get_segment_times, ngx_live_segmenter_set_split_indexes'), ('frames', L + 'ngx_live_segmenter.c: ngx_live_segmenter_add_frame, ngx_live_segmenter_frame_list_copy, ngx_live_segmenter_frame_list_remove'), ('state', L + 'ngx_live_segmenter.c: ngx_live_segmenter_start_stream, ngx_live_segmenter_end_stream, ngx_live_segmenter_inactive_handler')])
ASSUMPTIONS = ['Default segmenter configuration, timescale 1000, 4 s segments, no filler, no input delay; segment cache, timelines, media info queue and notifications are recording stand-ins.']
U = CH + [L + 'ngx_live_segmenter.c', N + 'ngx_buf_chain.c']
def S(name, m, bounds, **k): return H(name, 'segmenter.c', units=U, incs=I, defs=['MODE=%d' % m], opts=['--enum'], timeout=500, bounds=bounds, **k)
HARNESSES = [
    S('seg_video', 0, '16 s of one video track, 5 free groups'),
    S('seg_event', 1, '34 frames of one video track, one event at 8 positions'),
    H('seg_delay', 'segmenter.c', units=U, incs=I, defs=['MODE=1', 'DELAY'], optional=[], timeout=500, bounds='34 frames of one video track, 13 steps of the presentation delay from -3 s to 10 s at 8 positions'),
    S('seg_av', 2, '17 s, video and audio'),
    S('seg_two', 3, '17 s, two video tracks'),
    S('seg_sub', 4, '17 s, video and 3 cues'),
    S('seg_audio', 5, '40 audio frames'),
    S('seg_join', 6, '17 s, video and audio, which joins late or ends early'),
]

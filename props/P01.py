from vf import H
M = 'nginx-pckg-module/src/media/'
META = dict(
    title='An MPEG-TS segment demuxes to exactly the frames that were packaged',
    statement='For every segment of H.264/H.265 video frames (NAL units with 1-4 byte lengths), AAC/AC-3 audio frames and an ID3 metadata block, whatever their bytes, sizes, timestamps and composition delays, with interleave_frames and align_frames each on or off, with source reads that return a frame in one or several pieces, out of order reuse of buffers allowed or not, and a suspension of the source at any frame: '
              'the output of the muxer is a whole number of 188-byte packets, whose PAT and PMT are well formed with correct CRCs, list each stream once with the type of its codec and name the PID that carries the PCR; the continuity counters of every stream are consecutive, start at 0 and end at a multiple of 16 (the ID3 stream starts at the segment index); a packet has at most one PES header; stuffing and adaptation fields are well formed; PES lengths, when present, match; '
              'reassembling the payloads gives exactly the elementary stream: Annex B start codes, one access unit delimiter per video frame, the parameter sets before every key frame, all the NAL units but the delimiters of the input, ADTS headers on AAC, the ID3 tag; every video frame has a PES, and the PTS, DTS and PCR of each PES are those of the first frame that starts in it, modulo 2^33; and the size announced before the output (with 4-byte NAL lengths) is the size of what was output.',
    over=['inputs', 'histories'],
    q='The muxer is run end to end in the executor (init: measuring pass, then the process loop with its filters, buffer pool and write queue) and its output is demuxed by an independent demultiplexer in the harness. Frame contents, timestamps and delays are 8/32/40-bit symbolic variables; the sizes, NAL structure, codecs, options, splits of the reads and stream mix are branches. Every byte and field comparison is a query.',
    why='The packetizer inserts PES headers into packets that were already started, moves the excess between packets and patches sizes behind: what breaks is a coincidence of sizes (an end within a header of a packet boundary) with an option, which no fixed sample hits. On the pinned tree this found two defects: PMTs of audio only segments with a PCR PID that is not in the stream, and PES headers that overwrote each other when a whole PES fit in a packet.',
    files=[M + 'mpegts/mpegts_muxer.c', M + 'mpegts/mpegts_encoder_filter.c', M + 'mpegts/mp4_to_annexb_filter.c', M + 'mpegts/frame_joiner_filter.c', M + 'mpegts/buffer_filter.c', M + 'mpegts/adts_encoder_filter.c', M + 'mpegts/id3_encoder_filter.c', M + 'write_buffer_queue.c'],
    mech=[('mux', M + 'mpegts/mpegts_muxer.c: mpegts_muxer_init_segment, mpegts_muxer_process'), ('packetize', M + 'mpegts/mpegts_encoder_filter.c: mpegts_encoder_start_frame, mpegts_encoder_write, mpegts_encoder_flush_frame'), ('annexb', M + 'mpegts/mp4_to_annexb_filter.c: mp4_to_annexb_write'), ('join', M + 'mpegts/frame_joiner_filter.c: frame_joiner_start_frame'), ('queue', M + 'write_buffer_queue.c: write_buffer_queue_get_buffer')])
ASSUMPTIONS = ['the PES of a video frame, and the packetizing of MP3, DTS and E-AC-3 (same code as AC-3), are covered through the codecs named; SAMPLE-AES and AES-128 are outside this property', 'nothing outside the muxer is executed: frames come from a source of the harness, as from the KSMP parser']
I = [M, M + 'mpegts']
U = [M + 'mpegts/' + x for x in ['mpegts_muxer.c', 'mpegts_encoder_filter.c', 'buffer_filter.c', 'frame_joiner_filter.c', 'adts_encoder_filter.c', 'id3_encoder_filter.c', 'mp4_to_annexb_filter.c']] + [M + x for x in ['write_buffer_queue.c', 'buffer_pool.c', 'frames_source_memory.c', 'id3_defs.c']]
B = 'contents, first dts (< 2^40) and composition delays symbolic; '
HARNESSES = [
    H('ts_video1', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'FRAMES=1', 'SZ0=0', 'SZ1=0', 'ENVS=3'], timeout=400, bounds=B + '1 video frame of each size from 100 to 290 bytes, AVC/HEVC, 1-2 NAL units of 4-byte lengths, 3 of the source/pool/reuse settings, align on/off', thorough=dict(defs=['VIDEO', 'FRAMES=1', 'SZ0=0', 'SZ1=0', 'ENVS=5'], timeout=800)),
    H('ts_video2', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'FRAMES=2', 'SZ0=1', 'SZ1=3'], timeout=400, bounds=B + '2 video frames, 20 x 3 sizes (8 to 2701 bytes), 4 settings', thorough=dict(defs=['VIDEO', 'FRAMES=3', 'SZ0=1', 'SZ1=3'], timeout=880)),
    H('ts_nal', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'FRAMES=2', 'SZ0=3', 'SZ1=4', 'NALLEN'], timeout=400, optional=['PES starts inside a frame'], bounds=B + 'the same with NAL lengths of 1, 2 and 3 bytes (no announced size)'),
    H('ts_audio', 'ts_mux.c', units=U, incs=I, defs=['AUDIO', 'FRAMES=3', 'SZ0=2', 'SZ1=3'], timeout=400, bounds=B + '3 AAC/AC-3 frames, 5 x 3 x 3 sizes, with or without a gap before each, interleave and align on/off, 4 settings', thorough=dict(defs=['AUDIO', 'FRAMES=4', 'SZ0=2', 'SZ1=3', 'ENVS=5'], timeout=880)),
    H('ts_sweep_v', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'FRAMES=2', 'SZ0=0', 'SZ1=4', 'ONENAL', 'ALIGN=0', 'ENVS=2'], timeout=400, bounds=B + '2 unaligned video frames, the first of each size from 100 to 290, the second of 9 or 158 bytes, one NAL unit each', optional=['delimiter dropped']),
    H('ts_sweep_a', 'ts_mux.c', units=U, incs=I, defs=['AUDIO', 'FRAMES=3', 'SZ0=0', 'SZ1=4', 'ALIGN=0', 'ENVS=1'], timeout=400, bounds=B + '3 unaligned audio frames, the first of each size from 100 to 290, gaps, interleave on/off'),
    H('ts_size_v', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'FRAMES=2', 'SZ0=5', 'SZ1=4', 'ONENAL', 'ENVS=1'], timeout=400, bounds=B + '2 video frames, the first of each size from 2700 to 2890 (the announced size around the padding to 16 packets)', optional=['delimiter dropped']),
    H('ts_size_a', 'ts_mux.c', units=U, incs=I, defs=['AUDIO', 'FRAMES=2', 'SZ0=5', 'SZ1=4', 'ENVS=1'], timeout=400, bounds=B + '2 audio frames, likewise', optional=['joined frames']),
    H('ts_many', 'ts_mux.c', units=U, incs=I, defs=['AUDIO', 'FRAMES=48', 'MANY', 'SZ0=0', 'SZ1=0', 'ENVS=3'], timeout=400, bounds='contents symbolic; two values of the first dts; 48 audio frames of 7, 9, 20, 55 or 170 bytes but for the middle (up to 7 more) and the last one (up to 2800 more)', thorough=dict(defs=['AUDIO', 'FRAMES=50', 'MANY', 'SZ0=0', 'SZ1=0', 'ENVS=5'], timeout=880)),
    H('ts_mux', 'ts_mux.c', units=U, incs=I, defs=['VIDEO', 'AUDIO', 'FRAMES=2', 'ID3', 'SZ0=3', 'SZ1=4', 'ENVS=2'], timeout=500, bounds='contents symbolic; AVC+AAC or HEVC+AC-3, 2 frames each, 3 x 2 sizes per stream, no metadata or 1, 153 or 200 bytes of it, interleave and align on/off, 2 settings', thorough=dict(defs=['VIDEO', 'AUDIO', 'FRAMES=2', 'ID3', 'SZ0=2', 'SZ1=3', 'ENVS=4'], timeout=880)),
]

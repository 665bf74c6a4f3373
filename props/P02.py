from vf import H
M = 'nginx-pckg-module/src/media/'
META = dict(
    title='fMP4 segments and init segments describe exactly what was packaged',
    statement='For every media segment of up to three tracks (H.264/H.265 video, AAC audio, WebVTT, TTML), whatever the contents, sizes, durations, composition delays, key frame flags and 64-bit start times of its frames, however the source splits its reads, suspends, or reuses its buffers, and with one writer or a writer per track: '
              'the boxes of the segment nest exactly (styp, emsg with the ID3 metadata when there is any, sidx, moof with mfhd/traf/tfhd/tfdt/trun, mdat); every track has one traf, whose runs have one sample per frame, in order, with its size, duration, sync flags and composition offset relative to the first frame, and whose data offsets point at the very bytes of that frame in the mdat, where samples do not overlap and leave no gap; the decode time of the traf is the presentation time of the first frame, clipped at zero; the sidx has the same time, the total size and the total duration of the segment; the mfhd has the segment index; and the announced response size is what is output, for head requests too. '
              'The init segment is a well formed ftyp and moov: one trak and trex per track, in order, with ids from 1, the timescale, dimensions, handler, language (when it is three lower case letters, else "und"), media header and sample entry of the codec with its exact configuration bytes; with encryption, encv/enca entries with the original format, the scheme, the key id and (cbcs) the constant IV and pattern, followed by the clear entry when there is a clear lead; and then the extra atom, if any.',
    over=['inputs', 'histories'],
    q='The builders are run in the executor and the output is parsed by an independent ISO BMFF reader in the harness. Contents, durations, delays, times, bit rates, dimensions, key ids are symbolic variables; the frame counts and sizes, codecs, options and interleaving orders are branches. Every box size, field and byte comparison is a query.',
    why='The sizes are computed by one function and the bytes written by another, for each box, and the data offsets of interleaved tracks come from a separate simulation of the writing order; they drift apart for some mix of track types, frame counts, 32/64-bit times or options that samples do not hit.',
    files=[M + 'mp4/mp4_muxer.c', M + 'mp4/mp4_init_segment.c', M + 'mp4/mp4_defs.h', M + 'id3_defs.c'],
    mech=[('header', M + 'mp4/mp4_muxer.c: mp4_muxer_init_fragment'), ('interleave', M + 'mp4/mp4_muxer.c: mp4_muxer_choose_stream, mp4_muxer_process_frames'), ('init', M + 'mp4/mp4_init_segment.c: mp4_init_segment_build')])
ASSUMPTIONS = ['configuration of AAC of at most 127 bytes (one byte descriptor lengths)', 'the timescale of the tracks is 90000 (as in the KSMP parser)', 'composition delays of video frames below 2^31; start times within 40 bits', 'the encryption of the frames is outside this property']
I = [M, M + 'mp4']
U = [M + 'mp4/mp4_muxer.c', M + 'id3_defs.c']
UI = [M + 'mp4/mp4_init_segment.c']
HARNESSES = [
    H('mp4_v', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='v'", 'FRAMES=3', 'MINF=0', 'META'], timeout=400, thorough=dict(defs=["KINDS='v'", 'FRAMES=4', 'MINF=0', 'META'], timeout=880), bounds='0-3 video frames of 0, 1 or 3 bytes, metadata of 0, 1 or 150 bytes; 6 settings of writer/source/reuse; all scalars and contents symbolic'),
    H('mp4_a', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='a'", 'FRAMES=3', 'MINF=3'], timeout=400, bounds='3 audio frames of 0, 1 or 3 bytes, 6 settings'),
    H('mp4_w', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='w'", 'FRAMES=3', 'MINF=3'], timeout=400, bounds='3 WebVTT frames, likewise'),
    H('mp4_t', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='t'", 'FRAMES=2', 'MINF=0'], timeout=400, bounds='0-2 TTML frames, likewise'),
    H('mp4_va', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='v','a'", 'FRAMES=2', 'MINF=2'], timeout=400, thorough=dict(defs=["KINDS='v','a'", 'FRAMES=2', 'MINF=0'], timeout=880), bounds='video and audio, 2 frames each of 0, 1 or 3 bytes, 6 settings, all scalars and contents symbolic (so every interleaving)'),
    H('mp4_vaw', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='v','a','w'", 'FRAMES=2', 'MINF=1', 'FIXSZ'], timeout=400, bounds='video, audio, WebVTT, 1-2 frames each of fixed sizes 1-3, start times -4, 0 or 23000, durations 1 or 25000, 6 settings'),
    H('mp4_va3', 'mp4_mux.c', units=U, incs=I, defs=["KINDS='v','a'", 'FRAMES=3', 'MINF=3', 'FIXSZ'], timeout=400, bounds='the same with video and audio, 3 frames each'),
    H('mp4_init_v', 'mp4_init.c', units=UI, incs=I, defs=["KINDS='v'"], timeout=400, bounds='one video track: codecs x no encryption/cenc/cbcs x clear lead x configuration of 0, 2, 40 bytes x language of 0, 2, 3 letters x extra atom; contents symbolic'),
    H('mp4_init_a', 'mp4_init.c', units=UI, incs=I, defs=["KINDS='a'"], timeout=400, bounds='one audio track (AAC, AC-3, E-AC-3, Opus), likewise'),
    H('mp4_init_s', 'mp4_init.c', units=UI, incs=I, defs=["KINDS='w','t'"], timeout=400, bounds='WebVTT and TTML tracks, likewise'),
    H('mp4_init_va', 'mp4_init.c', units=UI, incs=I, defs=["KINDS='v','a'"], timeout=400, bounds='video and audio tracks, likewise'),
]

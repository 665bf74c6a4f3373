from vf import H
M = 'nginx-pckg-module/src/media/'
META = dict(
    title='Encrypted segments decrypt to exactly the input media',
    statement='CENC (AES-CTR) fMP4 segments of one H.264/H.265 or audio track: decrypting the mdat as told by the senc/saiz/saio boxes of the segment itself gives back every byte of the input frames; frame i uses the 8-byte IV (key IV + start time in 60ths of a second + i) with a block counter from 0; the subsamples cover each frame exactly, and exactly the payloads of slice NAL units (all but length prefix and NAL header byte) are encrypted, everything in audio. This holds for every NAL length size, NAL mix and split of reads, for head requests and for segments with one NAL unit per frame. '
              'CBCS fMP4 segments of video, audio and WebVTT tracks: after the slice header of each slice NAL unit, 1 of 10 blocks is encrypted with CBC, the IV is reset at each NAL unit, units of less than 18 bytes, slices with less than a block after their header, and non-slices are clear; audio frames have their full blocks encrypted with the IV reset at each frame and a clear tail; subtitles are clear; all bytes are output, however short the last unit is and whatever tracks are empty. '
              'AES-128: the output is the CBC encryption of the concatenated writes with PKCS#7 padding. The base64 pssh of each DRM system encodes one well formed pssh box, version 0, or version 1 for the W3C clear key system, within the announced size.',
    over=['inputs', 'histories'],
    q='The encryption writers run under the muxer in the executor, over a stand-in for the block cipher (a keyed permutation of symbolic bytes); the harness derives the expected output from the input frames by its own reading of the schemes. Contents, key and IV are symbolic; sizes, splits, codecs are branches; every output byte comparison is a query.',
    why='The encryption is a set of byte-wise state machines fed with arbitrary slices of the frames, whose states depend on where in a NAL length, slice header, block or pattern a read ends, and on which unit is last.',
    files=[M + x for x in ['mp4/mp4_dash_encrypt.c', 'mp4/mp4_cenc_encrypt.c', 'mp4/mp4_cbcs_encrypt.c', 'mp4/mp4_aes_ctr.c', 'aes_cbc_encrypt.c', 'write_buffer.c']],
    mech=[('cenc', M + 'mp4/mp4_cenc_encrypt.c: mp4_cenc_encrypt_video_write_buffer, mp4_cenc_encrypt_audio_write_buffer'), ('header', M + 'mp4/mp4_dash_encrypt.c'), ('cbcs', M + 'mp4/mp4_cbcs_encrypt.c'), ('aes128', M + 'aes_cbc_encrypt.c')])
ASSUMPTIONS = ['the block cipher is a stand-in: that AES itself is OpenSSL\'s is outside', 'the size of the slice headers is given (2, 5, 40, 126 bytes)', 'frames are not empty, at most 6 NAL units per frame', 'output buffers of 48 bytes (400 in the large harness) instead of 64 KB, so that they run out often']
I = [M, M + 'mp4']
UC = [M + x for x in ['mp4/mp4_muxer.c', 'mp4/mp4_dash_encrypt.c', 'mp4/mp4_cenc_encrypt.c', 'mp4/mp4_aes_ctr.c', 'write_buffer.c', 'dynamic_buffer.c', 'id3_defs.c']]
UB = [M + x for x in ['mp4/mp4_muxer.c', 'mp4/mp4_cbcs_encrypt.c', 'write_buffer.c', 'id3_defs.c']]
HARNESSES = [
    H('cenc_v', 'enc_cenc.c', units=UC, incs=I, defs=['VIDEO', 'FRAMES=2', 'NALS=2', 'PIECES=3', 'SIZES=1,17,40'], timeout=400, thorough=dict(defs=['VIDEO', 'FRAMES=2', 'NALS=2', 'PIECES=4', 'SIZES=1,2,17,33,40'], timeout=880), bounds='2 video frames of 1-2 NAL units of 1, 17 or 40 bytes, 4 read sizes, 4 IV/start time pairs; contents, key symbolic'),
    H('cenc_nal', 'enc_cenc.c', units=UC, incs=I, defs=['VIDEO', 'FRAMES=1', 'NALS=3', 'PIECES=3', 'NALLEN', 'EMPTY', 'SIZES=1,2,18'], timeout=400, bounds='0-1 frame of 1-3 NAL units of 1, 2 or 18 bytes, NAL length sizes 1-4'),
    H('cenc_big', 'enc_cenc.c', units=UC, incs=I, defs=['VIDEO', 'FRAMES=1', 'NALS=2', 'PIECES=4', 'IVS=0', 'SIZES=8,1025,1041', 'BUF=400'], timeout=400, bounds='1 frame of 1-2 NAL units of 8, 1025 or 1041 bytes (more than the 64 counter blocks made at once), 5 read sizes'),
    H('cenc_many', 'enc_cenc.c', units=UC, incs=I, defs=['VIDEO', 'FRAMES=1', 'NALS=6', 'PIECES=1', 'IVS=0', 'SIZES=1,17'], timeout=400, bounds='1 frame of 1-6 NAL units of 1 or 17 bytes'),
    H('cenc_snpf', 'enc_cenc.c', units=UC, incs=I, defs=['VIDEO', 'FRAMES=3', 'NALS=1', 'PIECES=3', 'SNPF', 'EMPTY', 'SIZES=1,2,18,40'], timeout=400, bounds='0-3 frames of one NAL unit of 1, 2, 18 or 40 bytes, header built up front'),
    H('cenc_a', 'enc_cenc.c', units=UC, incs=I, defs=['FRAMES=3', 'PIECES=3', 'SIZES=1,15,16,17,40', 'NALS=1', 'EMPTY'], timeout=400, bounds='0-3 audio frames of 1, 15, 16, 17 or 40 bytes'),
    H('cbcs_v', 'enc_cbcs.c', units=UB, incs=I, defs=["KINDS='v'", 'FRAMES=2', 'NALS=2', 'PIECES=3', 'SHS=1', 'SIZES=1,17,21,50'], timeout=400, bounds='2 video frames of 1-2 NAL units of 1, 17, 21 or 50 bytes, slice headers of 2, 5 bytes, 4 read sizes'),
    H('cbcs_nal', 'enc_cbcs.c', units=UB, incs=I, defs=["KINDS='v'", 'FRAMES=1', 'NALS=1', 'PIECES=4', 'SHS=3', 'NALLEN', 'EMPTY', 'SIZES=1', 'ALLSZ=200', 'ALLBASE=0'], timeout=400, bounds='0-1 NAL unit of every size 1-200, NAL length sizes 1-4, slice headers of 2, 5, 40, 126 bytes, 5 read sizes'),
    H('cbcs_big', 'enc_cbcs.c', units=UB, incs=I, defs=["KINDS='v'", 'FRAMES=1', 'NALS=1', 'PIECES=4', 'SHS=3', 'SIZES=1', 'ALLSZ=25', 'ALLBASE=315'], timeout=400, thorough=dict(defs=["KINDS='v'", 'FRAMES=1', 'NALS=1', 'PIECES=4', 'SHS=3', 'SIZES=1', 'ALLSZ=310', 'ALLBASE=200'], timeout=880), bounds='the same with every size 316-340'),
    H('cbcs_a', 'enc_cbcs.c', units=UB, incs=I, defs=["KINDS='a'", 'FRAMES=3', 'NALS=1', 'PIECES=4', 'SHS=0', 'EMPTY', 'SIZES=1,15,16,17,40'], timeout=400, bounds='0-3 audio frames of 1, 15, 16, 17, 40 bytes, 5 read sizes'),
    H('cbcs_va', 'enc_cbcs.c', units=UB, incs=I, defs=["KINDS='v','a','w'", 'FRAMES=2', 'NALS=1', 'PIECES=2', 'SHS=0', 'EMPTY', 'SIZES=7,40'], timeout=400, bounds='video, audio and WebVTT tracks of 0-2 frames of 7 or 40 bytes, 3 read sizes'),
    H('aes128', 'enc_aes.c', units=[M + 'aes_cbc_encrypt.c'], incs=I, defs=['WRITES=4', 'SIZES=1,7,15,16,17,32,33'], timeout=400, thorough=dict(defs=['WRITES=5', 'SIZES=1,7,15,16,17,32,33'], timeout=600), bounds='0-4 writes of 1, 7, 15, 16, 17, 32, 33 bytes, or one shot of 0-50 bytes'),
    H('pssh', 'enc_pssh.c', units=UC, incs=I, timeout=400, bounds='1-2 systems, data of 0-40 (two systems: 0-4) bytes; ids and data symbolic'),
]

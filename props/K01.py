from vf import H
META = dict(
    title='KMP receiver delivers exactly the packets the stream contains',
    statement='However a KMP byte stream is cut into network reads and input buffers, the receiver reports exactly the media infos, frames and end of stream it contains, in order, with their header fields, payload bytes and consecutive frame ids. Frames are skipped only for the documented reasons (resume overlap, empty, no media info, waiting for a key frame), malformed packets are rejected, and no buffer of the stream is lost or released twice.',
    over=['inputs', 'schedules'],
    q='all contents of two-packet streams of the listed sizes (any packet types), every split into two reads, same or different input buffer, any resume state',
    why='The tests do not run the KMP receiver at all; the guarantee is over every byte content and every fragmentation.',
    files=['nginx-kmp-in-module/src/ngx_kmp_in.c', 'nginx-common/src/ngx_buf_chain.c'],
    mech=[('packet parser', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_process_buffer'), ('frame filter and ids', 'nginx-kmp-in-module/src/ngx_kmp_in.c: ngx_kmp_in_frame'), ('buffer chains', 'nginx-common/src/ngx_buf_chain.c')])
ASSUMPTIONS = ['The stream consumer, the sockets and the buffer pool are models; the established connection starts in any state between packets.']
U = ['nginx-common/src/ngx_buf_chain.c']
B = 'two packets of %s bytes (header+data), every split, two buffers; all types and contents'
HARNESSES = [
    H('kmp_in', 'kmp_in.c', units=U, timeout=300, bounds=B % '48+1, 40+2'),
    H('kmp_in_fm', 'kmp_in.c', units=U, timeout=300, defs=['H1=40', 'D1=0', 'H2=50', 'D2=1'], bounds=B % '40+0, 50+1'),
    H('kmp_in_small', 'kmp_in.c', units=U, timeout=300, defs=['H1=16', 'D1=3', 'H2=17', 'D2=0'], optional=['media info', 'frame'], bounds=B % '16+3, 17+0'),
    H('kmp_in_seq', 'kmp_in.c', units=U, timeout=300, defs=['SEQ=4'], optional=['rejected'], bounds='four packets of 48+1 bytes, media infos and frames in any order, one split; all contents and resume states',
      thorough=dict(defs=['SEQ=5'], timeout=2500)),
    H('kmp_in_hdr', 'kmp_in_hdr.c', units=U, timeout=300, bounds='one packet header with all sizes and types symbolic, split at any position'),
]

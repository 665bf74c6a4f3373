from vf import H
META = dict(
    title='RTMP receiver reassembles exactly the messages that the peer sent',
    statement='For any sequence of messages sent as interleaved chunks on several chunk streams (any basic header size, header formats 0 to 3, extended timestamps, zero length to many chunks, chunk size changes in between) and any fragmentation into network reads, the RTMP receiver hands every message to its handlers once, in order of completion, with exactly its type, stream ids, timestamp, length and bytes. For arbitrary input it never accesses memory outside its buffers, never collects more than max_message bytes for a message and releases everything when the session closes.',
    over=['inputs', 'schedules', 'histories'],
    q='all streams of the listed numbers of chunks with symbolic contents and timestamps, every split into two reads or byte by byte; all short arbitrary byte streams',
    why='The tests have no RTMP receiver test; fragmentation, interleaving and hostile headers are unbounded.',
    files=['nginx-rtmp-module/src/ngx_rtmp_handler.c', 'nginx-rtmp-module/src/ngx_rtmp_receive.c', 'nginx-rtmp-module/src/ngx_rtmp_init.c'],
    mech=[('chunk parser', 'nginx-rtmp-module/src/ngx_rtmp_handler.c: ngx_rtmp_recv'), ('chunk size change', 'nginx-rtmp-module/src/ngx_rtmp_handler.c: ngx_rtmp_set_chunk_size'), ('dispatch', 'nginx-rtmp-module/src/ngx_rtmp_handler.c: ngx_rtmp_receive_message')])
ASSUMPTIONS = ['Sockets, timers and configuration are models; a type 3 chunk that starts a message directly after a type 0 one is not generated (ambiguous in the standard).']
R = 'nginx-rtmp-module/src/'
U = [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_receive.c', R + 'ngx_rtmp_init.c', R + 'ngx_rtmp_send.c', R + 'ngx_rtmp_shared.c', R + 'ngx_rtmp_bandwidth.c', R + 'ngx_rtmp_amf.c']
B = '%s; every split into two reads and byte by byte'
HARNESSES = [
    H('rtmp_in', 'rtmp_in.c', units=U, timeout=300, bounds=B % '3 chunks on two chunk streams, messages of 5 and 9 bytes in chunks of 8'),
    H('rtmp_in_one', 'rtmp_in.c', units=U, timeout=300, defs=['ONE', 'OPS=2', 'SIZES=0,1,8,16,17,24,40'], bounds=B % '2 messages of 0 to 40 bytes'),
    H('rtmp_in_ext', 'rtmp_in.c', units=U, timeout=300, defs=['EXT', 'OPS=2'], bounds=B % '2 chunks on two chunk streams, any timestamps including extended ones'),
    H('rtmp_in_auto', 'rtmp_in.c', units=U, timeout=300, defs=['EXT', 'OPS=3', 'ONE', 'AUTO'], bounds=B % '3 chunks on one stream, detection of extended timestamps in type 3 chunks'),
    H('rtmp_in_scs', 'rtmp_in.c', units=U, timeout=300, defs=['SCS', 'OPS=2', 'CSID_A=70', 'CSID_B=400', 'SIZES=9'], bounds=B % '2 chunks with chunk size changes, 2 and 3-byte basic headers'),
    H('rtmp_in_scs1', 'rtmp_in.c', units=U, timeout=300, defs=['SCS', 'OPS=3', 'ONE', 'SIZES=9'], bounds=B % '3 chunks on one stream, with chunk size changes'),
    H('rtmp_in_scs2', 'rtmp_in.c', units=U, timeout=300, defs=['SCS', 'OPS=3', 'ONE', 'SIZES=9', 'CHUNK=80'], bounds=B % '3 chunks on one stream, several chunk size changes in one buffer'),
    H('rtmp_in_csid', 'rtmp_in.c', units=U, timeout=300, defs=['OPS=2', 'MAXCS=900', 'SIZES=9', 'CSIDS=2,63,64,127,128,319,320,383,575,576,831,832,899'], bounds=B % '2 chunks on two chunk streams, 13 chunk stream ids at the limits of the basic header forms'),
    H('rtmp_raw', 'rtmp_raw.c', units=U, timeout=300, opts=['--enum'], defs=['LEN=7'], optional=['message', 'chunk size'], bounds='7 arbitrary bytes, chunk size 3, max_message 8, 5 chunk streams, every split and byte by byte'),
    H('rtmp_raw2', 'rtmp_raw.c', units=U, timeout=300, opts=['--enum'], optional=['chunk size'], defs=['LEN=24', 'CUT=7', 'FIXED=3,0,0,0,0,0,8,9,0xee,0xee,0xee,0xee,0xee,0xee,0xee'], bounds='12 arbitrary bytes in the middle of a message'),
    H('rtmp_raw3', 'rtmp_raw.c', units=U, timeout=300, opts=['--enum'], optional=['chunk size', 'session closed', 'message'], defs=['LEN=32', 'CUT=19', 'FIXED=3,0,0,0,0,0,8,9,0xee,0xee,0xee,0xee,1,2,3,0x43,0xee,0xee,0xee,0,0,0xee,0xee,1,2,3,0xee,0xee,0xee,0xee,0xee,0xee'], bounds='a message of 8 bytes whose second chunk announces a different size, followed by 6 arbitrary bytes'),
]

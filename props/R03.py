from vf import H
META = dict(
    title='RTMP sender transmits exactly the accepted messages',
    statement='Every message accepted into the output queue of an RTMP session leaves as a chunk stream that decodes to exactly that message (chunk stream id, type, message stream id, timestamp including extended ones, length, payload), in the order of acceptance, whole, however few bytes the socket accepts at a time; a message is accepted whenever the queue has room for its priority and is otherwise dropped as a whole, for any configured queue size. Shared buffers are released exactly once, also when the session closes with queued data.',
    over=['inputs', 'schedules', 'faults'],
    q='all sequences of the listed numbers of messages with symbolic timestamps and contents; every point where the socket blocks and resumes',
    why='The tests have no RTMP output test; partial writes, queue states and timestamps are unbounded.',
    files=['nginx-rtmp-module/src/ngx_rtmp_handler.c', 'nginx-rtmp-module/src/ngx_rtmp_shared.c', 'nginx-rtmp-module/src/ngx_rtmp_init.c'],
    mech=[('encoder', 'nginx-rtmp-module/src/ngx_rtmp_handler.c: ngx_rtmp_prepare_message'), ('queue', 'nginx-rtmp-module/src/ngx_rtmp_handler.c: ngx_rtmp_send_message, ngx_rtmp_send'), ('buffers', 'nginx-rtmp-module/src/ngx_rtmp_shared.c')])
ASSUMPTIONS = ['Relative headers are given a predecessor without a length, as all callers do (message header formats 2 and 3 are not produced).']
from props_rtmp import U
B = '%s; the socket blocks once, at any byte, and resumes before any later message or at the end'
HARNESSES = [
    H('rtmp_out', 'rtmp_out.c', units=U, timeout=300, defs=['SIZES=8,17'], bounds=B % '2 messages (each sent once or twice) of 8 and 17 bytes in chunks of 8, two chunk streams', optional=['dropped']),
    H('rtmp_out_q', 'rtmp_out.c', units=U, timeout=300, defs=['SIMPLE=1', 'OPS=4', 'SIZES=9', 'QUEUES=3,4,5,7', 'ROT=3', 'BLOCKS=3'], bounds=B % '5 message sends in queues of 3, 4, 5, 7 slots'),
    H('rtmp_out_cork', 'rtmp_out.c', units=U, timeout=300, defs=['SIMPLE=1', 'OPS=3', 'SIZES=9', 'PRIO', 'CORK', 'BLOCKS=20'], bounds=B % '3 messages of any priority, output is corked'),
    H('rtmp_out_close', 'rtmp_out.c', units=U, timeout=300, defs=['SIMPLE=1', 'OPS=3', 'SIZES=1,9', 'CLOSE', 'BLOCKS=30', 'CSID_B=70'], bounds=B % '3 messages, then the session closes', optional=['message', 'dropped', 'blocked']),
]

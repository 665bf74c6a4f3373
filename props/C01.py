from vf import H
META = dict(
    title='Buffers are never shared, lost or overcharged: allocator, queue and chains',
    statement='For any sequence of operations: live buffers of the large buffer allocator never overlap, a block is mapped only when no mapped one has a free buffer and at most one empty block stays mapped; a buffer queue is a fifo whose memory limit is charged with exactly the buffers it holds, get fails exactly when the limit is reached, free keeps the buffer of the given position, detach/delete return everything once; streams and chains act as on the concatenated bytes.',
    over=['inputs', 'histories'],
    q='every sequence of alloc/free (10 calls) and of get/free/detach/delete (7 calls), symbolic contents, limits and positions; every chain of up to 4 links',
    why='Fragmentation patterns and exact limit or boundary positions are not sampled by the tests.',
    files=['nginx-common/src/ngx_lba.c', 'nginx-common/src/ngx_buf_queue.c', 'nginx-common/src/ngx_buf_queue_stream.c', 'nginx-common/src/ngx_buf_chain.c'],
    mech=[('allocator', 'nginx-common/src/ngx_lba.c: ngx_lba_alloc, ngx_lba_free'), ('queue', 'nginx-common/src/ngx_buf_queue.c: ngx_buf_queue_get, ngx_buf_queue_free, ngx_buf_queue_delete'), ('streams', 'nginx-common/src/ngx_buf_queue_stream.c'), ('chains', 'nginx-common/src/ngx_buf_chain.c')])
ASSUMPTIONS = ['mmap succeeds; in the queue harness the allocator is a plain malloc; md5 is a stand-in that records its input.']
L = ['nginx-common/src/ngx_lba.c']
HARNESSES = [
    H('lba', 'lba.c', units=L, timeout=200, defs=['OPS=9', 'MAXPER=4'], bounds='8 calls, 1..3 buffers per block, 1..3 bins', thorough=dict(defs=['OPS=10', 'MAXPER=5'], timeout=4000)),
    H('lba_nodebug', 'lba.c', units=L, timeout=200, defs=['OPS=9', 'MAXPER=4', 'NGX_DEBUG=0'], bounds='the same, NGX_DEBUG off', thorough=dict(defs=['OPS=10', 'MAXPER=5', 'NGX_DEBUG=0'], timeout=4000)),
    H('buf_queue', 'buf_queue.c', units=['nginx-common/src/ngx_buf_queue.c'], timeout=200, defs=['OPS=7'], bounds='7 calls, 0..2 spare buffers, any limit'),
    H('buf_stream', 'buf_queue.c', units=['nginx-common/src/ngx_buf_queue.c', 'nginx-common/src/ngx_buf_queue_stream.c'], timeout=200, defs=['STREAM', 'OPS=1'], bounds='1..3 buffers of 16 bytes, any start, 2 calls'),
    H('buf_chain', 'buf_chain.c', units=['nginx-common/src/ngx_buf_chain.c'], timeout=200, bounds='1..4 links of 0..3 bytes'),
]

from vf import H
META = dict(
    title='KLPF files read back exactly as written; corrupt files are refused safely',
    statement='Any sequence of persist writer calls (data, appended buffers and chains, lists, reserved markers, nested blocks, chained contexts, with or without compression) yields a file with exactly those bytes, correct sizes and block headers, which the reader turns back into the same block tree. For arbitrary bytes the reader refuses bad magic, type, version and sizes, never reads outside the buffer, and frees what it allocated exactly once.',
    over=['inputs', 'histories'],
    q='all sequences of 3 writer calls (2 around a buffer boundary) with symbolic contents; all 60-byte files',
    why='The tests only restore files that the server itself wrote; layouts around buffer boundaries and corrupt files are not sampled.',
    files=['nginx-common/src/ngx_persist_write.c', 'nginx-common/src/ngx_persist_read.c', 'nginx-common/src/ngx_mem_rstream.c', 'nginx-common/src/ngx_mem_rstream.h', 'nginx-common/src/ngx_wstream.h'],
    mech=[('writer', 'nginx-common/src/ngx_persist_write.c: ngx_persist_write, ngx_persist_write_block_open, ngx_persist_write_block_close, ngx_persist_write_close'), ('reader', 'nginx-common/src/ngx_persist_read.c: ngx_persist_read_block, ngx_persist_read_inflate')])
ASSUMPTIONS = ['zlib is modelled by a copying compressor; allocations do not fail.']
U = ['nginx-common/src/ngx_persist_write.c', 'nginx-common/src/ngx_persist_read.c', 'nginx-common/src/ngx_mem_rstream.c']
O = ['max depth', 'inflate error']
HARNESSES = [
    H('persist_rw', 'persist_rw.c', units=U, timeout=300, defs=['OPS=3'], optional=O, bounds='3 calls of any kind from an empty file', thorough=dict(defs=['OPS=4'], timeout=4000)),
    H('persist_fill', 'persist_rw.c', units=U, timeout=300, defs=['OPS=2', 'FILL'], optional=O, bounds='2 calls of any kind inside a block with 0..13 bytes left in the 2048-byte buffer', thorough=dict(defs=['OPS=3', 'FILL'], timeout=4000)),
    H('persist_comp', 'persist_rw.c', units=U, timeout=300, defs=['OPS=2', 'COMP'], optional=O, bounds='2 calls, compressed file; inflate succeeds or fails, with and without size limit and pool'),
    H('persist_compfill', 'persist_rw.c', units=U, timeout=300, defs=['OPS=1', 'COMP', 'FILL'], optional=O, bounds='1 call around the buffer boundary, compressed file'),
    H('persist_rd', 'persist_rd.c', units=U, timeout=300, bounds='all files of 30..34 and 60 bytes; two levels of up to three blocks, strings, lists'),
]

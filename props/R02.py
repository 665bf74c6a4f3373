from vf import H
META = dict(
    title='RTMP commands (AMF) and aggregates survive encoding, chunking and decoding',
    statement='Values written by the AMF encoder (numbers, booleans, strings, objects, arrays, integers), split over any chunk buffers, are read back unchanged by the AMF decoder, independent of property order and unknown properties; strings are truncated to the destination and always terminated; truncated or arbitrary input is rejected or read without touching memory outside the message or the destinations. Aggregate messages are delivered as exactly the sub messages they contain, with rebased timestamps.',
    over=['inputs'],
    q='all values in messages of the listed shapes at every offset to the buffer boundaries; all short arbitrary AMF inputs; all two-part aggregates in up to three buffers',
    why='There are no tests of the RTMP module; the layouts and inputs are unbounded.',
    files=['nginx-rtmp-module/src/ngx_rtmp_amf.c', 'nginx-rtmp-module/src/ngx_rtmp_receive.c', 'nginx-rtmp-module/src/ngx_rtmp_send.c'],
    mech=[('decoder', 'nginx-rtmp-module/src/ngx_rtmp_amf.c: ngx_rtmp_amf_read'), ('encoder', 'nginx-rtmp-module/src/ngx_rtmp_amf.c: ngx_rtmp_amf_write'), ('aggregates', 'nginx-rtmp-module/src/ngx_rtmp_receive.c: ngx_rtmp_aggregate_message_handler')])
ASSUMPTIONS = ['The nesting depth of AMF values is bounded by the input sizes explored.']
from props_rtmp import U
HARNESSES = [
    H('amf_rw', 'rtmp_amf.c', units=U, timeout=300, bounds='a string, an object of 4 properties in any order, null/array/string, a number; strings up to 22 bytes; 23-byte chunks'),
    H('amf_raw', 'rtmp_amf_raw.c', units=U, timeout=300, bounds='9 arbitrary bytes in two buffers'),
    H('amf_obj', 'rtmp_amf_raw.c', units=U, timeout=300, defs=['LEN=14', 'FIXED=2,0,1,0x41,0xee'], bounds='a string and 10 arbitrary bytes'),
    H('rtmp_aggr', 'rtmp_aggr.c', units=U, timeout=300, bounds='two sub messages of 0 to 3 bytes in three buffers'),
]

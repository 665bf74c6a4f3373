from vf import H
META = dict(
    title='JSON parser accepts exactly valid texts and returns their values',
    statement='For any text, the JSON parser terminates without touching memory outside the text, accepts it exactly when it is well formed (objects, homogeneous arrays, strings, integers and decimal fractions, at most 32 levels) and returns the values it contains. Numbers are exact or refused, escapes are decoded to UTF-8 within the original space, and duplicate or badly typed members are refused or ignored as documented.',
    over=['inputs'],
    q='all texts of up to 5 arbitrary bytes (6 inside containers), arrays of up to 16 elements, numbers of 17..22 digits around the 64-bit limits, all strings of up to 8 bytes for decoding, all pairs of members of a typed object',
    why='The tests feed a handful of valid API bodies; malformed bodies from a controller are never parsed.',
    files=['nginx-common/src/ngx_json_parser.c'],
    mech=[('parser', 'nginx-common/src/ngx_json_parser.c: ngx_json_parse'), ('decoding', 'nginx-common/src/ngx_json_parser.c: ngx_json_decode_string'), ('typed extraction', 'nginx-common/src/ngx_json_parser.c: ngx_json_object_parse, ngx_json_set_*_slot')])
ASSUMPTIONS = ['Pool allocations do not fail.']
U = ['nginx-common/src/ngx_json_parser.c']
HARNESSES = [
    H('json_any', 'json_parse.c', units=U, timeout=300, defs=['VN=5'], optional=['second part'], bounds='all texts of 0..5 bytes', thorough=dict(defs=['VN=7'], timeout=3000)),
    H('json_obj', 'json_parse.c', units=U, timeout=300, defs=['VN=5', 'PREFIX="{\\"a\\":"'], optional=['second part'], bounds='all texts {"a": followed by 0..5 bytes', thorough=dict(defs=['VN=7', 'PREFIX="{\\"a\\":"'], timeout=3000)),
    H('json_arr', 'json_parse.c', units=U, timeout=300, defs=['VN=5', 'PREFIX="[[1],"'], optional=['second part'], bounds='all texts [[1], followed by 0..5 bytes', thorough=dict(defs=['VN=7', 'PREFIX="[[1],"'], timeout=3000)),
    H('json_arrn', 'json_parse.c', units=U, timeout=300, defs=['ARRAY=16'], bounds='arrays of 1..16 items of six kinds, last item of any kind', thorough=dict(defs=['ARRAY=40'], timeout=2000)),
    H('json_num', 'json_misc.c', units=U, timeout=300, defs=['MODE=1'], optional=['unicode', 'decoded', 'bad escape', 'refused', 'string', 'scalar', 'nested', 'too deep'], bounds='numbers of 17..22 digits around the 64-bit limits (first, ninth and last two digits arbitrary) with any sign, point after the first, before the last digit or none'),
    H('json_dec', 'json_misc.c', units=U, timeout=300, defs=['MODE=2', 'VN=7'], bounds='all strings of 0..7 bytes, decoded in place', thorough=dict(defs=['MODE=2', 'VN=9'], timeout=3000)),
    H('json_decapp', 'json_misc.c', units=U, timeout=300, defs=['MODE=2', 'VN=6', 'APPEND'], bounds='all strings of 0..6 bytes, appended to another string'),
    H('json_slots', 'json_misc.c', units=U, timeout=300, defs=['MODE=3'], bounds='all pairs of known / unknown members in any case with string, bool, number and enum values'),
    H('json_depth', 'json_misc.c', units=U, timeout=300, defs=['MODE=4'], bounds='30..34 nested arrays and objects'),
]

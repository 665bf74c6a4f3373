from vf import H
META = dict(
    title='Closed captions (EIA-608) become cues with exactly the displayed text and times',
    statement='For any sequence of EIA-608 byte pairs (pop-on, roll-up, paint-on, text mode, cursor positioning, styles, special and extended characters, backspace, erase, carriage return, repeated commands) the decoder emits a cue whenever displayed text changes, with exactly the text, line breaks, tags, line and position of the screen a reference decoder shows, from the time it was displayed to the time it was replaced; every character code maps to its UTF-8 text (escaped for WebVTT). Memory outside the screens is never accessed.',
    over=['inputs', 'histories'],
    q='all sequences of the listed commands within the bounds, with symbolic times; all byte pairs from the initial and from listed states',
    why='There are no tests of the caption decoders; command sequences and timing are unbounded.',
    files=['nginx-kmp-cc-module/src/media/eia608.c', 'nginx-kmp-cc-module/src/media/webvtt.c'],
    mech=[('commands', 'nginx-kmp-cc-module/src/media/eia608.c: Eia608ParseData'), ('output', 'nginx-kmp-cc-module/src/media/eia608.c: Eia608Output'), ('tags', 'nginx-kmp-cc-module/src/media/webvtt.c')])
ASSUMPTIONS = ['The reference follows the behaviour that the decoder documents: a repeated control code is ignored, extended characters replace the previous one.']
C = 'nginx-kmp-cc-module/src/media/'
U = [C + 'eia608.c', C + 'webvtt.c']
I = ['nginx-kmp-cc-module/src/media']
HARNESSES = [
    H('cc_608', 'cc_608.c', units=U, incs=I, timeout=300, defs=['TEXTS=1', 'OPS=2'], bounds='4 modes, text at 3 positions, then any 2 of 29 commands, then two flushes'),
    H('cc_608_long', 'cc_608.c', units=U, incs=I, timeout=300, defs=['TEXTS=1', 'OPS=4', 'FEW={0x14,0x24},{0x14,0x2c},{0x14,0x2d},{0x14,0x2f},{0x14,0x60},{0x11,0x62},{0x14,0x21},{0x14,0x27}'], bounds='4 modes, text, then any 4 of 8 commands, then two flushes'),
    H('cc_608_raw', 'cc_608.c', units=U, incs=I, timeout=300, defs=['TEXTS=0', 'OPS=0', 'RAW=1'], bounds='4 modes, column 28, text, then any byte pair, then two flushes'),
]

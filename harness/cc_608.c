/*
 * EIA-608 decoder against a reference screen model: whatever the commands, each cue shows exactly the text
 * of the displayed screen, for exactly the time it was displayed.
 */
#include "vf_ngx.h"
#include "eia608.h"
#undef uint8_t
#undef int8_t
#ifndef OPS
#define OPS 2
#endif
#ifdef RAW
#define RAWT(x) 2
#else
#define RAWT(x) (x)
#endif
#define ROWS 15
#define COLS 32
#define MAXO 700
static char out[MAXO], want[MAXO]; static size_t nout, nwant; static int cues, wcues, open_; static int64_t cs, ce, ws, we;
static void put(const void *p, size_t n) { VF_ASSERT(nout + n <= MAXO, "harness size"); ngx_memcpy(out + nout, p, n); nout += n; }
static void on_start(void *priv) { VF_ASSERT(!open_, "nested cue"); open_ = 1; }
static void on_setting(void *priv, ngx_str_t *s) { VF_ASSERT(open_ == 1, "setting outside of a cue"); put("{", 1); put(s->data, s->len); put("}", 1); }
static void on_write(void *priv, void *p, size_t n) { VF_ASSERT(open_ >= 1, "text outside of a cue"); open_ = 2; put(p, n); }
static void on_end(void *priv, vlc_tick_t s, vlc_tick_t e) { VF_ASSERT(open_, "end outside of a cue"); open_ = 0; cues++; cs = s; ce = e; VF_ASSERT(s < e, "cue duration"); put("|", 1); }

/* the reference */
typedef struct { unsigned char ch, color, font; } cell_t;
static struct { cell_t s[2][ROWS][COLS]; int disp, mode, row, col, base, color, font, d1, d2; int64_t start, now; } m;
enum { POPON, RU2, RU3, RU4, PAINT, TEXT };
static const cell_t blank = { ' ', 0, 0 };
static void clr(int s, int r0, int r1) { int c; for (; r0 <= r1; r0++) for (c = 0; c < COLS; c++) m.s[s][r0][c] = blank; }
static int used(int s) { int r, c; for (r = 0; r < ROWS; r++) for (c = 0; c < COLS; c++) if (m.s[s][r][c].ch != ' ') return 1; return 0; }
static void wput(const char *s) { while (*s) { VF_ASSERT(nwant < MAXO, "harness size"); want[nwant++] = *s++; } }
static void wnum(int v) { char b[12]; int i = 0; do b[i++] = '0' + v % 10; while (v /= 10); while (i--) { char t[2] = { b[i], 0 }; wput(t); } }
static void pct(const char *n, int v) { wput("{"); wput(n); wput(":"); wnum(v / 100); if (v % 100) { wput("."); if (v % 100 < 10) wput("0"); wnum(v % 100); } wput("%}"); }
#include "cc_608_table.h"
static const char *text(int c) { switch (c) { case '<': return "&lt;"; case '&': return "&amp;"; case '>': return "&gt;"; } return utf8[c - 0x20]; }
static const char *open_tag[] = { "", "<c.lime>", "<c.blue>", "<c.cyan>", "<c.red>", "<c.yellow>", "<c.magenta>" };
static void tags_close(cell_t c) { if (c.font & 2) wput("</u>"); if (c.font & 1) wput("</i>"); if (c.color) wput("</c>"); }
static void tags_open(cell_t c) { wput(open_tag[c.color]); if (c.font & 1) wput("<i>"); if (c.font & 2) wput("<u>"); }
static void cue(void)
{
    int r, c, r0 = ROWS, c0 = COLS, last, first = 1; cell_t st, *l;
    if (m.start == INT64_MAX || m.start >= m.now) return;
    for (r = 0; r < ROWS; r++) for (c = 0; c < COLS; c++) if (m.s[m.disp][r][c].ch != ' ') { if (r < r0) r0 = r; if (c < c0) c0 = c; }
    if (r0 == ROWS) return;
    wcues++; ws = m.start; we = m.now;
    pct("line", 1000 + r0 * 8000 / ROWS); pct("position", 1000 + c0 * 8000 / COLS); wput("{align:left}");
    for (r = r0; r < ROWS; r++) {
        l = m.s[m.disp][r];
        for (last = COLS - 1; last >= 0 && l[last].ch == ' '; last--);
        if (last < 0) continue;
        if (!first) wput("\n"); first = 0;
        st = blank;
        for (c = c0; c <= last; c++) {
            if (l[c].ch == ' ') { wput(" "); continue; }
            if (l[c].color != st.color || l[c].font != st.font) { tags_close(st); tags_open(l[c]); st = l[c]; }
            wput(text(l[c].ch));
        }
        tags_close(st);
    }
    wput("|");
}
static void mv(int d) { m.col += d; if (m.col < 0) m.col = 0; if (m.col > COLS - 1) m.col = COLS - 1; }
static int wr(void) { return m.mode == POPON ? 1 - m.disp : m.disp; }
static void chr(int c) { cell_t x; if (m.mode == TEXT) return; x.ch = c; x.color = m.color; x.font = m.font; m.s[wr()][m.row][m.col] = x; if (c != ' ' && m.start == INT64_MAX) m.start = m.now; mv(1); }
static void style(int a) { static const unsigned char col[] = { 0, 1, 2, 3, 4, 5, 6 }; if (a < 14) { m.color = col[a / 2]; m.font = a & 1 ? 2 : 0; } else { m.color = 0; m.font = 1 | (a & 1 ? 2 : 0); } }
static void ref(int d1, int d2)
{
    static const int row[] = { 11, -1, 1, 2, 3, 4, 12, 13, 14, 15, 5, 6, 7, 8, 9, 10 };
    int i, k, n;
    if (d1 < 0x10) return;
    if (d1 < 0x20 && d1 == m.d1 && d2 == m.d2) return;
    m.d1 = d1; m.d2 = d2;
    if (d1 >= 0x20) { chr(d1); if (d2 >= 0x20) chr(d2); return; }
    if (d1 >= 0x18) d1 -= 8;
    if (d2 >= 0x40 && !(d1 == 0x10 && d2 > 0x5f)) {
        i = row[(d1 & 7) << 1 | (d2 >> 5 & 1)];
        if (d1 == 0x10) i = 11;
        if (i < 0) return;
        if (m.mode != TEXT) m.row = i - 1;
        m.base = i - 1;
        d2 &= 31;
        if (d2 < 16) { style(d2); m.col = 0; } else { m.color = 0; m.font = d2 & 1 ? 2 : 0; m.col = (d2 - 16) / 2 * 4; }
        return;
    }
    if (d1 == 0x11 && d2 >= 0x20 && d2 < 0x30) { style(d2 - 0x20); mv(1); }
    else if (d1 == 0x11 && d2 >= 0x30) chr(d2 + 0x50);
    else if ((d1 == 0x12 || d1 == 0x13) && d2 >= 0x20) { mv(-1); chr(d2 + (d1 == 0x12 ? 0x70 : 0x90)); }
    else if (d1 == 0x17 && d2 >= 0x21 && d2 <= 0x23) mv(d2 - 0x20);
    else if (d1 == 0x14 || d1 == 0x15) switch (d2) {
    case 0x20: m.mode = POPON; break;
    case 0x21: if (m.mode != TEXT && m.col > 0) { m.s[wr()][m.row][m.col - 1] = blank; mv(-1); } break;
    case 0x24: if (m.mode != TEXT) for (i = m.col; i < COLS; i++) m.s[wr()][m.row][i] = blank; break;
    case 0x25: case 0x26: case 0x27:
        if (m.mode == POPON || m.mode == PAINT) { cue(); clr(0, 0, ROWS - 1); clr(1, 0, ROWS - 1); m.start = INT64_MAX; }
        if (m.mode != RU2 + d2 - 0x25) { m.mode = RU2 + d2 - 0x25; m.col = 0; m.row = m.base; }
        break;
    case 0x29: m.mode = PAINT; break;
    case 0x2b: m.mode = TEXT; break;
    case 0x2c: cue(); clr(m.disp, 0, ROWS - 1); m.start = INT64_MAX; break;
    case 0x2d:
        cue();
        if (m.mode >= RU2 && m.mode <= RU4) {
            n = m.mode - RU2 + 2; m.col = 0;
            for (i = 0; i <= m.row; i++) for (k = 0; k < COLS; k++)
                m.s[m.disp][i][k] = i <= m.row - n ? blank : i == m.row ? blank : m.s[m.disp][i + 1][k];
        }
        m.start = used(m.disp) ? m.now : INT64_MAX;
        break;
    case 0x2e: clr(1 - m.disp, 0, ROWS - 1); break;
    case 0x2f:
        cue();
        if (m.mode != PAINT) m.disp = 1 - m.disp;
        m.start = used(m.disp) ? m.now : INT64_MAX;
        m.mode = POPON; m.col = m.row = m.color = m.font = 0;
        break;
    }
}
static eia608_t *h;
static void cmdt(int d1, int d2, uint64_t dt)
{
    unsigned char b[2];
    m.now += dt;
    b[0] = d1 | 0x80; b[1] = d2 | (d1 & 1 ? 0x80 : 0);
    if (dt == 0) VF_REACH("same time");
    ref(d1, d2);
    Eia608Parse(h, m.now, b, 2);
    VF_ASSERT(cues == wcues, "number of cues");
    VF_ASSERT(!open_, "cue not closed");
    VF_ASSERT(nout == nwant && ngx_memcmp(out, want, nwant) == 0, "cue text");
    if (cues) { VF_ASSERT(cs == ws && ce == we, "cue times"); VF_REACH("cue"); }
}
static void cmd(int d1, int d2) { cmdt(d1, d2, 3); }
static void any(void)
{
    static const unsigned char c[][2] = {
        
#ifdef FEW
        FEW };
#else
        { 0x14, 0x20 }, { 0x14, 0x21 }, { 0x14, 0x24 }, { 0x14, 0x25 }, { 0x15, 0x26 }, { 0x14, 0x27 }, { 0x14, 0x29 }, { 0x14, 0x2b }, { 0x1c, 0x2c }, { 0x14, 0x2d }, { 0x14, 0x2e }, { 0x14, 0x2f },
        { 0x17, 0x21 }, { 0x17, 0x23 }, { 0x11, 0x2e }, { 0x11, 0x29 }, { 0x11, 0x37 }, { 0x12, 0x21 }, { 0x13, 0x3f }, { '<', ' ' }, { '&', 0x2a }, { 'x', 0 }, { ' ', ' ' },
        { 0x11, 0x40 }, { 0x11, 0x7f }, { 0x14, 0x72 }, { 0x10, 0x4e }, { 0x13, 0x60 }, { 0x0f, 0x20 } };
#endif
    int i = vf_pick(0, sizeof(c) / 2 - 1);
    cmd(c[i][0], c[i][1]);
}
void harness(void)
{
    static subtitle_handler_t hd = { on_start, on_setting, on_write, on_end };
    int i, k;
    vf_ngx_init();
    h = Eia608New(&vf_log, 1, NULL, &hd);
    clr(0, 0, ROWS - 1); clr(1, 0, ROWS - 1); m.base = ROWS - 1; m.start = INT64_MAX; m.now = 1000;
    switch (vf_pick(0, 3)) {
    case 0: break;
    case 1: cmd(0x14, 0x25); break;
    case 2: cmd(0x14, 0x26); break;
    case 3: cmd(0x14, 0x29); break;
    }
#ifdef RAW
    cmd(0x14, 0x7e); cmd('A', 'b');
    for (k = 0; k < RAW; k++) { i = vf_pick(0, 127); cmd(i, vf_pick(0, 127)); }
#endif
    for (i = 0; i < TEXTS; i++) {
        switch (vf_pick(0, 2)) {
        case 0: cmd(0x14, 0x60 + 2 * (i & 7)); break;        /* row 15 */
        case 1: cmd(0x11, 0x62); break;                   /* row 2, green */
        case 2: cmd(0x11, 0x5f); break;                   /* row 1, column 28, underlined */
        }
        cmd('A', 'b');
        if (vf_pick(0, 1)) { cmd('c', 'd'); cmd('e', 0); }
    }
    for (k = 0; k < OPS; k++) { any(); if (OPS > 2 && k == OPS - 2) cmd('z', 'y'); }
    cmdt(0x14, 0x2f, RAWT(vf_range(0, 0xffff))); cmdt(0x14, 0x2c, RAWT(vf_range(0, 0xffff)));
    Eia608Release(h);
    VF_ASSERT(vf_live_heap() == 0, "leak");
}

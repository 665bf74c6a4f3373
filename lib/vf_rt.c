#include "vf.h"
#include <stdlib.h>
#include <string.h>
#undef free
#undef malloc
#undef calloc
void *malloc(size_t);
void free(void *);

#ifdef VF_SYM

/* provided by the executor */
uint8_t vf_sym8(void);
uint16_t vf_sym16(void);
uint32_t vf_sym32(void);
uint64_t vf_sym64(void);

uint8_t vf_u8(void) { return vf_sym8(); }
uint16_t vf_u16(void) { return vf_sym16(); }
uint32_t vf_u32(void) { return vf_sym32(); }
uint64_t vf_u64(void) { return vf_sym64(); }

#else

#include <stdio.h>
#include <inttypes.h>

static uint64_t *vf_in; static size_t vf_nin, vf_pos;
static int vf_fill = 0xa5;
static uint64_t vf_live;

static uint64_t vf_next(void) {
    if (vf_pos < vf_nin) return vf_in[vf_pos++];
    vf_pos++;
    return 0;    /* the model does not constrain later inputs */
}
uint8_t vf_u8(void) { return vf_next(); }
uint16_t vf_u16(void) { return vf_next(); }
uint32_t vf_u32(void) { return vf_next(); }
uint64_t vf_u64(void) { return vf_next(); }
uint64_t vf_concretize(uint64_t v) { return v; }
uint64_t vf_live_heap(void) { return vf_live; }
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void vf_print(const char *s, uint64_t v) { printf("VF_PRINT %s = %" PRIu64 "\n", s, v); }

/* exact size: the sanitizer's redzone starts right behind the object */
void *vf_malloc(size_t n) {
    void *p = malloc(n);
    if (p == NULL) { fprintf(stderr, "VF_NOMEM\n"); exit(78); }
#ifndef VF_MSAN
    memset(p, vf_fill, n);
#endif
    vf_live++;
    return p;
}
void *vf_memalign(size_t al, size_t n) {
    void *p = NULL;
    if (posix_memalign(&p, al < 16 ? 16 : al, n)) { fprintf(stderr, "VF_NOMEM\n"); exit(78); }
#ifndef VF_MSAN
    memset(p, vf_fill, n);
#endif
    vf_live++;
    return p;
}
void vf_free(void *p) { if (p) vf_live--; free(p); }

void vf_check(int c, const char *msg) {
    if (!c) { printf("VF_ASSERT_FAILED %s\n", msg); fflush(stdout); _Exit(66); }
}
void vf_assume(int c, const char *what) {
    if (!c) { printf("VF_ASSUME_FAILED %s\n", what); fflush(stdout); _Exit(77); }
}
void vf_reached(const char *tag) { printf("VF_REACHED %s\n", tag); fflush(stdout); }

int main(int argc, char **argv) {
    FILE *f; char *line = NULL; size_t n = 0;
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (argc > 1 && (f = fopen(argv[1], "r")) != NULL) {
        while (getline(&line, &n, f) > 0) {
            if (line[0] == '#') continue;
            vf_in = realloc(vf_in, (vf_nin + 1) * sizeof(*vf_in));
            vf_in[vf_nin++] = strtoull(line, NULL, 0);
        }
        fclose(f);
    }
    if (getenv("VF_FILL")) vf_fill = strtol(getenv("VF_FILL"), NULL, 0);
    harness();
    printf("VF_DONE inputs %zu of %zu\n", vf_pos, vf_nin);
    fflush(stdout);
    _Exit(0);
}

#endif

void *vf_calloc_(size_t n, size_t m) { void *p = vf_malloc(n * m); memset(p, 0, n * m); return p; }
void *vf_zalloc(size_t n) { void *p = vf_malloc(n); memset(p, 0, n); return p; }

uint64_t vf_range(uint64_t lo, uint64_t hi) {
    uint64_t v;
    if (lo == hi) return lo;
    if (hi <= 0xff) v = vf_u8();
    else if (hi <= 0xffffffff) v = vf_u32();
    else v = vf_u64();
#ifndef VF_SYM
    if (vf_pos > vf_nin && (v < lo || v > hi)) v = lo;   /* an input beyond the model */
#endif
    vf_assume((v >= lo) & (v <= hi), "range");
    return v;
}

void vf_bytes(void *p, size_t n) {
    size_t i;
    for (i = 0; i < n; i++) ((uint8_t *) p)[i] = vf_u8();
}

void *vf_buf(size_t n) {
    uint8_t *p = vf_malloc(n);
    vf_bytes(p, n);
    return p;
}

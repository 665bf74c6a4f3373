/*
 * Harness runtime. The same harness source is compiled twice:
 *   - VF_SYM: to LLVM IR for the symbolic executor (lib/sym); vf_*() are symbolic
 *     values and VF_ASSERT is an obligation that the solver decides;
 *   - VF_REPLAY: natively with sanitizers, where vf_*() return the values of a
 *     solver model, in order.
 */
#ifndef VF_H
#define VF_H

#include <stdint.h>
#include <stddef.h>

/* symbolic inputs; every call is an input of the model */
uint8_t   vf_u8(void);
uint16_t  vf_u16(void);
uint32_t  vf_u32(void);
uint64_t  vf_u64(void);
#define vf_i64()  ((int64_t) vf_u64())
#define vf_i32()  ((int32_t) vf_u32())
/* lo <= value <= hi (no input is consumed when lo == hi) */
uint64_t  vf_range(uint64_t lo, uint64_t hi);
#define vf_bool() ((int) vf_range(0, 1))
/* as vf_range, but explored value by value: the result is concrete on each path */
#define vf_pick(lo, hi)  vf_concretize(vf_range(lo, hi))
#define vf_cbool() ((int) vf_pick(0, 1))
/* fills n bytes */
void      vf_bytes(void *p, size_t n);
/* an exactly sized heap object with n symbolic bytes */
void     *vf_buf(size_t n);
/* an exactly sized heap object; contents uninitialised. never NULL */
void     *vf_malloc(size_t n);
void     *vf_zalloc(size_t n);
void     *vf_memalign(size_t align, size_t n);
void      vf_free(void *p);
uint64_t  vf_concretize(uint64_t v);
/* number of live heap objects */
uint64_t  vf_live_heap(void);
/* c ? a : b without a branch */
uint64_t  vf_ite(int c, uint64_t a, uint64_t b);
void      vf_print(const char *s, uint64_t v);

void vf_assume(int c, const char *what);
void vf_check(int c, const char *msg);
void vf_reached(const char *tag);

#define VF_ASSUME(c)       vf_assume(!!(c), #c)
#define VF_ASSERT(c, msg)  vf_check(!!(c), msg)
#define VF_REACH(tag)      vf_reached(tag)

#ifdef VF_SYM
#define VF_IS_MODEL 1
#else
#define VF_IS_MODEL 0
#endif

void harness(void);

#endif

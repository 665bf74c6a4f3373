#ifndef VF_NGX_H
#define VF_NGX_H
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
#include "vf.h"

extern ngx_log_t   vf_log;      /* log_level 0: logging has an empty body */
extern ngx_pool_t  vf_pool;     /* every palloc is a malloc of its exact size */
extern int         vf_alloc_may_fail;   /* pool / ngx_alloc allocations may return NULL */
extern int         vf_debug_points;     /* number of ngx_debug_point() calls allowed */
void vf_ngx_init(void);
#endif

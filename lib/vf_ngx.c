/*
 * Models of the nginx core functions (their .c files are not in the sandbox,
 * only the headers). Behaviour follows nginx 1.24; part of the trusted base.
 */
#include "vf_ngx.h"
#include <stdlib.h>
#include <string.h>

ngx_log_t   vf_log;
ngx_pool_t  vf_pool;
int         vf_alloc_may_fail = 0;
int         vf_debug_points = 0;

static ngx_cycle_t  vf_cycle;
static ngx_time_t   vf_time;
volatile ngx_cycle_t  *ngx_cycle = &vf_cycle;
volatile ngx_time_t   *ngx_cached_time = &vf_time;
volatile ngx_msec_t    ngx_current_msec;
ngx_queue_t            ngx_posted_events, ngx_posted_next_events;
ngx_event_actions_t    ngx_event_actions;
ngx_rbtree_t           ngx_event_timer_rbtree;
ngx_uint_t             ngx_event_flags;
ngx_uint_t             ngx_pagesize = 4096;
ngx_uint_t             ngx_cacheline_size = 64;
ngx_pid_t              ngx_pid = 1;
ngx_uint_t             ngx_exiting;
sig_atomic_t           ngx_terminate, ngx_quit;
ngx_int_t              ngx_ncpu = 1;
static ngx_rbtree_node_t  vf_timer_sentinel;

static void vf_crc_init(void);
void vf_ngx_init(void)
{
    vf_pool.log = &vf_log;
#ifdef VF_TRACE
    vf_log.log_level = NGX_LOG_INFO;
#endif
    vf_crc_init();
    vf_cycle.log = &vf_log;
    vf_cycle.pool = &vf_pool;
    ngx_queue_init(&ngx_posted_events);
    ngx_queue_init(&ngx_posted_next_events);
    ngx_rbtree_init(&ngx_event_timer_rbtree, &vf_timer_sentinel,
                    ngx_rbtree_insert_timer_value);
}

void ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...)
{
#ifdef VF_TRACE     /* debugging of a replay only */
    u_char buf[2048], *q; va_list ap; extern int printf(const char *, ...);
    va_start(ap, fmt); q = ngx_vslprintf(buf, buf + sizeof(buf) - 1, fmt, ap); va_end(ap); *q = 0;
    printf("LOG %s\n", buf);
#endif
}

void ngx_debug_point(void)
{
    /* an internal consistency check of the code under test failed */
    VF_ASSERT(vf_debug_points > 0, "ngx_debug_point reached");
    vf_debug_points--;
}

static void *vf_alloc(size_t size)
{
    if (vf_alloc_may_fail && vf_bool()) return NULL;
    return vf_malloc(size);
}

void *ngx_alloc(size_t size, ngx_log_t *log) { return vf_alloc(size); }
void *ngx_calloc(size_t size, ngx_log_t *log)
{
    void *p = vf_alloc(size);
    if (p) memset(p, 0, size);
    return p;
}
void *ngx_memalign(size_t alignment, size_t size, ngx_log_t *log)
{
    if (vf_alloc_may_fail && vf_bool()) return NULL;
    return vf_memalign(alignment, size);
}

/* a pool is a list of exactly sized objects */
void *ngx_palloc(ngx_pool_t *pool, size_t size)
{
    ngx_pool_large_t *l; void *p = vf_alloc(size);
    if (p == NULL) return NULL;
    l = vf_malloc(sizeof(*l));
    l->alloc = p;
    l->next = pool->large;
    pool->large = l;
    return p;
}
void *ngx_pnalloc(ngx_pool_t *pool, size_t size) { return ngx_palloc(pool, size); }
void *ngx_pmemalign(ngx_pool_t *pool, size_t size, size_t alignment) { return ngx_palloc(pool, size); }
void *ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    void *p = ngx_palloc(pool, size);
    if (p) memset(p, 0, size);
    return p;
}
ngx_int_t ngx_pfree(ngx_pool_t *pool, void *p)
{
    ngx_pool_large_t *l;
    for (l = pool->large; l; l = l->next) {
        if (l->alloc == p) {
            vf_free(l->alloc);
            l->alloc = NULL;
            return NGX_OK;
        }
    }
    return NGX_DECLINED;
}
ngx_pool_t *ngx_create_pool(size_t size, ngx_log_t *log)
{
    ngx_pool_t *p = vf_alloc(sizeof(ngx_pool_t));
    if (p == NULL) return NULL;
    memset(p, 0, sizeof(*p));
    p->log = log;
    return p;
}
void ngx_reset_pool(ngx_pool_t *pool)
{
    ngx_pool_large_t *l, *n;
    for (l = pool->large; l; l = n) {
        n = l->next;
        if (l->alloc) vf_free(l->alloc);
        vf_free(l);
    }
    pool->large = NULL;
}
void ngx_destroy_pool(ngx_pool_t *pool)
{
    ngx_pool_cleanup_t *c;
    for (c = pool->cleanup; c; c = c->next) if (c->handler) c->handler(c->data);
    ngx_reset_pool(pool);
    vf_free(pool);
}
ngx_pool_cleanup_t *ngx_pool_cleanup_add(ngx_pool_t *p, size_t size)
{
    ngx_pool_cleanup_t *c = ngx_palloc(p, sizeof(*c));
    if (c == NULL) return NULL;
    if (size) {
        c->data = ngx_palloc(p, size);
        if (c->data == NULL) return NULL;
    } else {
        c->data = NULL;
    }
    c->handler = NULL;
    c->next = p->cleanup;
    p->cleanup = c;
    return c;
}

ngx_buf_t *ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t *b = ngx_pcalloc(pool, sizeof(ngx_buf_t));
    if (b == NULL) return NULL;
    b->start = ngx_palloc(pool, size);
    if (b->start == NULL) return NULL;
    b->pos = b->start; b->last = b->start; b->end = b->last + size;
    b->temporary = 1;
    return b;
}
ngx_chain_t *ngx_alloc_chain_link(ngx_pool_t *pool)
{
    return ngx_palloc(pool, sizeof(ngx_chain_t));
}

ngx_array_t *ngx_array_create(ngx_pool_t *p, ngx_uint_t n, size_t size)
{
    ngx_array_t *a = ngx_palloc(p, sizeof(ngx_array_t));
    if (a == NULL) return NULL;
    if (ngx_array_init(a, p, n, size) != NGX_OK) return NULL;
    return a;
}
void ngx_array_destroy(ngx_array_t *a) {}
void *ngx_array_push_n(ngx_array_t *a, ngx_uint_t n)
{
    void *elt, *nw; ngx_uint_t nalloc;
    if (a->nelts + n > a->nalloc) {
        nalloc = 2 * ((n >= a->nalloc) ? n : a->nalloc);
        nw = ngx_palloc(a->pool, nalloc * a->size);
        if (nw == NULL) return NULL;
        ngx_memcpy(nw, a->elts, a->nelts * a->size);
        a->elts = nw;
        a->nalloc = nalloc;
    }
    elt = (u_char *) a->elts + a->size * a->nelts;
    a->nelts += n;
    return elt;
}
void *ngx_array_push(ngx_array_t *a)
{
    void *elt, *nw;
    if (a->nelts == a->nalloc) {
        nw = ngx_palloc(a->pool, 2 * a->nalloc * a->size);
        if (nw == NULL) return NULL;
        ngx_memcpy(nw, a->elts, a->nelts * a->size);
        a->elts = nw;
        a->nalloc *= 2;
    }
    elt = (u_char *) a->elts + a->size * a->nelts;
    a->nelts++;
    return elt;
}
ngx_list_t *ngx_list_create(ngx_pool_t *pool, ngx_uint_t n, size_t size)
{
    ngx_list_t *l = ngx_palloc(pool, sizeof(ngx_list_t));
    if (l == NULL) return NULL;
    if (ngx_list_init(l, pool, n, size) != NGX_OK) return NULL;
    return l;
}
void *ngx_list_push(ngx_list_t *l)
{
    void *elt; ngx_list_part_t *last = l->last;
    if (last->nelts == l->nalloc) {
        last = ngx_palloc(l->pool, sizeof(ngx_list_part_t));
        if (last == NULL) return NULL;
        last->elts = ngx_palloc(l->pool, l->nalloc * l->size);
        if (last->elts == NULL) return NULL;
        last->nelts = 0;
        last->next = NULL;
        l->last->next = last;
        l->last = last;
    }
    elt = (char *) last->elts + l->size * last->nelts;
    last->nelts++;
    return elt;
}

/* binary search tree without the red-black rebalancing: same set of nodes,
   same in-order sequence, same insert callback */
void ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    if (tree->root == tree->sentinel) {
        node->parent = NULL;
        node->left = tree->sentinel;
        node->right = tree->sentinel;
        node->color = 0;
        tree->root = node;
        return;
    }
    tree->insert(tree->root, node, tree->sentinel);
    node->color = 0;
}
void ngx_rbtree_insert_value(ngx_rbtree_node_t *temp, ngx_rbtree_node_t *node,
    ngx_rbtree_node_t *sentinel)
{
    ngx_rbtree_node_t **p;
    for ( ;; ) {
        p = (node->key < temp->key) ? &temp->left : &temp->right;
        if (*p == sentinel) break;
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
}
void ngx_rbtree_insert_timer_value(ngx_rbtree_node_t *temp,
    ngx_rbtree_node_t *node, ngx_rbtree_node_t *sentinel)
{
    ngx_rbtree_node_t **p;
    for ( ;; ) {
        p = ((ngx_rbtree_key_int_t) (node->key - temp->key) < 0)
            ? &temp->left : &temp->right;
        if (*p == sentinel) break;
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
}
static void vf_rb_replace(ngx_rbtree_t *tree, ngx_rbtree_node_t *o, ngx_rbtree_node_t *n)
{
    if (o == tree->root) tree->root = n;
    else if (o == o->parent->left) o->parent->left = n;
    else o->parent->right = n;
    if (n != tree->sentinel) n->parent = o->parent;
}
void ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    ngx_rbtree_node_t *m;
    if (node->left == tree->sentinel) {
        vf_rb_replace(tree, node, node->right);
    } else if (node->right == tree->sentinel) {
        vf_rb_replace(tree, node, node->left);
    } else {
        m = ngx_rbtree_min(node->right, tree->sentinel);
        if (m->parent != node) {
            vf_rb_replace(tree, m, m->right);
            m->right = node->right;
            m->right->parent = m;
        }
        vf_rb_replace(tree, node, m);
        m->left = node->left;
        m->left->parent = m;
    }
    node->left = NULL; node->right = NULL; node->parent = NULL; node->key = 0;
}
ngx_rbtree_node_t *ngx_rbtree_next(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    ngx_rbtree_node_t *root, *sentinel, *parent;
    sentinel = tree->sentinel;
    if (node->right != sentinel) return ngx_rbtree_min(node->right, sentinel);
    root = tree->root;
    for ( ;; ) {
        parent = node->parent;
        if (node == root) return NULL;
        if (node == parent->left) return parent;
        node = parent;
    }
}
void ngx_str_rbtree_insert_value(ngx_rbtree_node_t *temp,
    ngx_rbtree_node_t *node, ngx_rbtree_node_t *sentinel)
{
    ngx_str_node_t *n, *t; ngx_rbtree_node_t **p;
    for ( ;; ) {
        n = (ngx_str_node_t *) node;
        t = (ngx_str_node_t *) temp;
        if (node->key != temp->key) {
            p = (node->key < temp->key) ? &temp->left : &temp->right;
        } else if (n->str.len != t->str.len) {
            p = (n->str.len < t->str.len) ? &temp->left : &temp->right;
        } else {
            p = (ngx_memcmp(n->str.data, t->str.data, n->str.len) < 0)
                 ? &temp->left : &temp->right;
        }
        if (*p == sentinel) break;
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
}
ngx_str_node_t *ngx_str_rbtree_lookup(ngx_rbtree_t *rbtree, ngx_str_t *val, uint32_t hash)
{
    ngx_int_t rc; ngx_str_node_t *n; ngx_rbtree_node_t *node, *sentinel;
    node = rbtree->root; sentinel = rbtree->sentinel;
    while (node != sentinel) {
        n = (ngx_str_node_t *) node;
        if (hash != node->key) {
            node = (hash < node->key) ? node->left : node->right;
            continue;
        }
        if (val->len != n->str.len) {
            node = (val->len < n->str.len) ? node->left : node->right;
            continue;
        }
        rc = ngx_memcmp(val->data, n->str.data, val->len);
        if (rc < 0) { node = node->left; continue; }
        if (rc > 0) { node = node->right; continue; }
        return n;
    }
    return NULL;
}

void ngx_queue_sort(ngx_queue_t *queue,
    ngx_int_t (*cmp)(const ngx_queue_t *, const ngx_queue_t *))
{
    ngx_queue_t *q, *prev, *next;
    q = ngx_queue_head(queue);
    if (q == ngx_queue_last(queue)) return;
    for (q = ngx_queue_next(q); q != ngx_queue_sentinel(queue); q = next) {
        prev = ngx_queue_prev(q);
        next = ngx_queue_next(q);
        ngx_queue_remove(q);
        do {
            if (cmp(prev, q) <= 0) break;
            prev = ngx_queue_prev(prev);
        } while (prev != ngx_queue_sentinel(queue));
        ngx_queue_insert_after(prev, q);
    }
}

void ngx_sort(void *base, size_t n, size_t size,
    ngx_int_t (*cmp)(const void *, const void *))
{
    u_char *p1, *p2, *p;
    p = ngx_alloc(size, &vf_log);
    if (p == NULL) return;
    for (p1 = (u_char *) base + size; p1 < (u_char *) base + n * size; p1 += size) {
        ngx_memcpy(p, p1, size);
        for (p2 = p1; p2 > (u_char *) base && cmp(p2 - size, p) > 0; p2 -= size)
            ngx_memcpy(p2, p2 - size, size);
        ngx_memcpy(p2, p, size);
    }
    ngx_free(p);
}

/* strings */

size_t ngx_strnlen(u_char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) if (p[i] == '\0') return i;
    return n;
}
void ngx_strlow(u_char *dst, u_char *src, size_t n)
{
    while (n) { *dst = ngx_tolower(*src); dst++; src++; n--; }
}
u_char *ngx_cpystrn(u_char *dst, u_char *src, size_t n)
{
    if (n == 0) return dst;
    while (--n) {
        *dst = *src;
        if (*dst == '\0') return dst;
        dst++; src++;
    }
    *dst = '\0';
    return dst;
}
u_char *ngx_pstrdup(ngx_pool_t *pool, ngx_str_t *src)
{
    u_char *dst = ngx_pnalloc(pool, src->len);
    if (dst == NULL) return NULL;
    ngx_memcpy(dst, src->data, src->len);
    return dst;
}
ngx_int_t ngx_strcasecmp(u_char *s1, u_char *s2)
{
    ngx_uint_t c1, c2;
    for ( ;; ) {
        c1 = (ngx_uint_t) *s1++; c2 = (ngx_uint_t) *s2++;
        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
        if (c1 == c2) { if (c1) continue; return 0; }
        return c1 - c2;
    }
}
ngx_int_t ngx_strncasecmp(u_char *s1, u_char *s2, size_t n)
{
    ngx_uint_t c1, c2;
    while (n) {
        c1 = (ngx_uint_t) *s1++; c2 = (ngx_uint_t) *s2++;
        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
        if (c1 == c2) { if (c1) { n--; continue; } return 0; }
        return c1 - c2;
    }
    return 0;
}
ngx_int_t ngx_memn2cmp(u_char *s1, u_char *s2, size_t n1, size_t n2)
{
    size_t n; ngx_int_t m, z;
    if (n1 <= n2) { n = n1; z = -1; } else { n = n2; z = 1; }
    m = ngx_memcmp(s1, s2, n);
    if (m || n1 == n2) return m;
    return z;
}
ngx_int_t ngx_atoi(u_char *line, size_t n)
{
    ngx_int_t value, cutoff, cutlim;
    if (n == 0) return NGX_ERROR;
    cutoff = NGX_MAX_INT_T_VALUE / 10;
    cutlim = NGX_MAX_INT_T_VALUE % 10;
    for (value = 0; n--; line++) {
        if (*line < '0' || *line > '9') return NGX_ERROR;
        if (value >= cutoff && (value > cutoff || *line - '0' > cutlim)) return NGX_ERROR;
        value = value * 10 + (*line - '0');
    }
    return value;
}
off_t ngx_atoof(u_char *line, size_t n) { return ngx_atoi(line, n); }
ssize_t ngx_atosz(u_char *line, size_t n) { return ngx_atoi(line, n); }
time_t ngx_atotm(u_char *line, size_t n) { return ngx_atoi(line, n); }
ngx_int_t ngx_hextoi(u_char *line, size_t n)
{
    u_char c, ch; ngx_int_t value, cutoff;
    if (n == 0) return NGX_ERROR;
    cutoff = NGX_MAX_INT_T_VALUE / 16;
    for (value = 0; n--; line++) {
        if (value > cutoff) return NGX_ERROR;
        ch = *line;
        if (ch >= '0' && ch <= '9') { value = value * 16 + (ch - '0'); continue; }
        c = (u_char) (ch | 0x20);
        if (c >= 'a' && c <= 'f') { value = value * 16 + (c - 'a' + 10); continue; }
        return NGX_ERROR;
    }
    return value;
}
u_char *ngx_hex_dump(u_char *dst, u_char *src, size_t len)
{
    static u_char hex[] = "0123456789abcdef";
    while (len--) {
        *dst++ = hex[*src >> 4];
        *dst++ = hex[*src++ & 0xf];
    }
    return dst;
}

uintptr_t ngx_escape_json(u_char *dst, u_char *src, size_t size)
{
    u_char ch; ngx_uint_t len;
    if (dst == NULL) {
        len = 0;
        while (size) {
            ch = *src++;
            if (ch == '\\' || ch == '"') {
                len++;
            } else if (ch <= 0x1f) {
                switch (ch) {
                case '\n': case '\r': case '\t': case '\b': case '\f':
                    len++;
                    break;
                default:
                    len += sizeof("\\u001F") - 2;
                }
            }
            size--;
        }
        return (uintptr_t) len;
    }
    while (size) {
        ch = *src++;
        if (ch > 0x1f) {
            if (ch == '\\' || ch == '"') *dst++ = '\\';
            *dst++ = ch;
        } else {
            *dst++ = '\\';
            switch (ch) {
            case '\n': *dst++ = 'n'; break;
            case '\r': *dst++ = 'r'; break;
            case '\t': *dst++ = 't'; break;
            case '\b': *dst++ = 'b'; break;
            case '\f': *dst++ = 'f'; break;
            default:
                *dst++ = 'u'; *dst++ = '0'; *dst++ = '0';
                *dst++ = '0' + (ch >> 4);
                ch &= 0xf;
                *dst++ = (ch < 10) ? ('0' + ch) : ('A' + ch - 10);
            }
        }
        size--;
    }
    return (uintptr_t) dst;
}

void ngx_encode_base64(ngx_str_t *dst, ngx_str_t *src)
{
    static u_char basis64[] =
        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    u_char *d, *s; size_t len;
    len = src->len; s = src->data; d = dst->data;
    while (len > 2) {
        *d++ = basis64[(s[0] >> 2) & 0x3f];
        *d++ = basis64[((s[0] & 3) << 4) | (s[1] >> 4)];
        *d++ = basis64[((s[1] & 0x0f) << 2) | (s[2] >> 6)];
        *d++ = basis64[s[2] & 0x3f];
        s += 3; len -= 3;
    }
    if (len) {
        *d++ = basis64[(s[0] >> 2) & 0x3f];
        if (len == 1) {
            *d++ = basis64[(s[0] & 3) << 4];
            *d++ = '=';
        } else {
            *d++ = basis64[((s[0] & 3) << 4) | (s[1] >> 4)];
            *d++ = basis64[(s[1] & 0x0f) << 2];
        }
        *d++ = '=';
    }
    dst->len = d - dst->data;
}

/* last == NULL: unlimited (ngx_sprintf) */
#define VF_LEFT(buf, last)  ((last) == NULL ? (size_t) 0x100000 : (size_t) ((last) - (buf)))

static u_char *vf_sprintf_num(u_char *buf, u_char *last, uint64_t ui64,
    u_char zero, ngx_uint_t hexadecimal, ngx_uint_t width)
{
    u_char *p, temp[NGX_INT64_LEN + 1]; size_t len;
    static u_char hex[] = "0123456789abcdef";
    static u_char HEX[] = "0123456789ABCDEF";
    p = temp + NGX_INT64_LEN;
    if (hexadecimal == 0) {
        do { *--p = (u_char) (ui64 % 10 + '0'); } while (ui64 /= 10);
    } else if (hexadecimal == 1) {
        do { *--p = hex[(uint32_t) (ui64 & 0xf)]; } while (ui64 >>= 4);
    } else {
        do { *--p = HEX[(uint32_t) (ui64 & 0xf)]; } while (ui64 >>= 4);
    }
    len = (temp + NGX_INT64_LEN) - p;
    while (len++ < width && VF_LEFT(buf, last) > 0) *buf++ = zero;
    len = (temp + NGX_INT64_LEN) - p;
    if (len > VF_LEFT(buf, last)) len = VF_LEFT(buf, last);
    return ngx_cpymem(buf, p, len);
}

u_char *ngx_vslprintf(u_char *buf, u_char *last, const char *fmt, va_list args)
{
    u_char *p, zero; int d; double f; size_t slen; int64_t i64; uint64_t ui64, frac;
    ngx_uint_t width, sign, hex, max_width, frac_width, scale, n;
    ngx_str_t *v; ngx_variable_value_t *vv; ngx_msec_t ms;

    while (*fmt && VF_LEFT(buf, last) > 0) {
        if (*fmt == '%') {
            i64 = 0; ui64 = 0;
            zero = (u_char) ((*++fmt == '0') ? '0' : ' ');
            width = 0; sign = 1; hex = 0; max_width = 0; frac_width = 0; slen = (size_t) -1;
            while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
            for ( ;; ) {
                switch (*fmt) {
                case 'u': sign = 0; fmt++; continue;
                case 'm': max_width = 1; fmt++; continue;
                case 'X': hex = 2; sign = 0; fmt++; continue;
                case 'x': hex = 1; sign = 0; fmt++; continue;
                case '.':
                    fmt++;
                    while (*fmt >= '0' && *fmt <= '9') frac_width = frac_width * 10 + (*fmt++ - '0');
                    break;
                case '*': slen = va_arg(args, size_t); fmt++; continue;
                default: break;
                }
                break;
            }
            switch (*fmt) {
            case 'V':
                v = va_arg(args, ngx_str_t *);
                slen = ((VF_LEFT(buf, last)) < v->len) ? (VF_LEFT(buf, last)) : v->len;
                buf = ngx_cpymem(buf, v->data, slen);
                fmt++;
                continue;
            case 'v':
                vv = va_arg(args, ngx_variable_value_t *);
                slen = ((VF_LEFT(buf, last)) < vv->len) ? (VF_LEFT(buf, last)) : vv->len;
                buf = ngx_cpymem(buf, vv->data, slen);
                fmt++;
                continue;
            case 's':
                p = va_arg(args, u_char *);
                if (slen == (size_t) -1) {
                    while (*p && VF_LEFT(buf, last) > 0) *buf++ = *p++;
                } else {
                    if ((VF_LEFT(buf, last)) < slen) slen = VF_LEFT(buf, last);
                    buf = ngx_cpymem(buf, p, slen);
                }
                fmt++;
                continue;
            case 'O': i64 = (int64_t) va_arg(args, off_t); sign = 1; break;
            case 'P': i64 = (int64_t) va_arg(args, ngx_pid_t); sign = 1; break;
            case 'T': i64 = (int64_t) va_arg(args, time_t); sign = 1; break;
            case 'M':
                ms = (ngx_msec_t) va_arg(args, ngx_msec_t);
                if ((ngx_msec_int_t) ms == -1) { sign = 1; i64 = -1; }
                else { sign = 0; ui64 = (uint64_t) ms; }
                break;
            case 'z':
                if (sign) i64 = (int64_t) va_arg(args, ssize_t);
                else ui64 = (uint64_t) va_arg(args, size_t);
                break;
            case 'i':
                if (sign) i64 = (int64_t) va_arg(args, ngx_int_t);
                else ui64 = (uint64_t) va_arg(args, ngx_uint_t);
                if (max_width) width = NGX_INT_T_LEN;
                break;
            case 'd':
                if (sign) i64 = (int64_t) va_arg(args, int);
                else ui64 = (uint64_t) va_arg(args, u_int);
                break;
            case 'l':
                if (sign) i64 = (int64_t) va_arg(args, long);
                else ui64 = (uint64_t) va_arg(args, u_long);
                break;
            case 'D':
                if (sign) i64 = (int64_t) va_arg(args, int32_t);
                else ui64 = (uint64_t) va_arg(args, uint32_t);
                break;
            case 'L':
                if (sign) i64 = va_arg(args, int64_t);
                else ui64 = va_arg(args, uint64_t);
                break;
            case 'A':
                if (sign) i64 = (int64_t) va_arg(args, ngx_atomic_int_t);
                else ui64 = (uint64_t) va_arg(args, ngx_atomic_uint_t);
                if (max_width) width = NGX_ATOMIC_T_LEN;
                break;
            case 'f':
                f = va_arg(args, double);
                if (f < 0) { *buf++ = '-'; f = -f; }
                ui64 = (int64_t) f;
                frac = 0;
                if (frac_width) {
                    scale = 1;
                    for (n = frac_width; n; n--) scale *= 10;
                    frac = (uint64_t) ((f - (double) ui64) * scale + 0.5);
                    if (frac == scale) { ui64++; frac = 0; }
                }
                buf = vf_sprintf_num(buf, last, ui64, zero, 0, width);
                if (frac_width) {
                    if (VF_LEFT(buf, last) > 0) *buf++ = '.';
                    buf = vf_sprintf_num(buf, last, frac, '0', 0, frac_width);
                }
                fmt++;
                continue;
            case 'p':
                ui64 = (uintptr_t) va_arg(args, void *);
                hex = 2; sign = 0; zero = '0'; width = 2 * sizeof(void *);
                break;
            case 'c':
                d = va_arg(args, int);
                *buf++ = (u_char) (d & 0xff);
                fmt++;
                continue;
            case 'Z': *buf++ = '\0'; fmt++; continue;
            case 'N': *buf++ = LF; fmt++; continue;
            case '%': *buf++ = '%'; fmt++; continue;
            default: *buf++ = *fmt++; continue;
            }
            if (sign) {
                if (i64 < 0) { *buf++ = '-'; ui64 = (uint64_t) -i64; }
                else ui64 = (uint64_t) i64;
            }
            buf = vf_sprintf_num(buf, last, ui64, zero, hex, width);
            fmt++;
        } else {
            *buf++ = *fmt++;
        }
    }
    return buf;
}
u_char *ngx_sprintf(u_char *buf, const char *fmt, ...)
{
    u_char *p; va_list args;
    va_start(args, fmt);
    p = ngx_vslprintf(buf, NULL, fmt, args);
    va_end(args);
    return p;
}
u_char *ngx_snprintf(u_char *buf, size_t max, const char *fmt, ...)
{
    u_char *p; va_list args;
    va_start(args, fmt);
    p = ngx_vslprintf(buf, buf + max, fmt, args);
    va_end(args);
    return p;
}
u_char *ngx_slprintf(u_char *buf, u_char *last, const char *fmt, ...)
{
    u_char *p; va_list args;
    va_start(args, fmt);
    p = ngx_vslprintf(buf, last, fmt, args);
    va_end(args);
    return p;
}

/* events: readiness is decided by the harness */
ngx_int_t ngx_handle_read_event(ngx_event_t *rev, ngx_uint_t flags) { return NGX_OK; }
ngx_int_t ngx_handle_write_event(ngx_event_t *wev, size_t lowat) { return NGX_OK; }
void ngx_event_expire_timers(void) {}
ngx_os_io_t  ngx_io;

/* crc32 (tables of the reflected polynomial 0xedb88320) */
uint32_t  ngx_crc32_table256[256];
static uint32_t  vf_crc16[16];
uint32_t  *ngx_crc32_table_short = vf_crc16;
static void vf_crc_init(void)
{
    uint32_t i, k, c;
    for (i = 0; i < 256; i++) {
        for (c = i, k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xedb88320 : c >> 1;
        ngx_crc32_table256[i] = c;
    }
    for (i = 0; i < 16; i++) {
        for (c = i, k = 0; k < 4; k++) c = (c & 1) ? (c >> 1) ^ 0xedb88320 : c >> 1;
        vf_crc16[i] = c;
    }
}
ngx_int_t ngx_crc32_table_init(void) { return NGX_OK; }

static ngx_int_t vf_decode_base64(ngx_str_t *dst, ngx_str_t *src, int url)
{
    size_t len; u_char *d, *s; unsigned v[4], i; u_char c;
    for (len = 0; len < src->len; len++) {
        c = src->data[len];
        if (c == '=') break;
        if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')
              || c == (url ? '-' : '+') || c == (url ? '_' : '/'))) return NGX_ERROR;
    }
    if (len % 4 == 1) return NGX_ERROR;
    s = src->data; d = dst->data;
    while (len > 1) {
        for (i = 0; i < 4; i++) {
            if (i >= len) { v[i] = 0; continue; }
            c = s[i];
            v[i] = c >= 'a' ? c - 'a' + 26 : c >= 'A' && c != '_' ? c - 'A' : c >= '0' && c <= '9' ? c - '0' + 52
                 : (c == '+' || c == '-') ? 62 : 63;
            if (c == '_') v[i] = 63;
        }
        *d++ = (u_char) (v[0] << 2 | v[1] >> 4);
        if (len > 2) *d++ = (u_char) (v[1] << 4 | v[2] >> 2);
        if (len > 3) *d++ = (u_char) (v[2] << 6 | v[3]);
        s += 4; len -= len < 4 ? len : 4;
    }
    dst->len = d - dst->data;
    return NGX_OK;
}
ngx_int_t ngx_decode_base64(ngx_str_t *dst, ngx_str_t *src) { return vf_decode_base64(dst, src, 0); }
ngx_int_t ngx_decode_base64url(ngx_str_t *dst, ngx_str_t *src) { return vf_decode_base64(dst, src, 1); }

/* hashes: a list of the keys */
typedef struct { ngx_uint_t n; ngx_hash_key_t *k; } vf_hash_t;
ngx_uint_t ngx_hash_key(u_char *data, size_t len)
{
    ngx_uint_t i, key = 0;
    for (i = 0; i < len; i++) key = ngx_hash(key, data[i]);
    return key;
}
ngx_uint_t ngx_hash_key_lc(u_char *data, size_t len)
{
    ngx_uint_t i, key = 0;
    for (i = 0; i < len; i++) key = ngx_hash(key, ngx_tolower(data[i]));
    return key;
}
ngx_int_t ngx_hash_keys_array_init(ngx_hash_keys_arrays_t *ha, ngx_uint_t type)
{
    return ngx_array_init(&ha->keys, ha->temp_pool, 4, sizeof(ngx_hash_key_t));
}
ngx_int_t ngx_hash_add_key(ngx_hash_keys_arrays_t *ha, ngx_str_t *key, void *value, ngx_uint_t flags)
{
    ngx_uint_t i; ngx_hash_key_t *k = ha->keys.elts;
    for (i = 0; i < ha->keys.nelts; i++) {
        if (k[i].key.len == key->len && memcmp(k[i].key.data, key->data, key->len) == 0) return NGX_BUSY;
    }
    k = ngx_array_push(&ha->keys);
    if (k == NULL) return NGX_ERROR;
    k->key = *key; k->value = value; k->key_hash = ngx_hash_key(key->data, key->len);
    return NGX_OK;
}
ngx_int_t ngx_hash_init(ngx_hash_init_t *hinit, ngx_hash_key_t *names, ngx_uint_t nelts)
{
    vf_hash_t *h = ngx_palloc(hinit->pool, sizeof(*h));
    h->n = nelts; h->k = names;
    hinit->hash->buckets = (void *) h;
    return NGX_OK;
}
void *ngx_hash_find(ngx_hash_t *hash, ngx_uint_t key, u_char *name, size_t len)
{
    ngx_uint_t i; vf_hash_t *h = (void *) hash->buckets;
    if (h == NULL) return NULL;
    for (i = 0; i < h->n; i++) {
        if (h->k[i].key.len == len && memcmp(h->k[i].key.data, name, len) == 0) {
            VF_ASSERT(h->k[i].key_hash == key, "ngx_hash_find: wrong key hash");
            return h->k[i].value;
        }
    }
    return NULL;
}

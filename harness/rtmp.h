/* a real RTMP session on a model connection */
#include "vf_ngx.h"
#include "ngx_rtmp.h"
#include "ngx_rtmp_cmd_module.h"

#ifndef CHUNK_OUT
#define CHUNK_OUT 128
#endif
ngx_module_t  ngx_rtmp_core_module, ngx_rtmp_cmd_module;
ngx_uint_t    ngx_rtmp_max_module = 1;
static ngx_atomic_t  stat_active_;
ngx_atomic_t  *ngx_stat_active = &stat_active_;
static ngx_rtmp_core_main_conf_t  cmcf;
static ngx_rtmp_core_srv_conf_t   cscf;
static void                      *mconf[1], *sconf[1];
static ngx_rtmp_conf_ctx_t        cctx;
static ngx_rtmp_addr_conf_t       aconf;
static ngx_connection_t          *conn;
static ngx_rtmp_session_t        *sess;
static int                        conn_closed;
static ngx_log_t                  clog;

void ngx_close_connection(ngx_connection_t *c) { conn_closed++; }
ngx_int_t ngx_connection_local_sockaddr(ngx_connection_t *c, ngx_str_t *s, ngx_uint_t port) { return NGX_ERROR; }
void ngx_rtmp_handshake(ngx_rtmp_session_t *s) {}
void ngx_rtmp_proxy_protocol(ngx_rtmp_session_t *s) {}
#ifndef HANDSHAKE
void ngx_rtmp_free_handshake_buffers(ngx_rtmp_session_t *s) {}
#endif
void ngx_event_process_posted(ngx_cycle_t *cycle, ngx_queue_t *posted)
{
    ngx_queue_t *q; ngx_event_t *ev;
    while (!ngx_queue_empty(posted)) {
        q = ngx_queue_head(posted);
        ev = ngx_queue_data(q, ngx_event_t, queue);
        ngx_delete_posted_event(ev);
        ev->handler(ev);
    }
}
ngx_int_t ngx_rtmp_fire_event(ngx_rtmp_session_t *s, ngx_uint_t evt, ngx_rtmp_header_t *h, ngx_chain_t *in) { return NGX_OK; }
#define NULLPT(t, n) static ngx_int_t n##_(ngx_rtmp_session_t *s, t *v) { return NGX_OK; } ngx_int_t (*n)(ngx_rtmp_session_t *s, t *v) = n##_
NULLPT(ngx_rtmp_stream_begin_t, ngx_rtmp_stream_begin);
NULLPT(ngx_rtmp_stream_eof_t, ngx_rtmp_stream_eof);
NULLPT(ngx_rtmp_stream_dry_t, ngx_rtmp_stream_dry);
NULLPT(ngx_rtmp_recorded_t, ngx_rtmp_recorded);
NULLPT(ngx_rtmp_set_buflen_t, ngx_rtmp_set_buflen);

static ngx_int_t rtmp_ev(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { ev->active = 1; return NGX_OK; }
static ngx_int_t rtmp_ev_del(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { ev->active = 0; return NGX_OK; }

static void rtmp_handler(ngx_uint_t type, ngx_rtmp_handler_pt h)
{
    ngx_rtmp_handler_pt *p;
    if (cmcf.events[type].size == 0) {
        cmcf.events[type].size = sizeof(*p); cmcf.events[type].nalloc = 2; cmcf.events[type].pool = &vf_pool;
        cmcf.events[type].elts = ngx_palloc(&vf_pool, 2 * sizeof(*p));
    }
    p = ngx_array_push(&cmcf.events[type]);
    *p = h;
}

static void rtmp_setup(ngx_uint_t max_streams, size_t max_message)
{
    vf_ngx_init();
    ngx_event_actions.add = rtmp_ev; ngx_event_actions.del = rtmp_ev_del;
    ngx_current_msec = 1000;
    mconf[0] = &cmcf; sconf[0] = &cscf;
    cctx.main_conf = mconf; cctx.srv_conf = sconf; aconf.ctx = &cctx;
    cscf.max_streams = max_streams; cscf.max_message = max_message;
    cscf.chunk_size = CHUNK_OUT; cscf.out_queue = 8; cscf.timeout = 1000;
    cscf.type3_ext_ts = NGX_RTMP_TYPE3_EXT_TS_ON;
    cscf.pool = &vf_pool;
    conn = vf_zalloc(sizeof(*conn));
    conn->read = vf_zalloc(sizeof(ngx_event_t)); conn->write = vf_zalloc(sizeof(ngx_event_t));
    conn->read->data = conn; conn->write->data = conn; conn->write->write = 1;
    conn->read->log = conn->write->log = &clog;
    conn->log = &clog;
    conn->pool = ngx_create_pool(512, &vf_log);
}
static void rtmp_session(void)
{
    sess = ngx_rtmp_init_session(conn, &aconf);
    VF_ASSERT(sess != NULL, "session");
}
static void rtmp_close(void)
{
    ngx_rtmp_finalize_session(sess);
    ngx_event_process_posted(NULL, &ngx_posted_events);
    VF_ASSERT(conn_closed == 1, "connection closed once");
}

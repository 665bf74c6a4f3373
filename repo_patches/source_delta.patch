From 80a220e665868082745611b7f761c5f4cd032fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 01/16] fix: account the end-of-stream packet when it is auto
 acked

The reader advanced past the packet header, but acked_bytes did not, the next
auto ack parsed whatever followed it in the buffer as a packet.
---
 nginx-kmp-out-module/src/ngx_kmp_out_upstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c b/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
index 5415c31..82efc05 100644
--- a/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
+++ b/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
@@ -808,6 +808,7 @@ ngx_kmp_out_upstream_ack_packet(ngx_kmp_out_upstream_t *u,
         break;
 
     case KMP_PACKET_END_OF_STREAM:      /* can happen in case of auto push */
+        u->acked_bytes += size;         /* the header was consumed */
         return NGX_DONE;
 
     default:
-- 
2.43.0


From 99cf2992416ae1be76efef646d40cc821983029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 02/16] fix: limit the auto ack of a disconnected upstream to
 the appended data

The last written frame can still be in the active buffer. Acking it moved the
reader beyond the position from which the buffer is later sent, and the new
connection got the tail of a frame that was already acked.
---
 .../src/ngx_kmp_out_upstream.c                | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c b/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
index 82efc05..a38d34e 100644
--- a/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
+++ b/nginx-kmp-out-module/src/ngx_kmp_out_upstream.c
@@ -854,6 +854,22 @@ ngx_kmp_out_upstream_read_packet(ngx_kmp_out_upstream_t *u,
 }
 
 
+static off_t
+ngx_kmp_out_upstream_get_written(ngx_kmp_out_track_t *track)
+{
+    off_t  limit;
+    off_t  appended;
+
+    limit = track->stats.last_frame_written;
+
+    /* the data in the active buffer, will be sent when it is appended */
+    appended = track->stats.written
+        - (track->active_buf.last - track->active_buf.pos);
+
+    return ngx_min(limit, appended);
+}
+
+
 ngx_int_t
 ngx_kmp_out_upstream_auto_ack(ngx_kmp_out_upstream_t *u, size_t left,
     ngx_flag_t force)
@@ -868,7 +884,7 @@ ngx_kmp_out_upstream_auto_ack(ngx_kmp_out_upstream_t *u, size_t left,
         limit = u->sent_base + u->peer.connection->sent;
 
     } else {
-        limit = u->track->stats.last_frame_written;
+        limit = ngx_kmp_out_upstream_get_written(u->track);
     }
 
     ngx_log_debug4(NGX_LOG_DEBUG_KMP, &u->log, 0,
@@ -894,7 +910,7 @@ ngx_kmp_out_upstream_auto_ack(ngx_kmp_out_upstream_t *u, size_t left,
                 }
 
                 if (!u->last) {
-                    limit = u->track->stats.last_frame_written;
+                    limit = ngx_kmp_out_upstream_get_written(u->track);
                     continue;
                 }
             }
-- 
2.43.0


From 706da65ffe5810eb535f6da7571ecb352bbc01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 03/16] fix: persist: do not free pool memory when
 decompression fails

---
 nginx-common/src/ngx_persist_read.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nginx-common/src/ngx_persist_read.c b/nginx-common/src/ngx_persist_read.c
index b43840a..2006e66 100644
--- a/nginx-common/src/ngx_persist_read.c
+++ b/nginx-common/src/ngx_persist_read.c
@@ -141,7 +141,10 @@ ngx_persist_read_inflate(ngx_str_t *buf, size_t max_size,
         ngx_log_error(NGX_LOG_ERR, rs->log, 0,
             "ngx_persist_read_inflate: "
             "uncompress failed %d", rc);
-        ngx_free(p);
+        if (pool == NULL) {
+            ngx_free(p);
+        }
+
         return NGX_BAD_DATA;
     }
 
-- 
2.43.0


From 01aeab987d64d84f0d4db2dd0d636f928da37ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 04/16] fix: rtmp: reject a chunk that shrinks a partially
 received message

---
 nginx-rtmp-module/src/ngx_rtmp_handler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_handler.c b/nginx-rtmp-module/src/ngx_rtmp_handler.c
index aa05be8..fb9a571 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_handler.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_handler.c
@@ -517,6 +517,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 ngx_rtmp_finalize_session(s);
                 return;
             }
+
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_ERR, c->log, 0,
+                              "RTMP message size too small: %uD < %uD",
+                               h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
         }
 
         size = b->last - b->pos;
-- 
2.43.0


From c32d66034ce07ba603e7c6055c82e9bb6b9f1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 05/16] fix: rtmp: do not leak the input pool on successive
 chunk size changes

---
 nginx-rtmp-module/src/ngx_rtmp_handler.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_handler.c b/nginx-rtmp-module/src/ngx_rtmp_handler.c
index fb9a571..1c11bee 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_handler.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_handler.c
@@ -951,12 +951,20 @@ done:
 }
 
 
+static void
+ngx_rtmp_destroy_pool(void *data)
+{
+    ngx_destroy_pool(data);
+}
+
+
 ngx_int_t
 ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 {
     ngx_rtmp_core_srv_conf_t           *cscf;
     ngx_chain_t                        *li, *fli, *lo, *flo;
     ngx_pool_t                         *pool;
+    ngx_pool_cleanup_t                 *cln;
     ngx_buf_t                          *bi, *bo;
     ngx_int_t                           n;
 
@@ -982,6 +990,18 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
         return NGX_ERROR;
     }
 
+    if (s->in_old_pool) {
+        /* the data read before the previous change was not fully consumed */
+        cln = ngx_pool_cleanup_add(s->in_pool, 0);
+        if (cln == NULL) {
+            ngx_destroy_pool(pool);
+            return NGX_ERROR;
+        }
+
+        cln->handler = ngx_rtmp_destroy_pool;
+        cln->data = s->in_old_pool;
+    }
+
     s->in_old_pool = s->in_pool;
     s->in_chunk_size = size;
     s->in_pool = pool;
-- 
2.43.0


From 45c37573b8ec92b7a18ad3799f82a046428982fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 06/16] fix: rtmp: count the queued messages correctly for any
 out_queue size

The unsigned difference wraps when out_last is behind out_pos, and the
remainder of the wrapped value is only right for power of two sizes.
---
 nginx-rtmp-module/src/ngx_rtmp_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-rtmp-module/src/ngx_rtmp_handler.c b/nginx-rtmp-module/src/ngx_rtmp_handler.c
index 1c11bee..b4fb6d9 100644
--- a/nginx-rtmp-module/src/ngx_rtmp_handler.c
+++ b/nginx-rtmp-module/src/ngx_rtmp_handler.c
@@ -825,7 +825,7 @@ ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_chain_t *out,
 {
     ngx_uint_t                      nmsg;
 
-    nmsg = (s->out_last - s->out_pos) % s->out_queue + 1;
+    nmsg = (s->out_last + s->out_queue - s->out_pos) % s->out_queue + 1;
 
     if (priority > 3) {
         priority = 3;
-- 
2.43.0


From d2216399b8a8f7b8ad14329653571c3271896c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 07/16] fix: lba: keep the active list head when a block holds
 a single buffer

---
 nginx-common/src/ngx_lba.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-common/src/ngx_lba.c b/nginx-common/src/ngx_lba.c
index fba5c3b..03554b4 100644
--- a/nginx-common/src/ngx_lba.c
+++ b/nginx-common/src/ngx_lba.c
@@ -142,7 +142,7 @@ ngx_lba_block_free(ngx_lba_t *lba, ngx_lba_block_header_t *block)
 
     ngx_lba_mem_free(block, NGX_LBA_BLOCK_SIZE, ngx_cycle->log);
 
-    if (ngx_queue_empty(&bin->blocks)) {
+    if (ngx_queue_empty(&bin->blocks) && &bin->queue != lba->active) {
         ngx_queue_remove(&bin->queue);
     }
 }
-- 
2.43.0


From c76049e33d09e1bf83fa30e89d8c6b5356e2c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 08/16] fix: lba: unlinked bins were not re-activated without
 debug

---
 nginx-common/src/ngx_lba.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nginx-common/src/ngx_lba.c b/nginx-common/src/ngx_lba.c
index 03554b4..1482681 100644
--- a/nginx-common/src/ngx_lba.c
+++ b/nginx-common/src/ngx_lba.c
@@ -144,6 +144,7 @@ ngx_lba_block_free(ngx_lba_t *lba, ngx_lba_block_header_t *block)
 
     if (ngx_queue_empty(&bin->blocks) && &bin->queue != lba->active) {
         ngx_queue_remove(&bin->queue);
+        bin->queue.next = NULL;     /* not in queue */
     }
 }
 
@@ -201,6 +202,7 @@ ngx_lba_block_alloc_buf(ngx_lba_t *lba, ngx_lba_block_header_t *block)
 
     if (ngx_queue_empty(&old_bin->blocks)) {
         ngx_queue_remove(&old_bin->queue);
+        old_bin->queue.next = NULL;     /* not in queue */
     }
 
     return buf;
@@ -249,6 +251,7 @@ ngx_lba_block_free_buf(ngx_lba_t *lba, ngx_lba_block_header_t *block,
 
     if (ngx_queue_empty(&old_bin->blocks) && &old_bin->queue != lba->active) {
         ngx_queue_remove(&old_bin->queue);
+        old_bin->queue.next = NULL;     /* not in queue */
     }
 }
 
-- 
2.43.0


From 892d91995170d1fc6057b37f0661b44c3261af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 09/16] fix: live timeline, report the last skipped segment
 rather than the first output one

---
 nginx-live-module/src/ngx_live_timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-live-module/src/ngx_live_timeline.c b/nginx-live-module/src/ngx_live_timeline.c
index ada5e84..1d704b3 100644
--- a/nginx-live-module/src/ngx_live_timeline.c
+++ b/nginx-live-module/src/ngx_live_timeline.c
@@ -3472,7 +3472,7 @@ ngx_live_timeline_serve_skip_segments(ngx_live_timeline_t *timeline,
     }
 
     if (segment_index > period->node.key) {
-        sp->last_skipped_index = segment_index--;
+        sp->last_skipped_index = segment_index - 1;
 
     } else {
         q = ngx_queue_prev(q);
-- 
2.43.0


From be17d7532b6a15f35b97c9fdc4b40542373326f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 10/16] fix: mpegts muxer, the PCR PID in the PMT of audio only
 segments did not match the audio PID

---
 nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
index a0ea94b..75ca519 100644
--- a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
+++ b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
@@ -550,6 +550,11 @@ mpegts_encoder_add_stream(
         return VOD_OK;
     }
 
+    if (stream_info->pcr)
+    {
+        pmt_set_pcr_pid(stream_state->pmt_packet_start + SIZEOF_MPEGTS_HEADER, stream_info->pid);
+    }
+
     switch (stream_info->media_type)
     {
     case MEDIA_TYPE_VIDEO:
-- 
2.43.0


From f6fc6078930591832cc97ab8e7d48fec9946f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 11/16] fix: mpegts muxer, a PES that fit in one packet was
 corrupted by the next PES header when the codec has no frame header

---
 nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
index 75ca519..3c5c0dc 100644
--- a/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
+++ b/nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c
@@ -830,7 +830,7 @@ mpegts_encoder_start_frame(media_filter_context_t* context, output_frame_t* fram
     }
 
     state->flushed_frame_bytes = 0;
-    state->header_size = frame->header_size;
+    state->header_size = vod_max(frame->header_size, 1);    // a packet can hold a single pes header
 
     state->send_queue_offset = state->last_queue_offset;
 
@@ -1250,7 +1250,7 @@ mpegts_encoder_simulated_start_frame(media_filter_context_t* context, output_fra
     }
 
     state->flushed_frame_bytes = 0;
-    state->header_size = frame->header_size;
+    state->header_size = vod_max(frame->header_size, 1);    // a packet can hold a single pes header
 
     state->temp_packet_size += mpegts_get_pes_header_size(&state->stream_info);
 
-- 
2.43.0


From 2ebe1beb7a567a7c3be3e5f72ebfe4970721642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 12/16] fix: write the frames of a CENC encrypted video
 fragment whose header is built up front

The header's auxiliary data is built by walking the frames, which leaves the
stream positions at their end: without a reset nothing is written after it.
---
 nginx-pckg-module/src/media/mp4/mp4_dash_encrypt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nginx-pckg-module/src/media/mp4/mp4_dash_encrypt.c b/nginx-pckg-module/src/media/mp4/mp4_dash_encrypt.c
index 5cb7466..a7f7520 100644
--- a/nginx-pckg-module/src/media/mp4/mp4_dash_encrypt.c
+++ b/nginx-pckg-module/src/media/mp4/mp4_dash_encrypt.c
@@ -178,6 +178,9 @@ mp4_dash_encrypt_get_fragment_writer(
             return rc;
         }
 
+        // when the header is already built, building it moved the streams to their end
+        mp4_muxer_reset(state);
+
         break;
 
     case MEDIA_TYPE_AUDIO:
-- 
2.43.0


From ed25d40fc786d2f06fbc08ee3383da6cb520e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:09 +0000
Subject: [PATCH 13/16] fix: CBCS, finish a packet whose last bytes are written
 with the slice header

When the last packet of a segment is a slice with less than a block of data
after its header, or a NAL unit of one byte, the packet was never finished and
the tail of the output was never flushed.
---
 nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
index 5941aeb..ade3601 100644
--- a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
+++ b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
@@ -347,7 +347,10 @@ mp4_cbcs_encrypt_video_write_buffer(void* context, u_char* buffer, uint32_t size
     bool_t is_slice;
     vod_status_t rc;
 
-    while (cur_pos < buffer_end)
+    // Note: the last bytes of a packet may be written before reaching the copy state (e.g. a small slice),
+    //      in this case, have to finish the packet even though there is nothing more in the buffer
+    while (cur_pos < buffer_end ||
+        (stream_state->cur_state == STATE_PACKET_COPY && stream_state->packet_size_left <= 0))
     {
         switch (stream_state->cur_state)
         {
-- 
2.43.0


From 32cda10d3580dcded0ee5c46d42359428913aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:09 +0000
Subject: [PATCH 14/16] fix: CBCS, a subtitle track with no data kept the
 output from being flushed

The track was counted as one to be flushed, and it never was.
---
 nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
index ade3601..9a04f5f 100644
--- a/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
+++ b/nginx-pckg-module/src/media/mp4/mp4_cbcs_encrypt.c
@@ -835,6 +835,11 @@ mp4_cbcs_encrypt_skip_stream_write(void* context, u_char* buffer, uint32_t size)
     mp4_cbcs_encrypt_state_t* state = stream_state->state;
     vod_status_t rc;
 
+    if (size <= 0)
+    {
+        return VOD_OK;
+    }
+
     rc = write_buffer_write(&state->write_buffer, buffer, size);
     if (rc != VOD_OK)
     {
@@ -874,6 +879,11 @@ mp4_cbcs_encrypt_skip_get_fragment_writer(
     segment_writer->write_head = NULL;
     segment_writer->context = stream_state;
 
+    if (stream_state->left <= 0)
+    {
+        return VOD_NOT_FOUND;
+    }
+
     return VOD_OK;
 }
 
-- 
2.43.0


From 260fb29410a3229d4e3d078ae3f3f85bcfc7bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 15/16] fix: keep a subtitle cue pending while it is shown,
 when a later cue ends first

---
 nginx-live-module/src/ngx_live_segmenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nginx-live-module/src/ngx_live_segmenter.c b/nginx-live-module/src/ngx_live_segmenter.c
index 304db34..fa75a5d 100644
--- a/nginx-live-module/src/ngx_live_segmenter.c
+++ b/nginx-live-module/src/ngx_live_segmenter.c
@@ -869,7 +869,7 @@ ngx_live_segmenter_frame_list_get_subtitle_indexes(
         }
 
         end = cur->pts;
-        if (end < target_pts) {
+        if (end < target_pts && *remove_index == *copy_index) {
             (*remove_index)++;
         }
 
-- 
2.43.0


From bb704de43008276ba09fbdbd5c87100eaef25e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 16/16] fix: do not free a channel when no pending frame falls
 in the next segment

---
 nginx-live-module/src/ngx_live_segmenter.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nginx-live-module/src/ngx_live_segmenter.c b/nginx-live-module/src/ngx_live_segmenter.c
index fa75a5d..bc243d2 100644
--- a/nginx-live-module/src/ngx_live_segmenter.c
+++ b/nginx-live-module/src/ngx_live_segmenter.c
@@ -2656,10 +2656,17 @@ ngx_live_segmenter_dispose_segment(ngx_live_channel_t *channel,
         ngx_live_segmenter_remove_frames(cur_track, cur_ctx->remove_index, 1);
     }
 
+    cctx = ngx_live_get_module_ctx(channel, ngx_live_segmenter_module);
+
     if (!removed) {
-        ngx_log_error(NGX_LOG_ALERT, &channel->log, 0,
-            "ngx_live_segmenter_dispose_segment: no frames removed");
-        return NGX_ERROR;
+        if (end_pts <= cctx->last_segment_end_pts) {
+            ngx_log_error(NGX_LOG_ALERT, &channel->log, 0,
+                "ngx_live_segmenter_dispose_segment: no frames removed");
+            return NGX_ERROR;
+        }
+
+        /* all the pending frames are after end_pts, continue from there */
+        force_new_period = 1;
     }
 
     if (!force_new_period) {
@@ -2670,8 +2677,6 @@ ngx_live_segmenter_dispose_segment(ngx_live_channel_t *channel,
         "ngx_live_segmenter_dispose_segment: "
         "empty segment, forcing new period");
 
-    cctx = ngx_live_get_module_ctx(channel, ngx_live_segmenter_module);
-
     cctx->last_segment_end_pts = end_pts;
     cctx->force_new_period = 1;
 
-- 
2.43.0


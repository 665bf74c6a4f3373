I = ['nginx-live-module/src', 'nginx-common/src', 'nginx-kmp-in-module/src']
N = 'nginx-common/src/'
L = 'nginx-live-module/src/'
PERSIST = [N + 'ngx_persist.c', N + 'ngx_persist_write.c', N + 'ngx_persist_read.c', N + 'ngx_mem_rstream.c']
CH = [L + 'ngx_live_channel.c', L + 'ngx_block_str.c'] + PERSIST
TL = [L + 'ngx_live_timeline.c', L + 'ngx_live_segment_list.c']

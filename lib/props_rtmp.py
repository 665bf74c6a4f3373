R = 'nginx-rtmp-module/src/'
U = [R + 'ngx_rtmp_handler.c', R + 'ngx_rtmp_receive.c', R + 'ngx_rtmp_init.c', R + 'ngx_rtmp_send.c', R + 'ngx_rtmp_shared.c', R + 'ngx_rtmp_bandwidth.c', R + 'ngx_rtmp_amf.c']

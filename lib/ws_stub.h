/* Parts of the environment of ws.c that are not exercised, and its socket. */
static int h;
static struct dill_msock_vfs *mv;
dill_unique_id(dill_bsock_type);
int dill_http_attach_mem(int s, struct dill_http_storage *mem) {CHECK(0, "unused"); return -1;}
int dill_http_detach(int s, int64_t dl) {return -1;}
int dill_http_done(int s, int64_t dl) {return -1;}
int dill_http_sendrequest(int s, const char *c, const char *r, int64_t dl) {return -1;}
int dill_http_recvrequest(int s, char *c, size_t cl, char *r, size_t rl, int64_t dl) {return -1;}
int dill_http_sendstatus(int s, int st, const char *r, int64_t dl) {return -1;}
int dill_http_recvstatus(int s, char *r, size_t rl, int64_t dl) {return -1;}
int dill_http_sendfield(int s, const char *n, const char *v, int64_t dl) {return -1;}
int dill_http_recvfield(int s, char *n, size_t nl, char *v, size_t vl, int64_t dl) {return -1;}
static void *u_query(struct dill_hvfs *v, const void *type) {
    if(type == dill_bsock_type) return v;
    errno = ENOTSUP;
    return NULL;
}
static int u_closed;
static void u_close(struct dill_hvfs *v) {u_closed++;}
static struct dill_hvfs u_vfs = {u_query, u_close};
/* The socket below is used under whatever number it has now. */
static int u_is(int s) {return dill_hquery(s, dill_bsock_type) == &u_vfs;}
static struct dill_ws_storage mem;
static void ws_make(int server, int flags) {
    memset(&mem, 0xff, sizeof(mem));
    int u = dill_hmake(&u_vfs);
    h = server ? dill_ws_attach_server_mem(u, DILL_WS_NOHTTP | flags, NULL, 0, NULL, 0, &mem, -1) :
        dill_ws_attach_client_mem(u, DILL_WS_NOHTTP | flags, NULL, NULL, &mem, -1);
    CHECK(h >= 0 && mh_open == 2 && !mh_isopen(u), "attached");
    mv = dill_hquery(h, dill_msock_type);
    CHECK(mv != NULL, "is a message socket");
}

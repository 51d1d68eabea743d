// Network seam: in-memory loopback sockets between the real server code and scripted clients. Clients are simulator threads.
#define MAXC 256
typedef struct { u8 *b; size_t len, pos, cap; int eof, rst; u64 not_before; } pipebuf;
typedef struct { int used, accepted; pipebuf c2s, s2c; int srv_open; u64 rcvto, sndto; int srv_rd_shut; } vconn;
typedef struct { int kind; int conn; } vfd; // kind 1: plain socket, 2: listener, 3: connection
static vfd vfds[MAXFD];
static vconn conns[MAXC];
static int backlog[MAXC], nbacklog;
static int listening;
static u16 listen_port;
static int chan_accept, chan_listen, creating_clients;
static int side_of_new(void) { return !creating_clients && (threads[cur].side || (cur == 0 && !listening)); }
static void freeze(u64 ns) { freeze_until = vnow() + ns; sh->fault_hit[F_FREEZE]++; hmix(0xf0000, ns); }

static void pb_put(pipebuf *p, const void *d, size_t n) {
  if (p->len + n > p->cap) { size_t c = (p->len + n) * 2 + 4096; p->b = realloc(p->b, c); p->cap = c; }
  memcpy(p->b + p->len, d, n); p->len += n;
}
static int newfd(int kind, int conn) {
  long fd = RAW(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0 || fd >= MAXFD) { errno = EMFILE; return -1; }
  fdflag[fd] = 2; vfds[fd].kind = kind; vfds[fd].conn = conn;
  return (int)fd;
}
int socket(int dom, int type, int proto) {
  if (!insim()) return (int)reterr(RAW(SYS_socket, dom, type, proto));
  return newfd(1, -1);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_bind, fd, a, l));
  if (a->sa_family == AF_INET) listen_port = ntohs(((struct sockaddr_in *)a)->sin_port);
  return 0;
}
int listen(int fd, int n) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_listen, fd, n));
  vfds[fd].kind = 2; listening = 1; wake_chan(&chan_listen, MAXT); hmix(0x6000, 0);
  if (sh->freeze_listen_ns) freeze(sh->freeze_listen_ns);
  return 0;
}
static void fill_addr(struct sockaddr *a, socklen_t *l, u16 port) {
  if (!a || !l) return;
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(0x7f000001);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_getsockname, fd, a, l));
  fill_addr(a, l, listen_port); return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_getpeername, fd, a, l));
  fill_addr(a, l, (u16)(40000 + vfds[fd].conn)); return 0;
}
int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_setsockopt, fd, lvl, opt, v, l));
  if (lvl == SOL_SOCKET && vfds[fd].kind == 3 && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    const struct timeval *tv = v;
    u64 ns = (u64)tv->tv_sec * 1000000000ull + (u64)tv->tv_usec * 1000ull;
    if (opt == SO_RCVTIMEO) conns[vfds[fd].conn].rcvto = ns; else conns[vfds[fd].conn].sndto = ns;
  }
  return 0;
}
int getsockopt(int fd, int lvl, int opt, void *restrict v, socklen_t *restrict l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_getsockopt, fd, lvl, opt, v, l));
  memset(v, 0, *l); return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_accept4, fd, a, l, flags));
  astep();
  for (;;) {
    if (nbacklog) {
      int c = backlog[0];
      memmove(backlog, backlog + 1, sizeof(int) * (size_t)(--nbacklog));
      if (conns[c].c2s.rst && fault(F_NET_ACCEPT_ABORT, 1)) { conns[c].srv_open = 0; errno = ECONNABORTED; return -1; }
      conns[c].accepted = 1; conns[c].srv_open = 1;
      fill_addr(a, l, (u16)(40000 + c));
      hmix(0x6100, c);
      return newfd(3, c);
    }
    block_on(&chan_accept, INF64);
  }
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_connect, fd, a, l));
  errno = ECONNREFUSED; return -1;
}
static ssize_t pipe_read(pipebuf *p, void *buf, size_t n, u64 timeout, int peek, int inject) {
  u64 dl = timeout ? vnow() + timeout : INF64;
  for (;;) {
    if (p->rst) return -ECONNRESET;
    if (p->pos < p->len) {
      size_t k = p->len - p->pos; if (k > n) k = n;
      if (inject && k > 1) { i64 f = fault(F_NET_SHORT_RECV, 1000); if (f) { size_t q = 1 + (size_t)((double)(k - 1) * (double)(f - 1) / 1000.0); k = q < k ? q : k - 1; } }
      memcpy(buf, p->b + p->pos, k); if (!peek) p->pos += k;
      return (ssize_t)k;
    }
    if (p->eof) return 0;
    if (inject && fault(F_EINTR, 1)) return -EINTR;
    if (block_on(p, dl)) return -EAGAIN;
  }
}
ssize_t net_recv(int fd, void *buf, size_t n, int flags) {
  vconn *c = &conns[vfds[fd].conn];
  if (vfds[fd].kind != 3) { errno = ENOTCONN; return -1; }
  astep();
  ssize_t r = pipe_read(&c->c2s, buf, n, c->rcvto, flags & MSG_PEEK, 1);
  hmix(0x6200 + vfds[fd].conn, (u64)r);
  return reterr(r);
}
ssize_t net_send(int fd, const void *buf, size_t n, int flags) {
  (void)flags;
  vconn *c = &conns[vfds[fd].conn];
  if (vfds[fd].kind != 3) { errno = ENOTCONN; return -1; }
  astep();
  if (c->c2s.rst || c->s2c.rst) { errno = EPIPE; return -1; }
  if (fault(F_EINTR, 1)) { errno = EINTR; return -1; }
  if (n > 1) { i64 f = fault(F_NET_SHORT_SEND, 1000); if (f) { size_t q = 1 + (size_t)((double)(n - 1) * (double)(f - 1) / 1000.0); n = q < n ? q : n - 1; } }
  pb_put(&c->s2c, buf, n);
  wake_chan(&c->s2c, MAXT);
  hmix(0x6300 + vfds[fd].conn, (u64)n);
  astep();
  return (ssize_t)n;
}
ssize_t recv(int fd, void *buf, size_t n, int flags) { if (is_vsock(fd)) return net_recv(fd, buf, n, flags); return reterr(RAW(SYS_recvfrom, fd, buf, n, flags, 0, 0)); }
ssize_t send(int fd, const void *buf, size_t n, int flags) { if (is_vsock(fd)) return net_send(fd, buf, n, flags); return reterr(RAW(SYS_sendto, fd, buf, n, flags, 0, 0)); }
ssize_t recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *restrict a, socklen_t *restrict l) { if (is_vsock(fd)) return net_recv(fd, buf, n, flags); return reterr(RAW(SYS_recvfrom, fd, buf, n, flags, a, l)); }
static int open_refs(int conn) { int k = 0; for (int i = 0; i < MAXFD; i++) if (fdflag[i] == 2 && vfds[i].kind == 3 && vfds[i].conn == conn) k++; return k; }
static void srv_close_conn(int c) {
  conns[c].srv_open = 0; conns[c].s2c.eof = 1; wake_chan(&conns[c].s2c, MAXT); hmix(0x6400, c);
}
int shutdown(int fd, int how) {
  if (!is_vsock(fd)) return (int)reterr(RAW(SYS_shutdown, fd, how));
  if (vfds[fd].kind == 3) {
    vconn *c = &conns[vfds[fd].conn];
    if (how != SHUT_RD) { c->s2c.eof = 1; wake_chan(&c->s2c, MAXT); }
    if (how != SHUT_WR) { c->c2s.eof = 1; wake_chan(&c->c2s, MAXT); }
  }
  return 0;
}
int close(int fd) {
  if (fd >= 0 && fd < MAXFD && insim()) {
    if (fdflag[fd] == 2) {
      int k = vfds[fd].kind, c = vfds[fd].conn;
      fdflag[fd] = 0; vfds[fd].kind = 0;
      if (k == 3 && open_refs(c) == 0) srv_close_conn(c);
    } else fdflag[fd] = 0;
  }
  return (int)reterr(RAW(SYS_close, fd));
}
static int fcntl_common(int fd, int cmd, long arg) {
  if (is_vsock(fd)) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return newfd(vfds[fd].kind, vfds[fd].conn);
    if (cmd == F_GETFL) return O_RDWR;
    return 0;
  }
  long r = RAW(SYS_fcntl, fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fdflag[r] = fdflag[fd];
  return (int)reterr(r);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_common(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_common(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap); if (is_vsock(fd)) return 0; return (int)reterr(RAW(SYS_ioctl, fd, req, a)); }

// ------------------------------------------------------------------ scripted clients
typedef struct { char *script; int id; } client;
static client clients[64];
static int nclients, clients_left;

static void histlog(int id, const char *ev, long req, const u8 *d, size_t n) {
  // <event number> <client> <event> <request> <virtual ns> <hex payload>
  if (sh->loglen + 2 * n + 256 >= VSIM_LOGCAP) return;
  int k = sprintf(sh->log + sh->loglen, "%lu %d %s %ld %lu ", (unsigned long)++event_ctr, id, ev, req, (unsigned long)vnow());
  sh->loglen += (u64)k;
  static const char hx[] = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { sh->log[sh->loglen++] = hx[d[i] >> 4]; sh->log[sh->loglen++] = hx[d[i] & 15]; }
  sh->log[sh->loglen++] = '\n'; sh->log[sh->loglen] = 0;
  hmix(0x7000 + (u64)id, event_ctr);
}
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// length of the complete HTTP response at the start of b, or 0 when incomplete
static size_t http_len(const u8 *b, size_t n) {
  size_t h = 0;
  for (size_t i = 0; i + 3 < n; i++) if (!memcmp(b + i, "\r\n\r\n", 4)) { h = i + 4; break; }
  if (!h) return 0;
  long cl = -1; int chunked = 0;
  for (size_t i = 0; i < h; i++) {
    if ((i == 0 || b[i - 1] == '\n')) {
      if (!strncasecmp((const char *)b + i, "content-length:", 15)) cl = atol((const char *)b + i + 15);
      if (!strncasecmp((const char *)b + i, "transfer-encoding: chunked", 26)) chunked = 1;
    }
  }
  if (chunked) {
    size_t p = h;
    for (;;) {
      size_t e = p;
      while (e + 1 < n && !(b[e] == '\r' && b[e + 1] == '\n')) e++;
      if (e + 1 >= n) return 0;
      size_t sz = strtoul((const char *)b + p, 0, 16);
      if (e + 2 + sz + 2 > n) return 0;
      p = e + 2 + sz + 2;
      if (sz == 0) return p;
    }
  }
  if (cl < 0) cl = 0;
  return h + (size_t)cl <= n ? h + (size_t)cl : 0;
}
static void *client_main(void *arg) {
  client *me = arg;
  int conn = -1;
  char *p = me->script;
  while (*p) {
    char *e = strchr(p, '\n');
    if (e) *e = 0;
    long a = 0;
    astep();
    if (!strncmp(p, "sleep ", 6)) sim_sleep(strtoull(p + 6, 0, 10));
    else if (!strncmp(p, "conn", 4)) {
      while (!listening) block_on(&chan_listen, INF64);
      conn = -1;
      for (int i = 0; i < MAXC; i++) if (!conns[i].used) { conn = i; break; }
      if (conn < 0) finish(ST_STEPCAP, "harness: out of connections");
      conns[conn].used = 1; conns[conn].srv_open = 1;
      backlog[nbacklog++] = conn;
      wake_chan(&chan_accept, 1);
    } else if (!strncmp(p, "inv ", 4)) { a = atol(p + 4); histlog(me->id, "INV", a, 0, 0); }
    else if (!strncmp(p, "send ", 5)) {
      if (conn >= 0) {
        char *h = p + 5; size_t n = strlen(h) / 2;
        u8 *d = malloc(n + 1);
        for (size_t i = 0; i < n; i++) d[i] = (u8)(hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]));
        pb_put(&conns[conn].c2s, d, n);
        free(d);
        wake_chan(&conns[conn].c2s, MAXT);
      }
    } else if (!strncmp(p, "resp ", 5)) { // resp <req> <timeout ns>
      char *q; a = strtol(p + 5, &q, 10);
      u64 dl = vnow() + strtoull(q, 0, 10);
      for (;;) {
        pipebuf *s = &conns[conn].s2c;
        size_t avail = s->len - s->pos, L = http_len(s->b + s->pos, avail);
        if (L) { histlog(me->id, "RET", a, s->b + s->pos, L); s->pos += L; break; }
        if (s->rst || s->eof) { histlog(me->id, "EOF", a, s->b + s->pos, avail); s->pos = s->len; break; }
        if (vnow() >= dl) { histlog(me->id, "TIMEOUT", a, 0, 0); break; }
        block_on(s, dl);
      }
    } else if (!strncmp(p, "close", 5)) { if (conn >= 0) { conns[conn].c2s.eof = 1; wake_chan(&conns[conn].c2s, MAXT); conn = -1; } }
    else if (!strncmp(p, "rst", 3)) { if (conn >= 0) { conns[conn].c2s.rst = 1; conns[conn].s2c.rst = 1; wake_chan(&conns[conn].c2s, MAXT); wake_chan(&conns[conn].s2c, MAXT); conn = -1; } }
    else if (!strncmp(p, "mark ", 5)) histlog(me->id, p + 5, 0, 0, 0);
    else if (!strncmp(p, "freeze ", 7)) freeze(strtoull(p + 7, 0, 10));
    else if (!strncmp(p, "barrier", 7)) { // wait until this is the only client left
      while (clients_left > 1) sim_sleep(1000000);
    }
    if (!e) break;
    p = e + 1;
  }
  if (--clients_left == 0) finish(ST_DONE_CLIENTS, 0);
  return 0;
}
static void net_start_clients(void) {
  sh->script[sh->scriptlen] = 0;
  char *p = sh->script;
  // sections separated by lines "client"
  while ((p = strstr(p, "client\n"))) {
    p += 7;
    char *e = strstr(p, "client\n");
    size_t n = e ? (size_t)(e - p) : strlen(p);
    char *s = malloc(n + 1); memcpy(s, p, n); s[n] = 0;
    clients[nclients].script = s; clients[nclients].id = nclients; nclients++;
  }
  clients_left = nclients;
  creating_clients = 1;
  for (int i = 0; i < nclients; i++) { pthread_t t; pthread_create(&t, 0, client_main, &clients[i]); }
  creating_clients = 0;
}

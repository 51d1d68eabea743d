// File I/O seam: real files below io_prefix, with injected short transfers, EINTR, EIO, ENOSPC, open errors and crashes.
#define MAXFD 65536
static u8 fdflag[MAXFD]; // 1 = tracked file below io_prefix, 2 = virtual socket
static u64 mut_ops;
// soft crash: the operations of the crashed "process" no longer reach the disk until vsim_restart()
static int crash_soft, dead;
void vsim_crash_soft(int on) { crash_soft = on; }
void vsim_restart(void) { dead = 0; enospc_sticky = 0; if (sh) sh->crash_at_write = 0; }
u64 vsim_mut_ops(void) { return mut_ops; }
int vsim_dead(void) { return dead; }
#define CRASH() do { if (crash_soft) { dead = 1; errno = EIO; return -1; } finish(ST_CRASHED, 0); } while (0)
#define DEAD() do { if (dead) { errno = EIO; return -1; } } while (0)

static int tracked_path(const char *p) {
  __asm__("" : "+r"(p)); // the prototypes promise a non-null path, but std probes statx with a null one
  return insim() && sh->io_prefix[0] && p && strncmp(p, sh->io_prefix, strlen(sh->io_prefix)) == 0;
}
static int tracked(int fd) { return insim() && fd >= 0 && fd < MAXFD && fdflag[fd] == 1; }
// returns 1 when the process has to die inside this mutating operation
static int crash_now(void) {
  mut_ops++;
  if (sh->crash_at_write && mut_ops == sh->crash_at_write) { sh->fault_hit[F_CRASH]++; return 1; }
  return 0;
}
static int open_common(const char *path, int flags, int mode) {
  int tr = tracked_path(path);
  if (tr) {
    step1();
    DEAD();
    i64 f = fault(F_OPEN_ERR, 3);
    if (f) { errno = f == 1 ? EMFILE : f == 2 ? EIO : EACCES; return -1; }
    if ((flags & (O_CREAT | O_TRUNC)) && crash_now()) CRASH();
    if ((flags & O_CREAT) && (enospc_sticky)) { errno = ENOSPC; return -1; }
  }
  long r = RAW(SYS_openat, AT_FDCWD, path, flags, mode);
  if (r >= 0 && r < MAXFD) {
    struct stat st;
    fdflag[r] = 0;
    if (tr && RAW(SYS_fstat, r, &st) == 0 && S_ISREG(st.st_mode)) fdflag[r] = 1;
    if (tr) hmix(0x5000, (u64)flags);
  }
  return (int)reterr(r);
}
int open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open_common(path, flags, m); }
int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open_common(path, flags | O_LARGEFILE, m); }

static ssize_t file_read_fault(size_t *n) { // returns <0 errno, 0 go on, 1 eof
  step1();
  if (dead) return -EIO;
  if (fault(F_EINTR, 1)) return -EINTR;
  if (fault(F_READ_EIO, 1)) return -EIO;
  if (*n > 0 && fault(F_READ_EOF, 1)) return 1;
  if (*n > 1) { i64 f = fault(F_SHORT_READ, 1000); if (f) { size_t k = 1 + (size_t)((double)(*n - 1) * (double)(f - 1) / 1000.0); *n = k < *n ? k : *n - 1; } }
  return 0;
}
static ssize_t file_write_fault(size_t *n) {
  step1();
  if (enospc_sticky) return -ENOSPC;
  if (fault(F_EINTR, 1)) return -EINTR;
  if (fault(F_WRITE_EIO, 1)) return -EIO;
  if (fault(F_WRITE_ENOSPC, 1)) { enospc_sticky = 1; return -ENOSPC; }
  if (*n > 1) { i64 f = fault(F_SHORT_WRITE, 1000); if (f) { size_t k = 1 + (size_t)((double)(*n - 1) * (double)(f - 1) / 1000.0); *n = k < *n ? k : *n - 1; } }
  return 0;
}
ssize_t net_recv(int fd, void *buf, size_t n, int flags);
ssize_t net_send(int fd, const void *buf, size_t n, int flags);
static int is_vsock(int fd) { return insim() && fd >= 0 && fd < MAXFD && fdflag[fd] == 2; }

ssize_t read(int fd, void *buf, size_t n) {
  if (is_vsock(fd)) return net_recv(fd, buf, n, 0);
  if (tracked(fd)) {
    ssize_t e = file_read_fault(&n);
    if (e < 0) return reterr(e);
    if (e == 1) return 0;
    long r = RAW(SYS_read, fd, buf, n);
    hmix(0x5100, (u64)r);
    return reterr(r);
  }
  return reterr(RAW(SYS_read, fd, buf, n));
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  if (tracked(fd)) {
    ssize_t e = file_read_fault(&n);
    if (e < 0) return reterr(e);
    if (e == 1) return 0;
  }
  return reterr(RAW(SYS_pread64, fd, buf, n, off));
}
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (is_vsock(fd)) { for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return net_recv(fd, iov[i].iov_base, iov[i].iov_len, 0); return 0; }
  if (tracked(fd)) { for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len); return 0; }
  return reterr(RAW(SYS_readv, fd, iov, cnt));
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (is_vsock(fd)) return net_send(fd, buf, n, 0);
  if (tracked(fd)) {
    DEAD();
    if (crash_now()) { size_t k = n ? (size_t)(xnext(rs2) % (n + 1)) : 0; if (k) RAW(SYS_write, fd, buf, k); CRASH(); }
    ssize_t e = file_write_fault(&n);
    if (e < 0) return reterr(e);
    long r = RAW(SYS_write, fd, buf, n);
    hmix(0x5200, (u64)r);
    return reterr(r);
  }
  return reterr(RAW(SYS_write, fd, buf, n));
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  if (tracked(fd)) {
    DEAD();
    if (crash_now()) CRASH();
    ssize_t e = file_write_fault(&n);
    if (e < 0) return reterr(e);
  }
  return reterr(RAW(SYS_pwrite64, fd, buf, n, off));
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (is_vsock(fd)) {
    // concatenate: a socket writes a prefix of the whole vector
    size_t tot = 0; for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
    char *tmp = malloc(tot + 1); size_t o = 0;
    for (int i = 0; i < cnt; i++) { memcpy(tmp + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = net_send(fd, tmp, tot, 0);
    int e = errno; free(tmp); errno = e;
    return r;
  }
  if (tracked(fd)) { for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len); return 0; }
  return reterr(RAW(SYS_writev, fd, iov, cnt));
}
int fsync(int fd) { if (tracked(fd)) { step1(); DEAD(); if (fault(F_SYNC_ERR, 1)) { errno = EIO; return -1; } } return (int)reterr(RAW(SYS_fsync, fd)); }
int fdatasync(int fd) { if (tracked(fd)) { step1(); DEAD(); if (fault(F_SYNC_ERR, 1)) { errno = EIO; return -1; } } return (int)reterr(RAW(SYS_fdatasync, fd)); }
int mkdir(const char *path, mode_t mode) {
  if (tracked_path(path)) {
    step1();
    DEAD();
    if (crash_now()) CRASH();
    i64 f = fault(F_MKDIR_ERR, 2);
    if (f || enospc_sticky) { errno = f == 1 ? EIO : ENOSPC; return -1; }
  }
  return (int)reterr(RAW(SYS_mkdir, path, mode));
}
int rename(const char *a, const char *b) {
  if (tracked_path(a) || tracked_path(b)) {
    step1();
    DEAD();
    if (crash_now()) CRASH();
    if (fault(F_WRITE_EIO, 1)) { errno = EIO; return -1; }
  }
  return (int)reterr(RAW(SYS_rename, a, b));
}
// std copies files with copy_file_range/sendfile/splice when it can: report them as unsupported so that copies go through read/write
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (tracked(a) || tracked(b)) { errno = ENOSYS; return -1; }
  return reterr(RAW(SYS_copy_file_range, a, ao, b, bo, n, f));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (tracked(o) || tracked(i) || is_vsock(o)) { errno = ENOSYS; return -1; }
  return reterr(RAW(SYS_sendfile, o, i, off, n));
}
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (tracked(a) || tracked(b) || is_vsock(a) || is_vsock(b)) { errno = EINVAL; return -1; }
  return reterr(RAW(SYS_splice, a, ao, b, bo, n, f));
}
int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
  if (tracked_path(path)) { step1(); DEAD(); if (fault(F_STAT_ERR, 1)) { errno = EIO; return -1; } }
  return (int)reterr(RAW(SYS_statx, dirfd, path, flags, mask, buf));
}

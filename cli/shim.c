/* Preloaded into the real binary: every write to standard output, entropy read, terminal query and
 * allocation goes through a plan in shared memory. Off unless ALGEO_SHIM_FD names that memory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { PLAN = 256, CAP = 20000 };
struct shared {
  uint64_t n, entropy, fail_from, fail_count, stderr_errno, tty;
  uint64_t kind[PLAN], arg[PLAN];
  /* counted here */
  uint64_t writes, shorts, eintrs, errors, zeros, allocs_failed, entropy_reads, stderr_errors, capped, allocs;
};
static struct shared *S;
static dev_t out_dev, err_dev;
static ino_t out_ino, err_ino;
static int out_ok, err_ok;
static uint64_t rng;

__attribute__((constructor)) static void start(void) {
  const char *e = getenv("ALGEO_SHIM_FD");
  if (!e) return;
  int fd = atoi(e);
  void *p = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) _exit(98);
  close(fd);
  unsetenv("ALGEO_SHIM_FD");
  unsetenv("LD_PRELOAD");
  struct stat st;
  if (!fstat(1, &st)) out_dev = st.st_dev, out_ino = st.st_ino, out_ok = 1;
  if (!fstat(2, &st)) err_dev = st.st_dev, err_ino = st.st_ino, err_ok = 1;
  struct rlimit r = {20, 20};
  setrlimit(RLIMIT_CPU, &r);
  struct rlimit z = {0, 0};
  setrlimit(RLIMIT_CORE, &z);
  alarm(60);
  S = p;
  rng = S->entropy;
}
static int is(int fd, int ok, dev_t d, ino_t i) {
  struct stat st;
  return ok && !fstat(fd, &st) && st.st_dev == d && st.st_ino == i;
}
static ssize_t real_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
/* Returns 1 and the outcome in *r if the call is decided, else the byte limit in *n. */
static int decide(int fd, size_t *n, ssize_t *r) {
  if (!S) return 0;
  if (is(fd, out_ok, out_dev, out_ino)) {
    uint64_t i = S->writes++;
    if (i >= CAP) { S->capped = 1; _exit(97); }
    uint64_t k = 0, a = 0;
    if (i < S->n) k = S->kind[i], a = S->arg[i];
    else if (S->n && S->kind[S->n - 1] == 4) k = 4, a = S->arg[S->n - 1];
    switch (k) {
    case 1: if (a < *n) { *n = a ? a : 1; S->shorts++; } return 0;
    case 2: S->eintrs++; errno = EINTR; *r = -1; return 1;
    case 3: case 4: S->errors++; errno = (int)a; *r = -1; return 1;
    case 5: if (*n) { S->zeros++; *r = 0; return 1; } return 0;
    default: return 0;
    }
  }
  if (S->stderr_errno && is(fd, err_ok, err_dev, err_ino)) {
    S->stderr_errors++; errno = (int)S->stderr_errno; *r = -1; return 1;
  }
  return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t r;
  if (decide(fd, &n, &r)) return r;
  return real_write(fd, b, n);
}
ssize_t __write(int fd, const void *b, size_t n) { return write(fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  ssize_t r;
  if (decide(fd, &n, &r)) return r;
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  size_t n = 0, left;
  ssize_t r, done = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  left = n;
  if (decide(fd, &left, &r)) return r;
  if (left == n) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c && left; i++) {
    size_t k = v[i].iov_len < left ? v[i].iov_len : left;
    if (!k) continue;
    r = real_write(fd, v[i].iov_base, k);
    if (r < 0) return done ? done : r;
    done += r, left -= r;
    if ((size_t)r < k) break;
  }
  return done;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!S) return syscall(SYS_getrandom, b, n, f);
  S->entropy_reads++;
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    p[i] = (unsigned char)(z >> 31);
  }
  return n;
}
int isatty(int fd) {
  if (S && S->tty && is(fd, out_ok, out_dev, out_ino)) return 1;
  errno = ENOTTY;
  return 0;
}
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t), *__libc_memalign(size_t, size_t);
static int starve(void) {
  if (!S) return 0;
  uint64_t i = S->allocs++;
  if (!S->fail_count || i < S->fail_from || i - S->fail_from >= S->fail_count) return 0;
  S->allocs_failed++;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return starve() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return starve() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return starve() ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  if (starve()) return ENOMEM;
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}

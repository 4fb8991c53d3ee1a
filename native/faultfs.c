// Preloaded into nvc: counts the calls that change files under FAULT_DIR and ends the process,
// or makes the call fail, at the one with the number FAULT_AT.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static const char *dir, *mode, *logf_;
static long at = -1, n;
static __thread int busy;

__attribute__((constructor)) static void init(void)
{
   dir = getenv("FAULT_DIR"); mode = getenv("FAULT_MODE"); logf_ = getenv("FAULT_LOG");
   const char *a = getenv("FAULT_AT");
   at = a ? atol(a) : -1;
   // children (linkers and the like) are not interrupted
   unsetenv("LD_PRELOAD");
}

static int under(const char *p)
{
   if (dir == NULL || p == NULL) return 0;
   char b[PATH_MAX * 2];
   if (p[0] != '/') {
      char c[PATH_MAX];
      if (getcwd(c, sizeof c) == NULL) return 0;
      snprintf(b, sizeof b, "%s/%s", c, p);
      p = b;
   }
   return strncmp(p, dir, strlen(dir)) == 0;
}

static int under_fd(int fd)
{
   char l[64], b[PATH_MAX];
   if (dir == NULL) return 0;
   snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
   ssize_t k = readlink(l, b, sizeof b - 1);
   if (k < 0) return 0;
   b[k] = 0;
   return strncmp(b, dir, strlen(dir)) == 0;
}

static void note(const char *what, const char *arg)
{
   if (logf_ == NULL) return;
   int fd = ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(logf_, O_WRONLY | O_CREAT | O_APPEND, 0666);
   char b[512];
   int k = snprintf(b, sizeof b, "%ld %s %s\n", n, what, arg ? strrchr(arg, '/') ? strrchr(arg, '/') + 1 : arg : "");
   ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, k);
   close(fd);
}

// 0: go on; 1: fail; 2: end after the call
static int point(const char *what, const char *arg)
{
   int e = errno;
   n++;
   note(what, arg);
   errno = e;
   if (n != at) return 0;
   if (!strcmp(mode, "before")) { kill(getpid(), SIGKILL); pause(); }
   if (!strcmp(mode, "fail")) return 1;
   if (!strcmp(mode, "after")) return 2;
   if (!strcmp(mode, "flush")) { fflush(NULL); kill(getpid(), SIGKILL); pause(); }
   return 0;
}

static void done(int k) { if (k == 2) { kill(getpid(), SIGKILL); pause(); } }
#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

FILE *fopen(const char *p, const char *m)
{
   REAL(fopen);
   if (m[0] == 'r' || !under(p)) return real(p, m);
   int k = point("fopen", p);
   if (k == 1) { errno = ENOSPC; return NULL; }
   FILE *f = real(p, m); done(k); return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

size_t fwrite(const void *b, size_t s, size_t c, FILE *f)
{
   REAL(fwrite);
   if (dir == NULL || f == stdout || f == stderr || !under_fd(fileno(f))) return real(b, s, c, f);
   int k = point("fwrite", NULL);
   if (k == 1) { errno = ENOSPC; return 0; }
   if (k == 2) { real(b, 1, s * c / 2, f); fflush(f); done(k); }
   return real(b, s, c, f);
}

int fclose(FILE *f)
{
   REAL(fclose);
   if (dir == NULL || f == stdout || f == stderr || !__fwritable(f) || !under_fd(fileno(f))) return real(f);
   int k = point("fclose", NULL);
   if (k == 1) {
      int lost = __fpending(f) > 0;
      __fpurge(f);
      int r = real(f);
      if (!lost) return r;
      errno = ENOSPC; return EOF;
   }
   int r = real(f); done(k); return r;
}

int rename(const char *a, const char *b)
{
   REAL(rename);
   if (!under(b)) return real(a, b);
   int k = point("rename", b);
   if (k == 1) { errno = EIO; return -1; }
   int r = real(a, b); done(k); return r;
}

int remove(const char *a)
{
   REAL(remove);
   if (!under(a)) return real(a);
   int k = point("remove", a);
   if (k == 1) { errno = EIO; return -1; }
   int r = real(a); done(k); return r;
}

int unlink(const char *a)
{
   REAL(unlink);
   if (!under(a)) return real(a);
   int k = point("unlink", a);
   if (k == 1) { errno = EIO; return -1; }
   int r = real(a); done(k); return r;
}

int mkdir(const char *a, mode_t m)
{
   REAL(mkdir);
   if (!under(a)) return real(a, m);
   int k = point("mkdir", a);
   if (k == 1) { errno = ENOSPC; return -1; }
   int r = real(a, m); done(k); return r;
}

int open(const char *p, int fl, ...)
{
   REAL(open);
   va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
   if (!(fl & O_CREAT) || !under(p)) return real(p, fl, m);
   int k = point("open", p);
   if (k == 1) { errno = ENOSPC; return -1; }
   int r = real(p, fl, m); done(k); return r;
}
int open64(const char *p, int fl, ...)
{
   va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
   return open(p, fl, m);
}

ssize_t write(int fd, const void *b, size_t s)
{
   REAL(write);
   if (dir == NULL || fd < 3 || !under_fd(fd)) return real(fd, b, s);
   int k = point("write", NULL);
   if (k == 1) { errno = ENOSPC; return -1; }
   if (k == 2) { real(fd, b, s / 2); done(k); }
   return real(fd, b, s);
}

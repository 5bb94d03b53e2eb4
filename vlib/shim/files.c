/* Reports what is done to the files of one directory ($SHIM_DIR) in a log
   ($SHIM_LOG), and makes the k-th of these operations fail or kills the process
   there ($SHIM_FAULT is "k kind").  Kinds: kill before the operation; part, after
   half of a write; enospc, eio: the operation fails; short: half is written.  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int logfd = -1, count, at = -1;
static char kind[16], dir[512];
static unsigned long ino[4096];

__attribute__ ((constructor)) static void
init (void)
{
  const char *d = getenv ("SHIM_DIR"), *l = getenv ("SHIM_LOG"), *f = getenv ("SHIM_FAULT");
  if (!d || !l)
    return;
  snprintf (dir, sizeof dir, "%s", d);
  logfd = syscall (SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
  if (f)
    sscanf (f, "%d %15s", &at, kind);
}

static void
say (const char *fmt, ...)
{
  char b[1500];
  va_list ap;
  int n, e = errno;
  va_start (ap, fmt);
  n = vsnprintf (b, sizeof b, fmt, ap);
  va_end (ap);
  if (logfd >= 0)
    syscall (SYS_write, logfd, b, n);
  errno = e;
}

/* 0 go on, 1 fail, 2 half.  */
static int
fault (void)
{
  if (++count != at)
    return 0;
  if (!strcmp (kind, "kill"))
    {
      say ("S kill\n");
      kill (getpid (), SIGKILL);
    }
  if (!strcmp (kind, "part") || !strcmp (kind, "short"))
    return 2;
  errno = !strcmp (kind, "eio") ? EIO : ENOSPC;
  return 1;
}

static const char *
watched (const char *p)
{
  size_t n = strlen (dir);
  if (!n || !p)
    return NULL;
  if (!strncmp (p, dir, n) && p[n] == '/')
    return p + n + 1;
  if (p[0] != '/')
    {
      char cwd[512];
      if (getcwd (cwd, sizeof cwd) && !strcmp (cwd, dir))
        return p[0] == '.' && p[1] == '/' ? p + 2 : p;
    }
  return NULL;
}

static int
do_open (int dfd, const char *p, int flags, int mode)
{
  const char *w = dfd == AT_FDCWD || (p && p[0] == '/') ? watched (p) : NULL;
  struct stat st;
  int fd, there;
  if (!w || (flags & O_ACCMODE) == O_RDONLY)
    return syscall (SYS_openat, dfd, p, flags, mode);
  there = stat (p, &st) == 0;
  if (fault () == 1)
    {
      say ("S open %s %d %d -1\n", w, !!(flags & O_TRUNC), !there);
      return -1;
    }
  fd = syscall (SYS_openat, dfd, p, flags, mode);
  if (fd >= 0 && fd < 4096 && fstat (fd, &st) == 0)
    ino[fd] = st.st_ino;
  say ("S open %s %d %d %ld\n", w, !!(flags & O_TRUNC), !there, fd >= 0 ? (long) st.st_ino : -1L);
  return fd;
}

#define MODE mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start (ap, flags); mode = va_arg (ap, int); va_end (ap); }
int open (const char *p, int flags, ...) { MODE return do_open (AT_FDCWD, p, flags, mode); }
int open64 (const char *p, int flags, ...) { MODE return do_open (AT_FDCWD, p, flags, mode); }
int openat (int d, const char *p, int flags, ...) { MODE return do_open (d, p, flags, mode); }
int openat64 (int d, const char *p, int flags, ...) { MODE return do_open (d, p, flags, mode); }
int creat (const char *p, mode_t mode) { return do_open (AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int mkstemp (char *t)
{
  int (*real) (char *) = dlsym (RTLD_NEXT, "mkstemp");
  struct stat st;
  int fd = real (t);
  const char *w = watched (t);
  if (fd >= 0 && w && fstat (fd, &st) == 0)
    {
      if (fd < 4096)
        ino[fd] = st.st_ino;
      say ("S open %s 0 1 %ld\n", w, (long) st.st_ino);
    }
  return fd;
}

static ssize_t
do_write (int fd, const void *b, size_t n, int nr, off_t off)
{
  ssize_t r;
  int f;
#define REAL(n) (nr == SYS_write ? syscall (nr, fd, b, n) : syscall (nr, fd, b, n, off))
  if (fd < 0 || fd >= 4096 || !ino[fd])
    return REAL (n);
  f = fault ();
  r = f == 1 ? -1 : f == 2 && n > 1 ? REAL (n / 2) : REAL (n);
  say ("S write %lu %lu %ld\n", ino[fd], (unsigned long) n, (long) r);
  if (f == 2 && !strcmp (kind, "part"))
    {
      say ("S kill\n");
      kill (getpid (), SIGKILL);
    }
  return r;
}
ssize_t write (int fd, const void *b, size_t n) { return do_write (fd, b, n, SYS_write, 0); }
ssize_t pwrite (int fd, const void *b, size_t n, off_t o) { return do_write (fd, b, n, SYS_pwrite64, o); }
ssize_t pwrite64 (int fd, const void *b, size_t n, off64_t o) { return do_write (fd, b, n, SYS_pwrite64, o); }
ssize_t writev (int fd, const struct iovec *v, int n)
{
  ssize_t t = 0, r;
  int i;
  if (fd < 0 || fd >= 4096 || !ino[fd])
    return syscall (SYS_writev, fd, v, n);
  for (i = 0; i < n; i++)
    {
      r = write (fd, v[i].iov_base, v[i].iov_len);
      if (r < 0)
        return t ? t : r;
      t += r;
      if ((size_t) r < v[i].iov_len)
        break;
    }
  return t;
}
static int
do_trunc (int fd, off_t n)
{
  int r;
  if (fd < 0 || fd >= 4096 || !ino[fd])
    return syscall (SYS_ftruncate, fd, n);
  r = fault () == 1 ? -1 : syscall (SYS_ftruncate, fd, n);
  say ("S trunc %lu %ld %d\n", ino[fd], (long) n, r);
  return r;
}
int ftruncate (int fd, off_t n) { return do_trunc (fd, n); }
int ftruncate64 (int fd, off64_t n) { return do_trunc (fd, n); }

int
close (int fd)
{
  int f, r;
  if (fd < 0 || fd >= 4096 || !ino[fd])
    return syscall (SYS_close, fd);
  f = fault ();
  r = syscall (SYS_close, fd);
  if (f == 1)
    r = -1, errno = strcmp (kind, "eio") ? ENOSPC : EIO;
  say ("S close %lu %d\n", ino[fd], r);
  ino[fd] = 0;
  return r;
}

int
unlink (const char *p)
{
  const char *w = watched (p);
  int r;
  if (!w)
    return syscall (SYS_unlink, p);
  r = fault () == 1 ? -1 : syscall (SYS_unlink, p);
  say ("S unlink %s %d\n", w, r);
  return r;
}
int remove (const char *p) { return unlink (p); }

static int
do_rename (const char *p, const char *q, int link)
{
  const char *w = watched (p), *x = watched (q);
  int r;
  if (!w && !x)
    return syscall (link ? SYS_link : SYS_rename, p, q);
  r = fault () == 1 ? -1 : syscall (link ? SYS_link : SYS_rename, p, q);
  say ("S %s %s %s %d\n", link ? "link" : "rename", w ? w : "-", x ? x : "-", r);
  return r;
}
int rename (const char *p, const char *q) { return do_rename (p, q, 0); }
int link (const char *p, const char *q) { return do_rename (p, q, 1); }

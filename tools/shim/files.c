/* Records, in the file named by MVFILES, what a program does to files by name:
   "w <path>" for opening for writing, "x <path>" for removing or renaming.
   The calls go through unchanged: the programs run in a scratch directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void note(const char *op, const char *path) {
  const char *log = getenv("MVFILES");
  if (!log) return;
  int (*ropen)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  int fd = ropen(log, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) return;
  char buf[5000];
  int n = snprintf(buf, sizeof buf, "%s %s\n", op, path ? path : "");
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (write(fd, buf, n) < 0) {}
  close(fd);
}

#define WRITING(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))

#define OPEN(name)                                                        \
  int name(const char *path, int flags, ...) {                            \
    va_list ap; va_start(ap, flags);                                      \
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;     \
    va_end(ap);                                                           \
    if (WRITING(flags)) note("w", path);                                  \
    int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, #name);        \
    return real(path, flags, mode);                                       \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                      \
  int name(int dir, const char *path, int flags, ...) {                   \
    va_list ap; va_start(ap, flags);                                      \
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;     \
    va_end(ap);                                                           \
    if (WRITING(flags)) note("w", path);                                  \
    int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #name);   \
    return real(dir, path, flags, mode);                                  \
  }
OPENAT(openat)
OPENAT(openat64)

#define FOPEN(name)                                                       \
  FILE *name(const char *path, const char *mode) {                        \
    if (strpbrk(mode, "wa+")) note("w", path);                            \
    FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, #name);  \
    return real(path, mode);                                              \
  }
FOPEN(fopen)
FOPEN(fopen64)

int creat(const char *path, mode_t m) {
  note("w", path);
  int (*real)(const char *, mode_t) = dlsym(RTLD_NEXT, "creat");
  return real(path, m);
}
int truncate(const char *path, off_t n) {
  note("w", path);
  int (*real)(const char *, off_t) = dlsym(RTLD_NEXT, "truncate");
  return real(path, n);
}
int unlink(const char *path) {
  note("x", path);
  int (*real)(const char *) = dlsym(RTLD_NEXT, "unlink");
  return real(path);
}
int remove(const char *path) {
  note("x", path);
  int (*real)(const char *) = dlsym(RTLD_NEXT, "remove");
  return real(path);
}
int rename(const char *a, const char *b) {
  note("x", a);
  note("w", b);
  int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
  return real(a, b);
}

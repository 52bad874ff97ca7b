/* Fake clock for the programs under test.
   Every reading of the time of day is announced on the program's standard
   output, in order with its log, as "@clock <n> <milliseconds>".
   MVCLOCK="n1:ms1,n2:ms2,...": the clock advances by ms_i just before reading
   n_i; otherwise it stands still.  MVTIME: the epoch second it starts at.
   MVCLOCK_QUIET: do not announce. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

static long now_ms = 0;
static int readings = 0;

static void reading(void) {
  readings++;
  const char *p = getenv("MVCLOCK");
  while (p && *p) {
    int n = 0;
    long d = 0;
    if (sscanf(p, "%d:%ld", &n, &d) == 2 && n == readings) now_ms += d;
    p = strchr(p, ',');
    if (p) p++;
  }
  if (!getenv("MVCLOCK_QUIET")) printf("\n@clock %d %ld\n", readings, now_ms);
}

static long base(void) {
  const char *p = getenv("MVTIME");
  return p ? atol(p) : 1000000000L;
}

int gettimeofday(struct timeval *tv, void *tz) {
  reading();
  tv->tv_sec = base() + now_ms / 1000;
  tv->tv_usec = (now_ms % 1000) * 1000;
  return 0;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  reading();
  ts->tv_sec = base() + now_ms / 1000;
  ts->tv_nsec = (now_ms % 1000) * 1000000;
  return 0;
}

time_t time(time_t *t) {
  reading();
  time_t r = base() + now_ms / 1000;
  if (t) *t = r;
  return r;
}

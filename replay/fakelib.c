/* A stand-in of the C interface: records what it is asked, calls back on demand. */
#include <stdlib.h>
#include <string.h>
#include "wtr/watcher-c.h"
#define N 16
static struct { void* h; wtr_watcher_callback cb; void* ctx; int open, closes; char path[9000]; } w[N];
static int unclean, n, fail_next, bad, in_open, in_close;
static struct wtr_watcher_event ev;
static char a[9000], b[9000];
int fk_count(void) { return n; }
int fk_bad(void) { return bad; }
int fk_open(int i) { return w[i].open; }
int fk_closes(int i) { return w[i].closes; }
char const* fk_path(int i) { return w[i].path; }
void fk_plan(int fail, int event_in_open, int event_in_close) { unclean = fail == 2; fail_next = fail; in_open = event_in_open; in_close = event_in_close; }
void fk_event(long long t, char const* name, char const* assoc, int et, int pt)
{
  strcpy(a, name); if (assoc) strcpy(b, assoc);
  ev.effect_time = t; ev.path_name = a; ev.associated_path_name = assoc ? b : 0; ev.effect_type = (int8_t)et; ev.path_type = (int8_t)pt;
}
void fk_emit(int i)
{
  if (w[i].open) w[i].cb(ev, w[i].ctx);
}
void* wtr_watcher_open(char const* const path, wtr_watcher_callback callback, void* context)
{
  int i = n;
  if (fail_next == 1 || n == N) { fail_next = 0; return 0; }
  n++;
  strncpy(w[i].path, path ? path : "", sizeof w[i].path - 1);
  w[i].cb = callback; w[i].ctx = context; w[i].open = 1;
  w[i].h = (void*)((uintptr_t)malloc(16) | ((uintptr_t)0x40 << 40));
  if (in_open) fk_emit(i);
  return w[i].h;
}
bool wtr_watcher_close(void* watcher)
{
  int i;
  if (! watcher) return false;
  for (i = 0; i < n; i++)
    if (w[i].h == watcher && w[i].open) {
      if (in_close) fk_emit(i);
      w[i].open = 0; w[i].closes++;
      return ! unclean;
    }
  bad++;
  return false;
}

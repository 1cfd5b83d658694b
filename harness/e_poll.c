// the event loop against a model of the kernel: descriptors, one-shot events, a timer, an event counter and a clock
#include "util.h"
#include <errno.h>
#include <time.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <onion/poller.h>
#ifndef FDBASE
#define FDBASE 6
#endif
enum { EPFD = 3, EVFD = 4, TMFD = 5, U0 = FDBASE, NU = FDS, FDMAX = FDBASE + FDS + 2 };
#ifndef QUEUE
#define QUEUE 1
#endif
static onion_poller *p;
static uint64_t now = 100;
static int opened[FDMAX];                                     // descriptors made by the loop itself
static struct { int in, armed; unsigned ev; void *ptr; } ep[FDMAX];
static uint64_t evcount; static int timer_on; static uint64_t timer_at;
static struct { int reg, rel, adds, tmo, expired, running, type; uint64_t base; } u[NU];
static int failfd = -1, failadd;
static int mkfd(int fd) { if (failfd == fd) { errno = EMFILE; return -1; } CHECK(!opened[fd], "poller: descriptor made twice"); opened[fd] = 1; return fd; }
int vf_epoll_create1(int f) { return mkfd(EPFD); }
int vf_eventfd(unsigned i, int f) { return mkfd(EVFD); }
int vf_timerfd_create(int c, int f) { return mkfd(TMFD); }
int vf_close(int fd) { CHECK(fd >= 0 && fd < U0 && opened[fd], "poller: closes a descriptor it does not own, or twice"); opened[fd] = 0; ep[fd].in = 0; return 0; }
int vf_fcntl(int fd, int c, ...) { return 0; }
int vf_getrlimit(int r, struct rlimit *l) { l->rlim_cur = l->rlim_max = FDMAX; return 0; }
int vf_clock_gettime(int c, struct timespec *t) { t->tv_sec = now; t->tv_nsec = 999999; return 0; }
int vf_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o) { CHECK(fd == TMFD, "poller: timer set on another descriptor"); CHECK(f == 0, "model: relative timers only"); CHECK(n->it_value.tv_sec >= 0, "poller: timer set to a negative time"); timer_on = n->it_value.tv_sec | n->it_value.tv_nsec ? 1 : 0; timer_at = now + n->it_value.tv_sec + (n->it_value.tv_nsec ? 1 : 0); return 0; }
ssize_t vf_read(int fd, void *b, size_t n) { if (fd == EVFD) { if (!evcount) { errno = EAGAIN; return -1; } memcpy(b, &evcount, 8); evcount = 0; return 8; } errno = EBADF; return -1; }
ssize_t vf_write(int fd, const void *b, size_t n) { CHECK(fd == EVFD && n == 8, "poller: writes to an unknown descriptor"); uint64_t v; memcpy(&v, b, 8); if (v > ~0ULL - 1 - evcount) { errno = EAGAIN; return -1; } evcount += v; sym_wake(); return 8; }
int vf_shutdown(int fd, int how) { int i = fd - U0; CHECK(i >= 0 && i < NU && u[i].reg, "poller: a descriptor that is not registered is shut down"); CHECK(u[i].tmo >= 0, "poller: a descriptor without timeout is shut down"); CHECK(!u[i].running, "poller: timed out while its own callback runs"); CHECK(!u[i].expired, "poller: times out twice");
  CHECK(now * 1000 + 1000 > u[i].base * 1000 + u[i].tmo, "poller: times out before its time"); u[i].expired = 1; sym_reach("timeout"); sym_wake(); return 0; }
int vf_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (e != EPFD || !opened[EPFD]) { errno = EBADF; return -1; } CHECK(fd >= 0 && fd < FDMAX, "poller: epoll_ctl of a bad descriptor");
  if (op == EPOLL_CTL_ADD) { if (failadd == fd) { errno = ENOSPC; return -1; } if (ep[fd].in) { errno = EEXIST; return -1; } ep[fd].in = 1; }
  else if (!ep[fd].in) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) { ep[fd].in = ep[fd].armed = 0; return 0; }
  ep[fd].armed = 1; ep[fd].ev = ev->events; ep[fd].ptr = ev->data.ptr; sym_wake(); return 0; }
static void release(void *d) { int i = (int)(intptr_t)d; CHECK(i >= 0 && i < NU, "poller: release callback gets other data"); CHECK(u[i].rel < u[i].adds, "poller: released twice, or never registered"); u[i].rel++; u[i].reg = 0; sym_reach("released"); }
static int cb(void *d);
static void add(int i) { if (u[i].reg || u[i].running) return; static const int ts[] = { -1, 2500, 1000, 500 }; int k = sym_pick(0, TMOS, "timeout");
  onion_poller_slot *s = onion_poller_slot_new(U0 + i, cb, (void *)(intptr_t)i); CHECK(s != NULL, "poller: no slot for a valid descriptor"); onion_poller_slot_set_shutdown(s, release, (void *)(intptr_t)i); onion_poller_slot_set_timeout(s, ts[k]);
#ifdef TYPES
  u[i].type = sym_pick(0, 7, "type"); onion_poller_slot_set_type(s, u[i].type);
#else
  u[i].type = O_POLL_READ;
#endif
  u[i].tmo = ts[k]; u[i].base = now; u[i].expired = 0; u[i].reg = 1; u[i].adds++;
#ifdef ADDFAIL
  failadd = sym_pick(0, 1, "add fails") ? U0 + i : 0;
#endif
  int r = onion_poller_add(p, s);
#ifdef ADDFAIL
  if (failadd) { CHECK(r < 0 && !u[i].reg && u[i].rel == u[i].adds, "poller: a descriptor that can not be polled is not released"); failadd = 0; sym_reach("add failed"); }
  else
#endif
  CHECK(r >= 0, "poller: adding failed"); }
static void take(int i) { if (u[i].running && !u[i].reg) return; int was = u[i].reg, rel = u[i].rel; onion_poller_remove(p, U0 + i); CHECK(u[i].rel == rel + was && !u[i].reg, "poller: removing does not release exactly that descriptor"); sym_reach("removed"); }
static int batch;
static int cb(void *d) { int i = (int)(intptr_t)d; CHECK(i >= 0 && i < NU, "poller: callback gets other data"); CHECK(u[i].reg, "poller: callback of a descriptor that was removed"); CHECK(!u[i].running, "poller: callback runs twice at once");
  u[i].running = 1; u[i].expired = 0; int v = sym_pick(0, MODE ? 1 : 2, "verdict"); sym_yield();
  if (v == 2) { int o = sym_pick(0, NU - 1, "also"); if (o == i || !u[o].running) { if (u[o].reg) take(o); else add(o); } if (!u[i].reg) { u[i].running = 0; return -1; } v = 1; }
  u[i].running = 0; u[i].base = now; if (v == 0) { sym_reach("closes"); return -1; } sym_reach("goes on"); return 1; }
static int steps;
static int regd(int i) { return u[i].reg; }
static void quiet(void) {                                      // nothing is being served: everything registered is waited for, and nothing else
  for (int i = 0; i < NU; i++) { onion_poller_slot *s = onion_poller_get(p, U0 + i);
    if (regd(i)) { CHECK(ep[U0 + i].in && ep[U0 + i].armed, "poller: a registered descriptor is no longer waited for"); CHECK(s && s == ep[U0 + i].ptr, "poller: a registered descriptor is lost");
      unsigned e = ep[U0 + i].ev; CHECK(!!(e & EPOLLIN) == !!(u[i].type & O_POLL_READ) && !!(e & EPOLLOUT) == !!(u[i].type & O_POLL_WRITE) && (e & EPOLLONESHOT), "poller: waits for the wrong events");
      if (u[i].tmo >= 0 && !u[i].expired) CHECK(timer_on && timer_at * 1000 < u[i].base * 1000 + u[i].tmo + 1000 + 1, "poller: a timeout is not waited for"); }
    else { CHECK(!ep[U0 + i].in && !s, "poller: a removed descriptor is still there"); } } }
static int ready(struct epoll_event *out, int fd, unsigned ev) { if (!ep[fd].in || !ep[fd].armed) return 0; ep[fd].armed = 0; out->events = ev; out->data.ptr = ep[fd].ptr; return 1; }
#if MODE == 0
int vf_epoll_wait(int e, struct epoll_event *out, int max, int timeout) { CHECK(e == EPFD && timeout < 0, "poller: waits on something else");
  if (evcount && ready(out, EVFD, EPOLLIN)) return 1;
  for (;;) { quiet(); if (timer_on && timer_at <= now) { int k = ready(out, TMFD, EPOLLIN); CHECK(k, "poller: the timer is not waited for"); return 1; }
    if (steps-- <= 0) { onion_poller_stop(p); CHECK(evcount, "poller: stop does not wake the loop up"); int k = ready(out, EVFD, EPOLLIN); CHECK(k, "poller: stop is not waited for"); return 1; }
    int w = sym_pick(0, 4, "step");
    if (w == 0) { uint8_t dt; sym_make(&dt, 1, "seconds"); sym_assume(dt >= 1 && dt <= 4); now += dt; }
    else if (w == 1) add(sym_pick(0, NU - 1, "add"));
    else if (w == 2) take(sym_pick(0, NU - 1, "remove"));
    else if (w == 3) { errno = EINTR; return -1; }
    else { int i = sym_pick(0, NU - 1, "event"); if (!u[i].reg) continue; int hup = sym_pick(0, 1, "hang up");
      int k = ready(out, U0 + i, hup ? EPOLLIN | EPOLLHUP : EPOLLIN); if (!k) continue;
      if (QUEUE > 1 && max > 1 && NU > 1) { int j = (i + 1) % NU; if (u[j].reg && sym_pick(0, 1, "two events") && ready(out + 1, U0 + j, EPOLLIN)) { sym_reach("two"); return 2; } }
      return 1; } } }
void harness(void) {
#ifdef FDFAIL
  failfd = sym_pick(EPFD, TMFD, "no descriptor");
#endif
  p = onion_poller_new(8);
#ifdef FDFAIL
  CHECK(p == NULL, "poller: made without its descriptors"); CHECK(!opened[EPFD] && !opened[EVFD] && !opened[TMFD], "poller: descriptors leaked"); CHECK(sym_heap_live() == 0, "poller: memory leaked"); sym_reach("done"); return;
#endif
  CHECK(p != NULL, "poller: can not be made"); onion_poller_set_queue_size_per_thread(p, QUEUE); steps = STEPS;
#ifdef EMPTY
  onion_poller_remove(p, TMFD); onion_poller_remove(p, EVFD); onion_poller_remove(p, U0); sym_reach("done"); onion_poller_free(p); CHECK(sym_heap_live() == 0, "poller: memory leaked"); return;
#endif
  for (int i = 0; i < PRE; i++) add(i);
  onion_poller_poll(p); CHECK(steps <= 0, "poller: the loop ended by itself"); sym_reach("stopped");
  onion_poller_free(p); for (int i = 0; i < NU; i++) CHECK(u[i].rel == u[i].adds, "poller: not released when the loop is freed");
  CHECK(!opened[EPFD] && !opened[EVFD] && !opened[TMFD], "poller: descriptors leaked"); CHECK(sym_heap_live() == 0, "poller: memory leaked"); sym_reach("done"); }
#else
// two threads in the loop, with one event per descriptor and a third thread adding and stopping
static int evs[NU], finished, inloop[4], loops_in;
int vf_epoll_wait(int e, struct epoll_event *out, int max, int timeout) {
  if (!inloop[sym_self()]) { inloop[sym_self()] = 1; loops_in++; sym_wake(); }
  sym_yield(); for (;;) {
    if (evcount && ready(out, EVFD, EPOLLIN)) return 1;
    if (timer_on && timer_at <= now && ready(out, TMFD, EPOLLIN)) return 1;
    for (int i = 0; i < NU; i++) if (u[i].reg && evs[i] && ep[U0 + i].armed && ready(out, U0 + i, EPOLLIN)) { evs[i]--; sym_wake(); return 1; }
    sym_block(); } }
static void *poll_thread(void *a) { onion_poller_poll(p); finished++; sym_wake(); return NULL; }
void harness(void) { p = onion_poller_new(8); for (int i = 0; i < PRE; i++) { evs[i] = 1; add(i); }
  sym_thread(poll_thread, NULL);
#if LOOPS > 1
  sym_thread(poll_thread, NULL);
#endif
#ifdef LATE
  now += 1; add(NU - 1);
#endif
  sym_yield();
  while (evs[0] || loops_in < LOOPS) sym_block();                // a stop before a loop begins does not stop it
  // everything still registered with a timeout has the timer set for it, once the loops are at rest
  onion_poller_stop(p); while (finished < LOOPS) sym_block();
  for (int i = 0; i < NU; i++) if (u[i].reg && u[i].tmo >= 0 && !u[i].expired) CHECK(timer_on && timer_at * 1000 < u[i].base * 1000 + u[i].tmo + 1000 + 1, "poller: a timeout is not waited for");
  onion_poller_free(p); for (int i = 0; i < NU; i++) CHECK(u[i].rel == u[i].adds, "poller: not released when the loop is freed"); CHECK(sym_heap_live() == 0, "poller: memory leaked"); sym_reach("done"); }
#endif

// sockets and the event loop as a record of who owns what; no real descriptor is touched
#ifndef NET_H
#define NET_H
#include "util.h"
#include <errno.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <onion/poller.h>
enum { FD0 = 20, NFD = 24 };
static struct { int open, shut, listening, conn, bound; } fdt[NFD]; static int fdn, reuse_low;
static int addrs, net_faults; static struct addrinfo ai[2]; static struct sockaddr sa;
static int fault(const char *n) { if (net_faults <= 0) return 0; if (sym_pick(0, 1, n)) { net_faults--; return 1; } return 0; }
static int newfd(void) { int k; if (reuse_low) { for (k = 0; k < fdn; k++) if (!fdt[k].open) goto got; } k = fdn++; CHECK(k < NFD, "model: too many descriptors"); got: memset(&fdt[k], 0, sizeof fdt[k]); fdt[k].open = 1; return FD0 + k; }
static int known(int fd) { return fd >= FD0 && fd < FD0 + fdn && fdt[fd - FD0].open; }
int vf_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **r) { if (fault("no address")) { errno = sym_pick(0, 1, "errno") ? EAGAIN : 0; return EAI_NONAME; } memset(ai, 0, sizeof ai); ai[0].ai_addr = ai[1].ai_addr = &sa; ai[0].ai_addrlen = ai[1].ai_addrlen = sizeof sa; if (sym_pick(0, 1, "addresses")) ai[0].ai_next = &ai[1]; *r = ai; addrs++; return 0; }
void vf_freeaddrinfo(struct addrinfo *a) { CHECK(a == ai && addrs > 0, "listen: address list released twice"); addrs--; }
const char *vf_gai_strerror(int e) { return "error"; }
int vf_getnameinfo(const struct sockaddr *s, socklen_t l, char *h, socklen_t hl, char *p, socklen_t pl, int f) { if (h && hl) h[0] = 0; if (p && pl) p[0] = 0; return 0; }
int vf_socket(int d, int t, int p) { if (fault("no socket")) { errno = EMFILE; return -1; } return newfd(); }
int vf_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { CHECK(known(fd), "net: option of a descriptor that is not open"); return 0; }
int vf_fcntl(int fd, int c, ...) { return 0; }
int vf_bind(int fd, const struct sockaddr *a, socklen_t n) { CHECK(known(fd), "net: bind of a descriptor that is not open"); if (fault("bind fails")) { errno = EADDRINUSE; return -1; } fdt[fd - FD0].bound = 1; return 0; }
int vf_listen(int fd, int n) { CHECK(known(fd) && fdt[fd - FD0].bound, "net: listen on a socket that is not bound"); if (fault("listen fails")) { errno = EADDRINUSE; return -1; } fdt[fd - FD0].listening = 1; return 0; }
int vf_shutdown(int fd, int h) { CHECK(known(fd), "net: shutdown of a descriptor it does not own"); fdt[fd - FD0].shut = 1; return 0; }
int vf_close(int fd) { CHECK(known(fd), "net: closes a descriptor it does not own, or twice"); fdt[fd - FD0].open = 0; return 0; }
int vf_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { CHECK(known(fd) && fdt[fd - FD0].listening, "net: accepts on something that does not listen"); if (fault("accept fails")) { errno = EMFILE; return -1; } int k = newfd(); fdt[k - FD0].conn = 1; if (l) memset(a, 0, *l < 16 ? *l : 16); return k; }
int vf_accept(int fd, struct sockaddr *a, socklen_t *l) { return vf_accept4(fd, a, l, 0); }
static int nlistening(void) { int n = 0; for (int i = 0; i < fdn; i++) n += fdt[i].open && fdt[i].listening; return n; }
static int nopen(void) { int n = 0; for (int i = 0; i < fdn; i++) n += fdt[i].open; return n; }
// event loop
typedef struct slot { int used, fd, in; int (*f)(void *); void *data; void (*sd)(void *); void *sdd; int timeout; } slot;
static slot sl[NFD]; static int pollers, stopped, rnd, sigs; static char poller_obj[8];
static void run_loop(void);
onion_poller *vf_onion_poller_new(int n) { if (fault("no event loop")) return NULL; CHECK(!pollers, "model: one loop"); pollers++; return (onion_poller *)poller_obj; }
void vf_onion_poller_free(onion_poller *p) { CHECK(p == (onion_poller *)poller_obj && pollers > 0, "server: event loop released twice"); pollers--; for (int i = 0; i < NFD; i++) if (sl[i].in) { sl[i].in = 0; if (sl[i].sd) sl[i].sd(sl[i].sdd); } }
onion_poller_slot *vf_onion_poller_slot_new(int fd, int (*f)(void *), void *d) { if (fd < 0) return NULL; CHECK(known(fd), "server: something that is not open is polled"); if (fault("no slot")) return NULL; slot *s = &sl[fd - FD0]; CHECK(!s->in, "server: a descriptor still in the loop is used again"); memset(s, 0, sizeof *s); s->used = 1; s->fd = fd; s->f = f; s->data = d; s->timeout = -1; return (onion_poller_slot *)s; }
void vf_onion_poller_slot_free(onion_poller_slot *e) { slot *s = (slot *)e; if (s->sd) s->sd(s->sdd); }
void vf_onion_poller_slot_set_shutdown(onion_poller_slot *e, void (*f)(void *), void *d) { slot *s = (slot *)e; CHECK(s, "server: no slot"); s->sd = f; s->sdd = d; }
void vf_onion_poller_slot_set_timeout(onion_poller_slot *e, int t) { slot *s = (slot *)e; CHECK(s, "server: no slot"); s->timeout = t; }
void vf_onion_poller_slot_set_type(onion_poller_slot *e, onion_poller_slot_type_e t) { slot *s = (slot *)e; CHECK(s && (t & O_POLL_READ), "server: no slot, or it does not wait for data"); }
int vf_onion_poller_add(onion_poller *p, onion_poller_slot *e) { slot *s = (slot *)e; CHECK(s && known(s->fd), "server: something that is not open is polled"); if (fault("can not poll")) { if (s->sd) s->sd(s->sdd); return -1; } s->in = 1; return 1; }
static void rem(int fd) { if (fd < FD0 || fd >= FD0 + NFD) return; slot *s = &sl[fd - FD0]; if (s->in) { s->in = 0; if (s->sd) s->sd(s->sdd); } }
int vf_onion_poller_remove(onion_poller *p, int fd) { CHECK(pollers, "server: uses the event loop after its release"); rem(fd); return 0; }
onion_poller_slot *vf_onion_poller_get(onion_poller *p, int fd) { for (int i = 0; i < NFD; i++) if (sl[i].in && sl[i].fd == fd) return (onion_poller_slot *)&sl[i]; return NULL; }
void vf_onion_poller_stop(onion_poller *p) { CHECK(pollers, "server: uses the event loop after its release"); stopped = 1; sym_wake(); }
void vf_onion_poller_poll(onion_poller *p) { CHECK(pollers, "server: uses the event loop after its release"); run_loop(); }
static int event(int fd) { slot *s = &sl[fd - FD0]; if (!s->in || !fdt[fd - FD0].open) return 0; int r = s->f(s->data); if (r < 0) rem(fd); return 1; }
void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } void vf_onion_random_generate(void *d, size_t n) { memset(d, 7, n); }
#ifndef OWN_SIGNAL
#include <pwd.h>
#include <grp.h>
// the user is never changed for real
struct passwd *vf_getpwnam(const char *n) { static struct passwd pw; pw.pw_uid = 65534; pw.pw_gid = 65534; return &pw; }
int vf_initgroups(const char *n, gid_t g) { return 0; } int vf_setgroups(size_t n, const gid_t *l) { return 0; } int vf_setgid(gid_t g) { return 0; } int vf_setuid(uid_t u) { return 0; }
uid_t vf_getuid(void) { return 0; } uid_t vf_geteuid(void) { return 0; } gid_t vf_getgid(void) { return 0; } gid_t vf_getegid(void) { return 0; }
void *vf_signal(int s, void *h) { sigs++; return NULL; }
#endif
#endif

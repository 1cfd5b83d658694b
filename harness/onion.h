// a server made by the library itself, without event loop
#ifndef ONION_STUB_H
#define ONION_STUB_H
#include <onion/poller.h>
#include <onion/listen_point.h>
static int rnd, pollers, sigs; void vf_onion_random_init(void) { rnd++; } void vf_onion_random_free(void) { rnd--; } void vf_onion_random_generate(void *d, size_t n) { memset(d, 7, n); }
static char poller_obj[8]; onion_poller *vf_onion_poller_new(int n) { pollers++; return (onion_poller *)poller_obj; } void vf_onion_poller_free(onion_poller *p) { CHECK(p == (onion_poller *)poller_obj && pollers > 0, "server: event loop released twice"); pollers--; }
void *vf_signal(int s, void *h) { sigs++; return NULL; }
#endif

// In-memory temporary files: nothing touches the real file system.
#ifndef FS_H
#define FS_H
#include "sym.h"
#include <errno.h>
#include <sys/types.h>
#ifndef FSMAX
#define FSMAX 64
#endif
#ifndef NFILES
#define NFILES 4
#endif
typedef struct { char name[32]; char data[FSMAX]; size_t len; int exists, open; } vfile;
static vfile fs_f[NFILES]; static int fs_n; static int fs_fail_mkstemp, fs_fail_write = -1, fs_fault_kind, fs_writes;
int vf_mkstemp(char *t) {
  if (fs_fail_mkstemp) { errno = EACCES; return -1; }
  size_t n = strlen(t); sym_assert(n > 6, "files: bad temporary name"); sym_assert(fs_n < NFILES, "files: too many files"); 
  for (int i = 0; i < 6; i++) { sym_assert(t[n - 6 + i] == 'X', "files: temporary name without placeholder"); t[n - 6 + i] = 'a' + fs_n; }
  vfile *f = &fs_f[fs_n]; strcpy(f->name, t); f->len = 0; f->exists = f->open = 1; return 100 + fs_n++; }
ssize_t vf_write(int fd, const void *p, size_t n) {
  sym_assert(fd >= 100 && fd < 100 + fs_n && fs_f[fd - 100].open, "files: write to a descriptor that is not open"); vfile *f = &fs_f[fd - 100];
  if (fs_fail_write >= 0 && fs_writes++ == fs_fail_write) { if (fs_fault_kind == 0) { errno = ENOSPC; return -1; } n = n ? n - 1 : 0; }
  if (f->len + n > FSMAX) { sym_assert(0, "files: more bytes stored than were sent"); return -1; }
  memcpy(f->data + f->len, p, n); f->len += n; return n; }
int vf_close(int fd) { sym_assert(fd >= 100 && fd < 100 + fs_n && fs_f[fd - 100].open, "files: close of a descriptor that is not open"); fs_f[fd - 100].open = 0; return 0; }
int vf_unlink(const char *n) { for (int i = 0; i < fs_n; i++) if (fs_f[i].exists && !strcmp(fs_f[i].name, n)) { fs_f[i].exists = 0; return 0; } errno = ENOENT; return -1; }
static void fs_all_gone(void) { for (int i = 0; i < fs_n; i++) { sym_assert(!fs_f[i].open, "files: descriptor left open"); sym_assert(!fs_f[i].exists, "files: temporary file left behind"); } }
static vfile *fs_get(const char *name) { for (int i = 0; i < fs_n; i++) if (fs_f[i].exists && name && !strcmp(fs_f[i].name, name)) return &fs_f[i]; return 0; }
#endif

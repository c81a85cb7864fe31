// A file system with failures and crash points, and threads, mutexes and
// condition variables over the scheduler (every blocking point and atomic is a
// scheduling point). Used by the save and load checks.
#ifndef FSENV_H
#define FSENV_H
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdatomic.h>
#include <pthread.h>
// ---------------------------------------------------------------- files
#define NFILE 6
#define FILECAP 700
struct F_file { char name[64]; int linked, isdir; uint8_t d[FILECAP]; size_t n; };
static struct F_file F[NFILE]; static int F_n;
static struct { int file, flags; size_t pos; } F_fd[8]; static int F_nfd, F_open;
static int F_faults, F_faulted;                 // how many more calls may fail; whether one did
static const char *F_final; static int F_finalfile = -1, F_replaced;   // the file a save replaces
static int F_stale;                              // a left-over file by the new name may be there
#define RLX __ATOMIC_RELAXED
static int fault(const char *what) { if (__atomic_load_n(&F_faults, RLX) > 0 && sx_choose(2, what)) { __atomic_fetch_sub(&F_faults, 1, RLX); __atomic_store_n(&F_faulted, 1, RLX); return 1; } return 0; }
static int F_find(const char *name) { if (name[0] == '.' && name[1] == '/') name += 2; for (int i = 0; i < F_n; i++) if (F[i].linked && !strcmp(F[i].name, name)) return i; return -1; }
static int F_new(const char *name) { if (F_n == NFILE || strlen(name) > 63) sx_fail("harness: too many files"); strcpy(F[F_n].name, name); F[F_n].linked = 1; F[F_n].n = 0; return F_n++; }
static int F_put(const char *name, const void *d, size_t n) { int f = F_new(name); memcpy(F[f].d, d, n); F[f].n = n; return f; }
int sx_open(const char *path, int flags, int mode) {
    (void)mode;
    if (fault("open")) { errno = ENOSPC; return -1; }
    int f = F_find(path), wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr && F_final && !strcmp(path, F_final)) sx_fail("the saved file is replaced as a whole, never written in place");
    if (f < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (F_stale && sx_choose(2, "stale")) { if (flags & O_EXCL) { errno = EEXIST; return -1; } f = F_new(path); if (!(flags & O_TRUNC)) { memset(F[f].d, 'x', 400); F[f].n = 400; } }
        else f = F_new(path);
    } else if (wr && (flags & O_TRUNC)) F[f].n = 0;
    if (F_nfd == 8) sx_fail("harness: too many descriptors");
    F_fd[F_nfd].file = f; F_fd[F_nfd].flags = flags; F_fd[F_nfd].pos = 0; F_open++;
    return 100 + F_nfd++;
}
static int F_of(int fd) { fd -= 100; if (fd < 0 || fd >= F_nfd || F_fd[fd].file < 0) sx_fail("a descriptor that is open is used"); return fd; }
int sx_close(int fd) { fd = F_of(fd); F_fd[fd].file = -1; F_open--; return 0; }
int sx_fsync(int fd) { F_of(fd); return fault("fsync") ? (errno = EIO, -1) : 0; }
ssize_t sx_write(int fd, const void *d, size_t n) {
    fd = F_of(fd); struct F_file *f = &F[F_fd[fd].file];
    if (F_replaced && F_fd[fd].file == F_finalfile) sx_fail("a file is complete when it becomes the saved file");
    if (n && fault("write")) { if (n > 1 && sx_choose(2, "short")) n = 1 + n / 2; else { errno = ENOSPC; return -1; } }
    if (F_fd[fd].pos + n > FILECAP) sx_fail("harness: file too large");
    memcpy(f->d + F_fd[fd].pos, d, n); F_fd[fd].pos += n; if (f->n < F_fd[fd].pos) f->n = F_fd[fd].pos;
    return (ssize_t)n;
}
ssize_t sx_read(int fd, void *d, size_t n) {
    fd = F_of(fd); struct F_file *f = &F[F_fd[fd].file];
    size_t left = f->n - F_fd[fd].pos; if (n > left) n = left;
    if (n && fault("read")) { if (n > 16 && sx_choose(2, "short")) n = 1 + n / 2; else { errno = EIO; return -1; } }
    memcpy(d, f->d + F_fd[fd].pos, n); F_fd[fd].pos += n; return (ssize_t)n;
}
int sx_rename(const char *a, const char *b) {
    int f = F_find(a); if (f < 0) { errno = ENOENT; return -1; }
    if (fault("rename")) { errno = EACCES; return -1; }
    int o = F_find(b); if (o >= 0) F[o].linked = 0;
    if (F_final && !strcmp(b, F_final)) { if (F_replaced) sx_fail("the saved file is replaced once"); F_replaced = 1; F_finalfile = f; }
    else if (F_final && !strcmp(a, F_final)) sx_fail("the saved file stays in place");
    strcpy(F[f].name, b); return 0;
}
int sx_unlink(const char *a) {
    int f = F_find(a); if (f < 0) { errno = ENOENT; return -1; }
    if (F_final && !strcmp(a, F_final)) sx_fail("the saved file stays in place");
    F[f].linked = 0; return 0;
}
int sx_access(const char *a, int m) { (void)m; if (F_find(a) >= 0) return 0; errno = ENOENT; return -1; }
static struct { int open, pos; char path[64]; } F_dir; static struct dirent F_de;
void *sx_opendir(const char *p) { if (strlen(p) > 63 || fault("opendir")) { errno = ENOENT; return 0; } strcpy(F_dir.path, p); F_dir.open = 1; F_dir.pos = 0; return &F_dir; }
struct dirent *sx_readdir(void *d) {
    if (d != &F_dir || !F_dir.open) sx_fail("an open directory is read");
    size_t l = strlen(F_dir.path);
    for (; F_dir.pos < F_n; F_dir.pos++) {
        struct F_file *f = &F[F_dir.pos]; if (!f->linked) continue;
        const char *b; if (!strcmp(F_dir.path, ".") && !strchr(f->name, '/')) b = f->name;
        else if (!strncmp(f->name, F_dir.path, l) && f->name[l] == '/' && !strchr(f->name + l + 1, '/')) b = f->name + l + 1; else continue;
        strcpy(F_de.d_name, b); F_de.d_type = f->isdir ? DT_DIR : DT_REG; F_dir.pos++; return &F_de;
    }
    return 0;
}
int sx_closedir(void *d) { if (d != &F_dir || !F_dir.open) sx_fail("an open directory is closed"); F_dir.open = 0; return 0; }
// ---------------------------------------------------------------- threads
#ifdef SX_THREADS
static int H_failthread; static int T_n; static struct { void *(*fn)(void *); void *arg; int joined, id; } T_t[8];
static void T_run(void *p) { int i = (int)(intptr_t)p; T_t[i].fn(T_t[i].arg); }
int sx_pthread_create(pthread_t *th, const void *a, void *(*fn)(void *), void *arg) {
    (void)a; if (H_failthread && sx_choose(2, "nothread")) { H_failthread--; return EAGAIN; }
    if (T_n == 8) sx_fail("harness: too many threads");
    int i = T_n++; T_t[i].fn = fn; T_t[i].arg = arg; *th = (pthread_t)(i + 1); T_t[i].id = sx_spawn(T_run, (void *)(intptr_t)i); return 0;
}
int sx_pthread_join(pthread_t th, void **r) { int i = (int)th - 1; if (i < 0 || i >= T_n || T_t[i].joined) sx_fail("a thread that was started is joined once"); T_t[i].joined = 1; sx_join(T_t[i].id); if (r) *r = 0; return 0; }
int sx_pthread_detach(pthread_t th) { (void)th; return 0; }
unsigned sx_sleep(unsigned s) { (void)s; return 0; }
int sx_mutex_lock(pthread_mutex_t *m) { _Atomic int *x = (_Atomic int *)(void *)m; for (;;) { int z = 0; if (atomic_compare_exchange_strong(x, &z, 1)) return 0; sx_yield(); } }
int sx_mutex_unlock(pthread_mutex_t *m) { atomic_store((_Atomic int *)(void *)m, 0); return 0; }
int sx_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { _Atomic int *x = (_Atomic int *)(void *)c; int s = atomic_load(x); sx_mutex_unlock(m); while (atomic_load(x) == s) sx_yield(); return sx_mutex_lock(m); }
int sx_cond_wake(pthread_cond_t *c) { atomic_fetch_add((_Atomic int *)(void *)c, 1); return 0; }
#endif
#endif

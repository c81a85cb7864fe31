// Included before every source of the code under test and every harness.
// Replaces the parts of the environment a harness controls.
#ifndef SX_REDIRECT_H
#define SX_REDIRECT_H
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <assert.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <pthread.h>
#ifdef SX_NATIVE
void *sxn_malloc(size_t); void *sxn_calloc(size_t,size_t); void *sxn_realloc(void*,size_t); void sxn_free(void*);
#define malloc sxn_malloc
#define calloc sxn_calloc
#define realloc sxn_realloc
#define free sxn_free
#endif
#ifdef SX_ENV_CLOCK
int sx_clock_gettime(int id, struct timespec *ts);
#define clock_gettime(a,b) sx_clock_gettime((int)(a),(b))
#endif
#ifdef SX_ENV_PTHREAD
int sx_pthread_create(pthread_t*, const void*, void*(*)(void*), void*); int sx_pthread_join(pthread_t, void**); int sx_pthread_detach(pthread_t);
unsigned sx_sleep(unsigned);
#define pthread_create(a,b,c,d) sx_pthread_create(a,b,c,d)
#define pthread_join(a,b) sx_pthread_join(a,b)
#define pthread_detach(a) sx_pthread_detach(a)
#define sleep(a) sx_sleep(a)
#endif
#ifdef SX_ENV_MUTEX
int sx_mutex_lock(pthread_mutex_t*); int sx_mutex_unlock(pthread_mutex_t*); int sx_cond_wait(pthread_cond_t*, pthread_mutex_t*); int sx_cond_wake(pthread_cond_t*);
#define pthread_mutex_lock(m) sx_mutex_lock(m)
#define pthread_mutex_unlock(m) sx_mutex_unlock(m)
#define pthread_cond_wait(c,m) sx_cond_wait(c,m)
#define pthread_cond_signal(c) sx_cond_wake(c)
#define pthread_cond_broadcast(c) sx_cond_wake(c)
#endif
#ifdef SX_ENV_FILES
#include <dirent.h>
int sx_open(const char*, int, int); int sx_close(int); ssize_t sx_read(int, void*, size_t); ssize_t sx_write(int, const void*, size_t);
int sx_rename(const char*, const char*); int sx_unlink(const char*); int sx_fsync(int); void *sx_opendir(const char*); struct dirent *sx_readdir(void*); int sx_closedir(void*); int sx_access(const char*, int);
#define SX_OPEN3(a,b,c,...) sx_open(a,b,c)
#define open(...) SX_OPEN3(__VA_ARGS__,0,0)
#define close(a) sx_close(a)
#define read(a,b,c) sx_read(a,b,c)
#define write(a,b,c) sx_write(a,b,c)
#define rename(a,b) sx_rename(a,b)
#define unlink(a) sx_unlink(a)
#define fsync(a) sx_fsync(a)
#define fdatasync(a) sx_fsync(a)
#define opendir(a) ((DIR*)sx_opendir(a))
#define readdir(a) sx_readdir((void*)(a))
#define closedir(a) sx_closedir((void*)(a))
#define access(a,b) sx_access(a,b)
#endif
#ifdef SX_ENV_MAIN
// the program's own main and what it asks of the process
#include <signal.h>
#include <sys/resource.h>
#define main pogo_main
void sx_exit(int) __attribute__((noreturn)); void (*sx_signal(int, void (*)(int)))(int); int sx_setvbuf(void*, char*, int, size_t); int sx_isatty(int); int sx_fileno(void*); int sx_getrlimit(int, struct rlimit*); int sx_setrlimit(int, const struct rlimit*); int sx_usleep(unsigned); pid_t sx_getpid(void);
#define exit(a) sx_exit(a)
#define _exit(a) sx_exit(a)
#define _Exit(a) sx_exit(a)
#define abort() sx_exit(134)
#define signal(a,b) sx_signal(a,b)
#define setvbuf(a,b,c,d) sx_setvbuf((void*)(a),b,c,d)
#define isatty(a) sx_isatty(a)
#define fileno(a) sx_fileno((void*)(a))
#define getrlimit(a,b) sx_getrlimit((int)(a),b)
#define setrlimit(a,b) sx_setrlimit((int)(a),b)
#define usleep(a) sx_usleep(a)
#define getpid() sx_getpid()
#endif
#ifdef SX_ENV_NET
// sockets and the event queue
#include <sys/socket.h>
#include <sys/epoll.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
int sn_epoll_create(void); int sn_epoll_ctl(int, int, int, struct epoll_event*); int sn_epoll_wait(int, struct epoll_event*, int, int); int sn_accept(int); int sn_fcntl(int, int, long); int sn_setsockopt(int, int, int, const void*, size_t); int sn_socket(int); int sn_bind(int, const void*, size_t); int sn_listen(int, int); int sn_connect(int); int sn_unlink(const char*); int sn_getpeername(int, void*, void*);
int sn_getaddrinfo(const char*, const char*, struct addrinfo**); void sn_freeaddrinfo(struct addrinfo*); ssize_t sn_read(int, void*, size_t); ssize_t sn_write(int, const void*, size_t); int sn_close(int); void sn_exit(int) __attribute__((noreturn)); const char *sn_inet_ntop(int, const void*, char*, size_t);
#define SN_0(a,...) a
#define epoll_create1(a) sn_epoll_create()
#define epoll_create(a) sn_epoll_create()
#define epoll_ctl(a,b,c,d) sn_epoll_ctl(a,b,c,d)
#define epoll_wait(a,b,c,d) sn_epoll_wait(a,b,c,d)
#define accept(a,b,c) sn_accept(a)
#define accept4(a,b,c,d) sn_accept(a)
#define SN_FC(a,b,c,...) sn_fcntl(a,b,(long)(c))
#define fcntl(...) SN_FC(__VA_ARGS__,0,0)
#define setsockopt(a,b,c,d,e) sn_setsockopt(a,b,c,d,e)
#define socket(a,b,c) sn_socket(a)
#define bind(a,b,c) sn_bind(a,b,c)
#define listen(a,b) sn_listen(a,b)
#define connect(a,b,c) sn_connect(a)
#define unlink(a) sn_unlink(a)
#define getpeername(a,b,c) sn_getpeername(a,b,c)
#define getaddrinfo(a,b,c,d) sn_getaddrinfo(a,b,d)
#define freeaddrinfo(a) sn_freeaddrinfo(a)
#define gai_strerror(a) "error"
#define inet_ntop(a,b,c,d) sn_inet_ntop(a,b,c,d)
#define read(a,b,c) sn_read(a,b,c)
#define recv(a,b,c,d) sn_read(a,b,c)
#define write(a,b,c) sn_write(a,b,c)
#define send(a,b,c,d) sn_write(a,b,c)
#define close(a) sn_close(a)
#define exit(a) sn_exit(a)
#define abort() sn_exit(134)
#endif
#ifdef SX_THREADS
#include <stdatomic.h>
void sx_sched(void); void sx_yield(void);
#ifdef SX_NATIVE
void sx_atomic_write(void);
#else
#define sx_atomic_write() ((void)0)
#endif
#undef atomic_init
#ifdef __clang__
#define atomic_init(p,v) __c11_atomic_init(p,v)
#else
#define atomic_init(p,v) __atomic_store_n(p,v,__ATOMIC_RELAXED)
#endif
#undef atomic_store_explicit
#define atomic_store_explicit(p,v,o) ({ sx_sched(); __c11_or_gcc_store(p,v,o); sx_atomic_write(); })
#undef atomic_compare_exchange_weak_explicit
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong
#undef atomic_store
#undef atomic_fetch_add
#undef atomic_fetch_sub
#ifdef __clang__
#define __c11_or_gcc_store(p,v,o) __c11_atomic_store(p,v,o)
#define SX_CAS(p,e,d,a,b) __c11_atomic_compare_exchange_strong(p,e,d,a,b)
#define SX_FADD(p,v) __c11_atomic_fetch_add(p,v,__ATOMIC_SEQ_CST)
#define SX_FSUB(p,v) __c11_atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST)
#else
#define __c11_or_gcc_store(p,v,o) __atomic_store_n(p,v,o)
#define SX_CAS(p,e,d,a,b) __atomic_compare_exchange_n(p,e,d,0,a,b)
#define SX_FADD(p,v) __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST)
#define SX_FSUB(p,v) __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST)
#endif
#define SX_RMW(x) ({ sx_sched(); __auto_type _sx_r = (x); sx_atomic_write(); _sx_r; })
#define SX_CASX(x) ({ sx_sched(); _Bool _sx_r = (x); if (_sx_r) sx_atomic_write(); _sx_r; })
#define atomic_compare_exchange_weak_explicit(p,e,d,a,b) SX_CASX(SX_CAS(p,e,d,a,b))
#define atomic_compare_exchange_strong_explicit(p,e,d,a,b) SX_CASX(SX_CAS(p,e,d,a,b))
#define atomic_compare_exchange_weak(p,e,d) SX_CASX(SX_CAS(p,e,d,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST))
#define atomic_compare_exchange_strong(p,e,d) SX_CASX(SX_CAS(p,e,d,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST))
#define atomic_store(p,v) atomic_store_explicit(p,v,__ATOMIC_SEQ_CST)
#define atomic_fetch_add(p,v) SX_RMW(SX_FADD(p,v))
#define atomic_fetch_sub(p,v) SX_RMW(SX_FSUB(p,v))
#endif
#endif

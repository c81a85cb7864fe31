// Native runtime: replays one recorded input assignment.
// exit 0: harness finished, observations printed; 99: property violated;
// 77: inputs diverged from the recording; 78: an assumption failed.
#define _GNU_SOURCE
#undef pthread_create
#undef main
#undef epoll_create1
#undef epoll_create
#undef epoll_ctl
#undef epoll_wait
#undef accept
#undef accept4
#undef fcntl
#undef setsockopt
#undef socket
#undef bind
#undef listen
#undef connect
#undef unlink
#undef getpeername
#undef getaddrinfo
#undef freeaddrinfo
#undef gai_strerror
#undef inet_ntop
#undef recv
#undef send
#undef exit
#undef _exit
#undef _Exit
#undef abort
#undef signal
#undef setvbuf
#undef isatty
#undef fileno
#undef getrlimit
#undef setrlimit
#undef usleep
#undef getpid
#undef pthread_join
#undef pthread_detach
#undef pthread_mutex_lock
#undef pthread_mutex_unlock
#undef pthread_cond_wait
#undef pthread_cond_signal
#undef pthread_cond_broadcast
#undef open
#undef close
#undef read
#undef write
#undef access
#undef sleep
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>
static struct { char name[64]; unsigned char *b; size_t n; } *rec; static size_t nrec, pos;
static int hexv(int c){ return c<='9'?c-'0':c-'a'+10; }
static void diverge(const char *w,const char*n){ printf("SX-DIVERGE %s %s at %zu (%s)\n",w,n,pos,pos<nrec?rec[pos].name:"end"); fflush(stdout); _exit(77); }
static void take(const char*name,void*p,size_t n){ 
  if(pos>=nrec) diverge("no input left for",name);
  if(strcmp(rec[pos].name,name)||rec[pos].n!=n) diverge("expected another input than",name);
  memcpy(p,rec[pos].b,n); pos++; }
void sx_bytes(void*p,size_t n,const char*name){ take(name,p,n); }
uint64_t sx_var(int bits,const char*name){ uint64_t v=0; take(name,&v,(bits+7)/8); return v; }
int sx_choose(int n,const char*name){ uint32_t v=0; take(name,&v,4); if((int)v>=n) diverge("out of range",name); return v; }
void sx_assume(int c){ if(!c){ printf("SX-ASSUME\n"); fflush(stdout); _exit(78);} }
void sx_assert_(int c,const char*m){ if(!c) sx_fail(m); }
void sx_fail(const char*m){ printf("SX-VIOLATION %s\n",m); fflush(stdout); _exit(99); }
void sx_cover(const char*l){ (void)l; }
void sx_obs(uint64_t v){ printf("SX-OBS %llx\n",(unsigned long long)v); fflush(stdout); }
uint64_t sx_concretize(uint64_t v){ return v; }
int sx_symbolic_mode(void){ return 0; }
void sx_end(void){ fflush(stdout); _exit(0); }
// heap accounting: malloc/free used by the harness and the code under test are
// redirected here (see redirect.h); blocks are ordinary malloc blocks
#include <malloc.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
static size_t live, lbytes;
#undef malloc
#undef free
#undef calloc
#undef realloc
void *sxn_malloc(size_t n){ void*p=malloc(n); if(p){ live++; lbytes+=malloc_usable_size(p);
#if !__has_feature(memory_sanitizer)
 memset(p,0xA5,n);
#endif
} return p; }
void *sxn_calloc(size_t a,size_t b){ void*p=calloc(a,b); if(p) live++, lbytes+=malloc_usable_size(p); return p; }
void *sxn_realloc(void*q,size_t n){ size_t o=q?malloc_usable_size(q):0; void*p=realloc(q,n); if(p){ lbytes+=malloc_usable_size(p)-o; if(!q) live++; } return p; }
void sxn_free(void*p){ if(p) live--, lbytes-=malloc_usable_size(p); free(p); }
size_t sx_heap_bytes(void){ return lbytes; }
size_t sx_heap_live(void){ return live; }
// cooperative threads following the recorded schedule
#define MAXT 8
static struct { pthread_t t; void(*fn)(void*); void*arg; int done, yielded, joinon, joined; } th[MAXT]; static int nth=1; static int cur=0; static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv=PTHREAD_COND_INITIALIZER; static __thread int self; static int preempts;
static int preempt_bound(void){ const char*e=getenv("SX_PREEMPT"); return e?atoi(e):2; }
#ifdef SX_SPIN
// hand-over that ThreadSanitizer does not see (this file is not instrumented)
#include <sched.h>
static void waitturn(void){ while(__atomic_load_n(&cur,__ATOMIC_SEQ_CST)!=self) sched_yield(); }
static void give(int id){ __atomic_store_n(&cur,id,__ATOMIC_SEQ_CST); }
#else
static void waitturn(void){ pthread_mutex_lock(&mu); while(cur!=self) pthread_cond_wait(&cv,&mu); pthread_mutex_unlock(&mu); }
static void give(int id){ pthread_mutex_lock(&mu); cur=id; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
#endif
static void schedule(int must){
  if(nth<2&&!must) return;
  int r[MAXT],nr=0,selfok=0;
  for(int i=0;i<nth;i++){ if(th[i].done||th[i].yielded) continue; if(th[i].joinon>=0&&!th[th[i].joinon].done) continue; r[nr++]=i; if(i==self) selfok=1; }
  if(nr==0){ int all=1; for(int i=0;i<nth;i++) if(!th[i].done) all=0; if(all) return; printf("SX-VIOLATION deadlock: no thread can make progress\n"); fflush(stdout); _exit(99); }
  if(selfok&&(preempts>=preempt_bound()||nr==1)&&!must) return;
  int pick;
  if(!selfok&&nr==1) pick=r[0];
  else { uint8_t v; take("sched",&v,1); pick=v; if(selfok&&pick!=self) preempts++; }
  if(pick!=self){ give(pick); if(!th[self].done) waitturn(); } }
static void *trun(void*p){ self=(int)(intptr_t)p; waitturn(); th[self].fn(th[self].arg); th[self].done=1; for(int i=0;i<nth;i++) th[i].yielded=0; schedule(1); return 0; }
int sx_spawn(void(*fn)(void*),void*arg){ if(nth==1) th[0].joinon=-1; int id=nth++; th[id].fn=fn; th[id].arg=arg; th[id].joinon=-1; pthread_create(&th[id].t,0,trun,(void*)(intptr_t)id); return id; }
void sx_join(int id){ if(!th[id].done){ th[self].joinon=id; schedule(1); th[self].joinon=-1; } if(!th[id].joined){ th[id].joined=1; pthread_join(th[id].t,0); } }
void sx_sched(void){ schedule(0); }
void sx_atomic_write(void){ for(int i=0;i<nth;i++) if(i!=self) th[i].yielded=0; }
void sx_yield(void){ if(nth<2){ printf("SX-VIOLATION deadlock: the only thread spins on a lock that nobody can release\n"); fflush(stdout); _exit(99);} th[self].yielded=1; schedule(1); }
int sx_self(void){ return self; }
int main(int argc,char**argv){
  FILE*f=argc>1?fopen(argv[1],"r"):0; if(!f){ fprintf(stderr,"usage: replay INPUTS\n"); return 2; }
  char*line=0; size_t cap=0; ssize_t n; rec=0;
  while((n=getline(&line,&cap,f))>0){ if(line[0]=='#') break; char*sp=strchr(line,' '); if(!sp) continue; *sp=0; char*h=sp+1; size_t hl=strcspn(h,"\r\n"); rec=realloc(rec,(nrec+1)*sizeof *rec); snprintf(rec[nrec].name,64,"%s",line); rec[nrec].n=hl/2; rec[nrec].b=malloc(hl/2+1); for(size_t i=0;i<hl/2;i++) rec[nrec].b[i]=hexv(h[2*i])<<4|hexv(h[2*i+1]); nrec++; }
  fclose(f);
  harness(); printf("SX-DONE\n"); fflush(stdout); _exit(0); }

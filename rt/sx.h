// Harness API. The same harness is (1) executed symbolically by symx and
// (2) compiled natively and replayed on concrete inputs.
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
void sx_bytes(void *p, size_t n, const char *name);   // n arbitrary bytes
uint64_t sx_var(int bits, const char *name);           // arbitrary value of `bits` bits
int sx_choose(int n, const char *name);                // arbitrary value in [0,n), case split
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_fail(const char *msg) __attribute__((noreturn));
void sx_cover(const char *label);
void sx_obs(uint64_t v);                               // observed result (engine vs native)
uint64_t sx_concretize(uint64_t v);
size_t sx_heap_bytes(void);                             // bytes in live heap blocks
size_t sx_heap_live(void);                             // live heap blocks
int sx_spawn(void (*fn)(void*), void *arg);
void sx_join(int id);
void sx_sched(void);                                   // scheduling point
void sx_yield(void);
int sx_self(void);
void sx_end(void) __attribute__((noreturn));
int sx_symbolic_mode(void);
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
static inline uint8_t sx_u8(const char *n){ return (uint8_t)sx_var(8,n); }
static inline uint32_t sx_u32(const char *n){ return (uint32_t)sx_var(32,n); }
static inline uint64_t sx_u64(const char *n){ return sx_var(64,n); }
static inline int64_t sx_i64(const char *n){ return (int64_t)sx_var(64,n); }
static inline int sx_bool(const char *n){ return (int)sx_var(1,n); }
// bitwise-and helper without short-circuit branches
#define SX_AND(a,b) (((a)!=0)&((b)!=0))
#define SX_OR(a,b) (((a)!=0)|((b)!=0))
#define SX_IMPLIES(a,b) (((a)==0)|((b)!=0))
void harness(void);
#endif

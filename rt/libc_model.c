// C-library model for symbolic execution (glibc semantics in the C locale).
// Linked only into the bitcode; native replay uses the real C library.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include "ctype_tab.inc"
void *malloc(size_t); void *memcpy(void*,const void*,size_t);
int sx_self(void); static int sx_errnos[8]; int *__errno_location(void){ return &sx_errnos[sx_self()&7]; }
#define sx_errno (*__errno_location())
static const unsigned short *bp=sx_ctype_b+128; const unsigned short **__ctype_b_loc(void){ return &bp; }
static const int *lp=sx_ctype_lo+128; const int **__ctype_tolower_loc(void){ return &lp; }
static const int *up=sx_ctype_up+128; const int **__ctype_toupper_loc(void){ return &up; }
#define CT(n,bit) int n(int c){ return sx_ctype_b[128+c]&(unsigned short)(bit); }
#define B(b) ((b)<8?((1<<(b))<<8):((1<<(b))>>8))
CT(isupper,B(0)) CT(islower,B(1)) CT(isalpha,B(2)) CT(isdigit,B(3)) CT(isxdigit,B(4)) CT(isspace,B(5)) CT(isprint,B(6)) CT(isgraph,B(7)) CT(isblank,B(8)) CT(iscntrl,B(9)) CT(ispunct,B(10)) CT(isalnum,B(11))
int tolower(int c){ if (c>=-128&&c<256) return sx_ctype_lo[128+c]; return c; }
int toupper(int c){ if (c>=-128&&c<256) return sx_ctype_up[128+c]; return c; }
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int strncmp(const char*a,const char*b,size_t n){ for(;n;a++,b++,n--){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static int lc(unsigned char c){ return (c>='A'&c<='Z')? c+32:c; }
int strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=lc(*a),y=lc(*b); if(x!=y) return x-y; if(!x) return 0; } }
int strncasecmp(const char*a,const char*b,size_t n){ for(;n;a++,b++,n--){ int x=lc(*a),y=lc(*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
char *strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char *strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
void *memchr(const void*p,int c,size_t n){ const unsigned char*s=p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; }
void *memrchr(const void*p,int c,size_t n){ const unsigned char*s=p; while(n-->0) if(s[n]==(unsigned char)c) return (void*)(s+n); return 0; }
void *memmem(const void*h,size_t hn,const void*n,size_t nn){ const unsigned char*a=h,*b=n; if(!nn) return (void*)h; for(size_t i=0;i+nn<=hn;i++){ size_t k=0; while(k<nn&&a[i+k]==b[k]) k++; if(k==nn) return (void*)(a+i);} return 0; }
char *strstr(const char*h,const char*n){ size_t l=strlen(n); for(;;h++){ if(!strncmp(h,n,l)) return (char*)h; if(!*h) return 0; } }
char *strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char *strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char *strncat(char*d,const char*s,size_t n){ char*e=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
size_t strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&strchr(a,s[n])) n++; return n; }
size_t strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!strchr(a,s[n])) n++; return n; }
char *strdup(const char*s){ size_t n=strlen(s)+1; char*p=malloc(n); memcpy(p,s,n); return p; }
static int dig(int c){ if(c>='0'&&c<='9') return c-'0'; if(c>='a'&&c<='z') return c-'a'+10; if(c>='A'&&c<='Z') return c-'A'+10; return 99; }
static int issp(int c){ return c==' '||(c>=9&&c<=13); }
static unsigned long long sxto(const char*s,char**end,int base,int*neg,int*ovf,unsigned long long max,unsigned long long nmax){
  const char*p=s; *neg=0; *ovf=0; while(issp((unsigned char)*p)) p++; if(*p=='-'){ *neg=1; p++; } else if(*p=='+') p++;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&dig((unsigned char)p[2])<16){ p+=2; base=16; } else if(base==0) base= *p=='0'?8:10;
  unsigned long long v=0; unsigned long long lim=*neg?nmax:max; unsigned long long cut=lim/(unsigned)base, rem=lim%(unsigned)base; int any=0; int d; 
  while((d=dig((unsigned char)*p))<base){ any=1; if(!*ovf){ if(v>cut||(v==cut&&(unsigned)d>rem)) *ovf=1; else v=v*base+d; } p++; }
  if(end) *end=(char*)(any?p:s); return v; }
long long strtoll(const char*s,char**e,int b){ int n,o; unsigned long long v=sxto(s,e,b,&n,&o,LLONG_MAX,(unsigned long long)LLONG_MAX+1); if(o){ sx_errno=ERANGE; return n?LLONG_MIN:LLONG_MAX; } return n?(long long)(0-v):(long long)v; }
long strtol(const char*s,char**e,int b){ return strtoll(s,e,b); }
unsigned long long strtoull(const char*s,char**e,int b){ int n,o; unsigned long long v=sxto(s,e,b,&n,&o,ULLONG_MAX,ULLONG_MAX); if(o){ sx_errno=ERANGE; return ULLONG_MAX; } return n?0-v:v; }
unsigned long strtoul(const char*s,char**e,int b){ return strtoull(s,e,b); }
long __isoc23_strtol(const char*s,char**e,int b){ return strtol(s,e,b); }
long long __isoc23_strtoll(const char*s,char**e,int b){ return strtoll(s,e,b); }
unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return strtoul(s,e,b); }
unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return strtoull(s,e,b); }
static int ci(const char*s,const char*w){ int i=0; for(;w[i];i++) if((s[i]|32)!=w[i]) return 0; return i; }
double strtod(const char*s,char**e){ const char*p=s; while(issp((unsigned char)*p)) p++; int n=0; if(*p=='-'){ n=1; p++; } else if(*p=='+') p++; double v=0; int any=0,k;
  if((k=ci(p,"infinity"))||(k=ci(p,"inf"))){ p+=k; v=__builtin_inf(); any=1; } else if((k=ci(p,"nan"))){ p+=k; v=__builtin_nan(""); any=1; }
  else { unsigned long long m=0; double sc=1; for(;*p>='0'&&*p<='9';p++){ m=m*10+(*p-'0'); any=1; } if(*p=='.'){ const char*q=p+1; for(;*q>='0'&&*q<='9';q++){ m=m*10+(*q-'0'); sc*=10; any=1; } if(any) p=q; }
    v=(double)m/sc; if(any&&(*p|32)=='e'){ const char*q=p+1; int en=0,x=0,d=0; if(*q=='-'){ en=1; q++; } else if(*q=='+') q++; for(;*q>='0'&&*q<='9';q++){ if(x<9999) x=x*10+(*q-'0'); d=1; } if(d){ p=q; for(int i=0;i<x&&i<400;i++) v= en? v/10:v*10; } } }
  if(e) *e=(char*)(any?p:s); return n?-v:v; }
int atoi(const char*s){ return (int)strtol(s,0,10); }
long atol(const char*s){ return strtol(s,0,10); }
long long atoll(const char*s){ return strtoll(s,0,10); }
int abs(int x){ return x<0?-x:x; }
// printf family: %[-0][width][.prec](hh|h|l|ll|z|j|t)(d i u x X o c s p %) ; %f with concrete values only
struct out { char*b; size_t cap,n; };
static void oc(struct out*o,char c){ if(o->n+1<o->cap) o->b[o->n]=c; o->n++; }
int vsnprintf(char*b,size_t cap,const char*f,va_list ap){
  struct out o={b,cap,0};
  for(;*f;f++){
    if(*f!='%'){ oc(&o,*f); continue; } f++;
    int left=0,zero=0,plus=0,alt=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f=='#') alt=1; else if(*f==' ') ; else break; }
    int width=0; if(*f=='*'){ width=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') width=width*10+*f++-'0';
    int prec=-1; if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+*f++-'0'; }
    int lng=0; for(;;f++){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t') lng=2; else if(*f=='h') lng=-1; else break; }
    char tmp[72]; int n=0; const char*s=tmp; int sl; char sign=0;
    switch(*f){
      case 'd': case 'i': { long long v= lng>0? va_arg(ap,long long): va_arg(ap,int); unsigned long long u=v; if(v<0){ sign='-'; u=0-u; } else if(plus) sign='+'; do { tmp[71-n++]='0'+u%10; u/=10; } while(u); s=tmp+72-n; break; }
      case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long long u= (lng>0||*f=='p')? va_arg(ap,unsigned long long): va_arg(ap,unsigned); unsigned base= *f=='u'?10:*f=='o'?8:16; const char*dg= *f=='X'?"0123456789ABCDEF":"0123456789abcdef"; do { tmp[71-n++]=dg[u%base]; u/=base; } while(u); if(*f=='p'||(alt&&base==16)){ tmp[71-n++]='x'; tmp[71-n++]='0'; } s=tmp+72-n; break; }
      case 'c': tmp[0]=(char)va_arg(ap,int); n=1; s=tmp; zero=0; break;
      case 's': { s=va_arg(ap,const char*); if(!s) s="(null)"; n=0; while((prec<0||n<prec)&&s[n]) n++; zero=0; break; }
      case 'f': { double v=va_arg(ap,double); if(prec<0) prec=6; if(v<0){ sign='-'; v=-v; } double sc=1; for(int i=0;i<prec;i++) sc*=10; unsigned long long iv=(unsigned long long)(v*sc+0.5); for(int i=0;i<prec;i++){ tmp[71-n++]='0'+iv%10; iv/=10; } if(prec) tmp[71-n++]='.'; do { tmp[71-n++]='0'+iv%10; iv/=10; } while(iv); s=tmp+72-n; break; }
      case '%': tmp[0]='%'; n=1; s=tmp; break;
      default: tmp[0]=*f; n=1; s=tmp; }
    sl=n+(sign?1:0); int npad= width>sl? width-sl:0; int zp=0; if(*f!='s'&&*f!='f'&&*f!='c'&&prec>n){ zp=prec-n; npad= width>sl+zp? width-sl-zp:0; zero=0; }
    if(!left&&!zero) for(int i=0;i<npad;i++) oc(&o,' ');
    if(sign) oc(&o,sign); if(!left&&zero) for(int i=0;i<npad;i++) oc(&o,'0'); for(int i=0;i<zp;i++) oc(&o,'0');
    for(int i=0;i<n;i++) oc(&o,s[i]);
    if(left) for(int i=0;i<npad;i++) oc(&o,' ');
  }
  if(cap) b[o.n<cap?o.n:cap-1]=0; return (int)o.n; }
int snprintf(char*b,size_t c,const char*f,...){ va_list ap; va_start(ap,f); int n=vsnprintf(b,c,f,ap); va_end(ap); return n; }
int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int n=vsnprintf(b,(size_t)1<<40,f,ap); va_end(ap); return n; }
int printf(const char*f,...){ (void)f; return 0; }
int fprintf(void*s,const char*f,...){ (void)s;(void)f; return 0; }
int vfprintf(void*s,const char*f,va_list a){ (void)s;(void)f;(void)a; return 0; }
int puts(const char*s){ (void)s; return 0; } int putchar(int c){ return c; } int fputc(int c,void*f){ (void)f; return c; } int fputs(const char*s,void*f){ (void)s;(void)f; return 0; }
size_t fwrite(const void*p,size_t a,size_t b,void*f){ (void)p;(void)a;(void)f; return b; }
int fflush(void*f){ (void)f; return 0; } void perror(const char*s){ (void)s; }
void *stderr, *stdout, *stdin;
int pthread_mutex_lock(void*m){ (void)m; return 0; } int pthread_mutex_unlock(void*m){ (void)m; return 0; } int pthread_mutex_init(void*m,const void*a){ (void)m;(void)a; return 0; } int pthread_mutex_trylock(void*m){ (void)m; return 0; } int pthread_mutex_destroy(void*m){ (void)m; return 0; }
char *getenv(const char*n){ (void)n; return 0; }
void exit(int c); void abort(void); 
void exit(int c){ (void)c; abort(); }
void _exit(int c){ (void)c; abort(); }
static unsigned long long sx_rand=1; int rand(void){ sx_rand=sx_rand*6364136223846793005ull+1; return (int)(sx_rand>>33); } void srand(unsigned s){ sx_rand=s; }
char *strerror(int e){ (void)e; return (char*)"error"; }
#ifndef SX_NATIVE
int malloc_trim(unsigned long pad) { (void)pad; return 0; }
#endif

char *dirname(char *p) {
    static char dot[2] = "."; if (!p || !*p) return dot;
    size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') n--; while (n && p[n - 1] != '/') n--; if (!n) return dot; while (n > 1 && p[n - 1] == '/') n--; p[n] = 0; return p;
}

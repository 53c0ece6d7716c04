// Environment models, compiled and instrumented together with the code under test.
#include <stddef.h>
#include <stdarg.h>
#include "sym.h"
typedef unsigned char u8;
size_t __m_strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t __m_strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
static int cmpn(const u8*a,const u8*b,size_t lim){
  size_t n=0; while(n<lim&&a[n]&&b[n]) n++;
  int r=n<lim?(int)a[n]-(int)b[n]:0;
  for(size_t i=n;i-->0;){ int d=(int)a[i]-(int)b[i]; int k=-(d!=0); r=(d&k)|(r&~k); }
  return r;
}
int __m_strcmp(const char*a,const char*b){ return cmpn((const u8*)a,(const u8*)b,(size_t)-1); }
int __m_strncmp(const char*a,const char*b,size_t n){ return cmpn((const u8*)a,(const u8*)b,n); }
int __m_memcmp(const void*x,const void*y,size_t n){ const u8*a=x,*b=y; int r=0; for(size_t i=n;i-->0;){ int d=(int)a[i]-(int)b[i]; int k=-(d!=0); r=(d&k)|(r&~k);} return r; }
int __m_bcmp(const void*x,const void*y,size_t n){ return __m_memcmp(x,y,n); }
char* __m_strcpy(char*d,const char*s){ size_t i=0; for(;;){ char c=s[i]; d[i]=c; if(!c) break; i++; } return d; }
char* __m_stpcpy(char*d,const char*s){ size_t i=0; for(;;){ char c=s[i]; d[i]=c; if(!c) break; i++; } return d+i; }
char* __m_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n;i++){ char c=s[i]; d[i]=c; if(!c) break; } for(;i<n;i++) d[i]=0; return d; }
char* __m_strcat(char*d,const char*s){ __m_strcpy(d+__m_strlen(d),s); return d; }
char* __m_strncat(char*d,const char*s,size_t n){ char*e=d+__m_strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
char* __m_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* __m_strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* __m_strstr(const char*h,const char*n){ size_t l=__m_strlen(n); for(;;h++){ if(__m_strncmp(h,n,l)==0) return (char*)h; if(!*h) return 0; } }
void* __m_memchr(const void*p,int c,size_t n){ const u8*s=p; for(size_t i=0;i<n;i++) if(s[i]==(u8)c) return (void*)(s+i); return 0; }
void* malloc(size_t);
char* __m_strdup(const char*s){ size_t n=__m_strlen(s); char*d=malloc(n+1); __m_strcpy(d,s); return d; }
char* __m_strndup(const char*s,size_t m){ size_t n=__m_strnlen(s,m); char*d=malloc(n+1); for(size_t i=0;i<n;i++) d[i]=s[i]; d[n]=0; return d; }
static int dig(int c){ return c>='0'&&c<='9'; }
static int spc(int c){ return c==' '||(c>=9&&c<=13); }
int __m_isdigit(int c){ return dig(c); }
int __m_isspace(int c){ return spc(c); }
int __m_isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int __m_isalnum(int c){ return __m_isalpha(c)||dig(c); }
int __m_isxdigit(int c){ return dig(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
int __m_isprint(int c){ return c>=32&&c<127; }
int __m_tolower(int c){ return (c>='A'&&c<='Z')?c+32:c; }
int __m_toupper(int c){ return (c>='a'&&c<='z')?c-32:c; }
long __m_strtol(const char*s,char**e,int base){
  const char*p=s; while(spc((u8)*p)) p++; int neg=0; if(*p=='-'){neg=1;p++;} else if(*p=='+') p++;
  long v=0; const char*q=p;
  for(;;p++){ int c=(u8)*p,d; if(dig(c)) d=c-'0'; else if(base>10&&((c|32)>='a'&&(c|32)<'a'+base-10)) d=(c|32)-'a'+10; else break; if(d>=base&&base!=0) break; v=v*(base?base:10)+d; }
  if(e) *e=(char*)(p==q?s:p); return neg?-v:v;
}
long long __m_strtoll(const char*s,char**e,int b){ return __m_strtol(s,e,b); }
long __m___isoc23_strtol(const char*s,char**e,int b){ return __m_strtol(s,e,b); }
int __m_atoi(const char*s){ return (int)__m_strtol(s,0,10); }
long __m_atol(const char*s){ return __m_strtol(s,0,10); }
double __m_strtod(const char*s,char**e){
  const char*p=s; while(spc((u8)*p)) p++; int neg=0; if(*p=='-'){neg=1;p++;} else if(*p=='+') p++;
  long iv=0; int nd=0; int fr=0;
  const char*q=p;
  while(dig((u8)*p)){ iv=iv*10+(*p-'0'); p++; nd++; }
  if(*p=='.'){ p++; while(dig((u8)*p)){ iv=iv*10+(*p-'0'); p++; nd++; fr++; } }
  int ex=0;
  if(nd&&(*p=='e'||*p=='E')){ const char*r=p+1; int en=0; if(*r=='-'){en=1;r++;} else if(*r=='+') r++; if(dig((u8)*r)){ while(dig((u8)*r)){ ex=ex*10+(*r-'0'); r++; } p=r; if(en) ex=-ex; } }
  if(!nd) p=s; (void)q;
  if(e) *e=(char*)p;
  double v=(double)iv; ex-=fr;
  if(ex<0){ double d=1; for(int i=0;i<-ex;i++) d*=10; v=v/d; } else for(int i=0;i<ex;i++) v=v*10;
  return neg?-v:v;
}
double __m_atof(const char*s){ return __m_strtod(s,0); }
// ---- stdio: output is dropped; input files are served from sym_file_set()
int __m_printf(const char*f,...){ (void)f; return 0; }
int __m_fprintf(void*s,const char*f,...){ (void)s;(void)f; return 0; }
int __m_puts(const char*s){ (void)s; return 0; }
int __m_fputs(const char*s,void*f){ (void)s;(void)f; return 0; }
int __m_putchar(int c){ return c; }
int __m_fputc(int c,void*f){ (void)f; return c; }
int __m_putc(int c,void*f){ (void)f; return c; }
int __m_fflush(void*f){ (void)f; return 0; }
void __m_perror(const char*s){ (void)s; }
static const u8*fdata; static long flen; 
struct MF{ long pos; int eof, open; };
static struct MF files[32]; static int nfiles;
char sym_fname_[]="input"; char*sym_file_name(void){ return sym_fname_; }
int sym_open_files;
void sym_file_set_(const void*d,long n){ fdata=d; flen=n; }
void sym_file_set(const void*d,long n){ fdata=d; flen=n; }
void* __m_fopen(const char*n,const char*m){ (void)n;(void)m; if(!fdata) return 0; if(nfiles>=32) sym_fail("too many open files"); struct MF*f=&files[nfiles++]; f->pos=0; f->eof=0; f->open=1; sym_open_files++; return f; }
int __m_fclose(void*p){ struct MF*f=p; if(!f||!f->open) sym_fail("fclose of a stream that is not open"); f->open=0; sym_open_files--; return 0; }
int __m_fseek(void*p,long o,int w){ struct MF*f=p; long b=w==0?0:w==1?f->pos:flen; long t=b+o; if(t<0) return -1; f->pos=t; f->eof=0; return 0; }
long __m_ftell(void*p){ return ((struct MF*)p)->pos; }
void __m_rewind(void*p){ ((struct MF*)p)->pos=0; ((struct MF*)p)->eof=0; }
int __m_feof(void*p){ return ((struct MF*)p)->eof; }
int __m_fgetc(void*p){ struct MF*f=p; if(f->pos>=flen){ f->eof=1; return -1; } return fdata[f->pos++]; }
int __m_getc(void*p){ return __m_fgetc(p); }
int __m_ungetc(int c,void*p){ struct MF*f=p; if(c<0||f->pos==0) return -1; f->pos--; f->eof=0; return c; }
size_t __m_fread(void*d,size_t sz,size_t n,void*p){ struct MF*f=p; size_t t=sz*n,i=0; u8*o=d; for(;i<t;i++){ if(f->pos>=flen){f->eof=1;break;} o[i]=fdata[f->pos++]; } return sz?i/sz:0; }
char* __m_fgets(char*d,int n,void*p){ int i=0; while(i<n-1){ int c=__m_fgetc(p); if(c<0) break; d[i++]=c; if(c=='\n') break; } d[i]=0; return i?d:0; }
// ---- time
int __m_gettimeofday(void*tv,void*tz){ (void)tz; ((long*)tv)[0]=0; ((long*)tv)[1]=0; return 0; }
long __m_time(long*t){ if(t)*t=0; return 0; }
long __m_clock(void){ return 0; }
// ---- threads: a worker's whole body runs at one point; the access tracker establishes that no other
// interleaving can differ (no byte written by one live worker is touched by another).
int sym_thread_order;
struct TH{ void*(*fn)(void*); void*arg; void*ret; int done; }; static struct TH th[64]; static int nth, frozen;
static void runth(int i){ if(th[i].done) return; th[i].done=1; sym_thread_enter(i&7,__builtin_frame_address(0)); th[i].ret=th[i].fn(th[i].arg); sym_thread_leave(); }
int __m_pthread_create(unsigned long*t,const void*a,void*(*fn)(void*),void*arg){ (void)a; if(nth>=64) sym_fail("too many threads"); int i=nth++; th[i].fn=fn; th[i].arg=arg; th[i].done=0; *t=(unsigned long)i+1; if(sym_thread_order==0) runth(i); return 0; }
int __m_pthread_join(unsigned long t,void**r){ int i=(int)t-1; if(sym_thread_order==2){ for(int k=nth;k-->0;) runth(k); } else runth(i); sym_thread_join(i&7); if(r)*r=th[i].ret; return 0; }
unsigned long __m_pthread_self(void){ return 0; }
int __m_pthread_mutex_init(void*m,const void*a){ (void)m;(void)a; return 0; }
int __m_pthread_mutex_lock(void*m){ sym_thread_lock(m,1); return 0; }
int __m_pthread_mutex_unlock(void*m){ sym_thread_lock(m,0); return 0; }
int __m_pthread_mutex_destroy(void*m){ (void)m; return 0; }
int __m_pthread_attr_init(void*m){ (void)m; return 0; }
int __m_pthread_attr_destroy(void*m){ (void)m; return 0; }
int __m_pthread_setaffinity_np(unsigned long t,size_t n,const void*c){ (void)t;(void)n;(void)c; return 0; }
int __m_sched_setaffinity(int p,size_t n,const void*c){ (void)p;(void)n;(void)c; return 0; }
int __m_sched_yield(void){ return 0; }
long __m_sysconf(int n){ (void)n; return 8; }

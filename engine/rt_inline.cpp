// Fast paths, linked as bitcode into the instrumented module and always inlined.
#include <stdint.h>
typedef uint32_t E; typedef uint64_t u64;
extern "C" {
extern unsigned char __sym_filter[1<<20];
extern unsigned char __sym_track;
E __symx_bin(int,int,u64,E,u64,E); E __symx_un(int,int,int,E); E __symx_ite(int,int,E,u64,E,u64,E);
u64 __symx_conc(E,int); int __symx_br(E); E __symx_load(void*,u64,int); void __symx_store(void*,u64,int,E);
void* __symx_ldptr(E,u64); u64 __symx_divisor(u64,E,u64,E,int); void __symx_concmem(void*,u64);
void __symx_clear(void*,u64,int); void __symx_memcpy(void*,void*,u64); void __symx_memset(void*,E,u64);
#define AI __attribute__((always_inline,used)) inline
#define UNL(x) __builtin_expect(!!(x),0)
#define FILT(a) __sym_filter[((u64)(a)>>6)&0xfffff]
AI E __symi_bin(int op,int w,u64 a,E sa,u64 b,E sb){ if(UNL(sa|sb)) return __symx_bin(op,w,a,sa,b,sb); return 0; }
AI E __symi_un(int op,int wi,int wo,E s){ if(UNL(s)) return __symx_un(op,wi,wo,s); return 0; }
AI E __symi_ite(int w,int c,E sc,u64 a,E sa,u64 b,E sb){ if(UNL(sc)) return __symx_ite(w,c,sc,a,sa,b,sb); return c?sa:sb; }
AI u64 __symi_conc(u64 v,E s,int w){ if(UNL(s)) return __symx_conc(s,w); return v; }
AI int __symi_br(int c,E s){ if(UNL(s)) return __symx_br(s); return c; }
AI E __symi_load(void*p,u64 sz,int w){ if(UNL(FILT(p)|FILT((char*)p+sz-1)|__sym_track)) return __symx_load(p,sz,w); return 0; }
AI void __symi_store(void*p,u64 sz,int w,E s){ if(UNL(s||FILT(p)||FILT((char*)p+sz-1)||__sym_track)) __symx_store(p,sz,w,s); }
AI void* __symi_ldptr(void*p,E s,u64 sz){ if(UNL(s)) return __symx_ldptr(s,sz); return p; }
AI u64 __symi_divisor(u64 b,E sb,u64 a,E sa,int w){ if(UNL(sa|sb)||UNL(b==0)) return __symx_divisor(b,sb,a,sa,w); return b; }
AI void __symi_concmem(void*p,u64 sz){ if(UNL(FILT(p)|FILT((char*)p+sz-1)|__sym_track)) __symx_concmem(p,sz); }
E __symx_arg(E,int);
AI E __symi_arg(E s,int w){ if(UNL(s)) return __symx_arg(s,w); return 0; }
AI void __symi_clear(void*p,u64 sz){ __symx_clear(p,sz,0); }
AI void __symi_clearw(void*p,u64 sz){ if(UNL(FILT(p)|FILT((char*)p+sz-1)|__sym_track)) __symx_clear(p,sz,1); }
AI void __symi_memcpy(void*d,void*s,u64 n){ __symx_memcpy(d,s,n); }
AI void __symi_memset(void*d,E s,u64 n){ __symx_memset(d,s,n); }
AI void __symi_byval(int valid,void*d,void*s,u64 n){ if(valid) __symx_memcpy(d,s,n); else __symx_clear(d,n,0); }
}

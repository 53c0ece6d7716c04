// Symbolic execution run-time: expression DAG, path condition, solver, forking.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <atomic>
#include <vector>
#include <unordered_map>
#include <string>
#include <z3.h>
#include "ops.h"
typedef uint32_t E; typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;

extern "C" {
E __sym_args[64]; E __sym_ret[8]; void* __sym_callee; void* __sym_byval[64];
unsigned char __sym_filter[1<<20]; unsigned char __sym_track;
int sym_main(void);
int __attribute__((weak)) __asan_address_is_poisoned(void const volatile*);
void*__attribute__((weak)) __asan_region_is_poisoned(void*,size_t);
}

// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<long> paths, forks, q_enum, q_xcheck, q_z3, z3_sat, z3_unsat, z3_unknown, z3_us, asserts, asserts_sym, asserts_z3,
    concs, branches, pruned, crashes, viols, known, samples, abort_, tokens, incomplete, races_checked, maxvars, blocked;
  std::atomic<long> reach[256];
};
static Shared*SH;
static char outdir[512]=".";
static long MAXV=20;
static int g_deadline=0;
static long hang_s=60;

// ------------------------------------------------------------------ expressions
struct Node{ u8 op,w; uint16_t sup; E a,b,c; u64 k; };
static std::vector<Node> N(1);
struct Sup{ u64 m[4]; int n; int only; };
static std::vector<Sup> SUP;
static std::vector<u64*> TAB(1);        // single-variable value tables
static std::vector<Z3_ast> ZA(1);
static std::vector<uint32_t> stamp(1); static std::vector<u64> memo(1); static uint32_t curstamp;
static std::vector<u64*> LUTS;
struct Key{ u64 x,y,z; bool operator==(const Key&o)const{return x==o.x&&y==o.y&&z==o.z;} };
struct KH{ size_t operator()(const Key&k)const{ u64 h=k.x*0x9E3779B97F4A7C15ull; h^=(k.y+0x7F4A7C15)*0xBF58476D1CE4E5B9ull; h^=h>>29; h+=k.z*0x94D049BB133111EBull; h^=h>>32; return h; } };
static std::unordered_map<Key,E,KH> HC;
static std::unordered_map<Key,int,KH> SUPH; // hash of (m0,m1,m2^m3 rotated): small number of sets, verified
static inline u64 mask(int w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 s=1ull<<(w-1); v&=mask(w); return (i64)((v^s)-s); }
static void fatal(const char*m);

static int supIntern(const Sup&s){
  Key k{s.m[0],s.m[1],s.m[2]*31+s.m[3]*7919};
  auto it=SUPH.find(k);
  if(it!=SUPH.end()&&memcmp(SUP[it->second].m,s.m,32)==0) return it->second;
  int id=SUP.size(); if(id>65000) fatal("too many support sets");
  SUP.push_back(s); SUPH[k]=id; return id;
}
static int supUnion(int a,int b){
  if(a==b||b==0) return a; if(a==0) return b;
  static std::unordered_map<u64,int> cache; u64 ck=((u64)a<<32)|(unsigned)b; auto it=cache.find(ck); if(it!=cache.end()) return it->second;
  Sup s; s.n=0; s.only=-1;
  for(int i=0;i<4;i++){ s.m[i]=SUP[a].m[i]|SUP[b].m[i]; s.n+=__builtin_popcountll(s.m[i]); if(s.m[i]) s.only=i*64+__builtin_ctzll(s.m[i]); }
  if(s.n!=1) s.only=-1;
  int r=supIntern(s); cache[ck]=r; return r;
}
static E mk(u8 op,u8 w,E a,E b,E c,u64 k,int sup){
  Key key{((u64)op<<56)|((u64)w<<48)|k>>40, ((u64)a<<32)|b, ((u64)c<<40)^(k&0xffffffffffull)};
  // constants keep the full value in z
  if(op==OP_CONST){ key.y=0xC057; key.z=k; key.x=((u64)op<<56)|w; }
  auto it=HC.find(key); if(it!=HC.end()) return it->second;
  E id=N.size(); N.push_back(Node{op,w,(uint16_t)sup,a,b,c,k});
  TAB.push_back(nullptr); ZA.push_back(nullptr); stamp.push_back(0); memo.push_back(0);
  HC[key]=id; return id;
}
static E K(u64 v,int w){ return mk(OP_CONST,w,0,0,0,v&mask(w),0); }
static inline bool isK(E e){ return N[e].op==OP_CONST; }
static inline double D(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 B(double d){ u64 v; memcpy(&v,&d,8); return v; }
static u64 fcmp(int p,double a,double b){
  bool un=isnan(a)||isnan(b),r=false;
  if((p&1)&&!un&&a==b) r=true; if((p&2)&&!un&&a>b) r=true; if((p&4)&&!un&&a<b) r=true; if((p&8)&&un) r=true; return r;
}
// width w is the operand width for comparisons and the result width otherwise
static u64 app(int op,int w,u64 a,u64 b){
  u64 m=mask(w);
  switch(op){
    case OP_ADD:return (a+b)&m; case OP_SUB:return (a-b)&m; case OP_MUL:return (a*b)&m;
    case OP_UDIV:return b?(a/b)&m:m; case OP_UREM:return b?(a%b)&m:a;
    case OP_SDIV:{ i64 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (u64)(0-(u64)x)&m; return (u64)(x/y)&m; }
    case OP_SREM:{ i64 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
    case OP_AND:return a&b; case OP_OR:return a|b; case OP_XOR:return a^b;
    case OP_SHL:return b>=(u64)w?0:(a<<b)&m; case OP_LSHR:return b>=(u64)w?0:a>>b; case OP_ASHR:return (u64)(sx(a,w)>>(b>=(u64)w?63:b))&m;
    case OP_EQ:return a==b; case OP_NE:return a!=b; case OP_ULT:return a<b; case OP_ULE:return a<=b;
    case OP_SLT:return sx(a,w)<sx(b,w); case OP_SLE:return sx(a,w)<=sx(b,w);
    case OP_FADD:return B(D(a)+D(b)); case OP_FSUB:return B(D(a)-D(b)); case OP_FMUL:return B(D(a)*D(b)); case OP_FDIV:return B(D(a)/D(b));
    default: if(op>=OP_FCMP&&op<OP_FCMP+16) return fcmp(op-OP_FCMP,D(a),D(b));
  }
  fatal("app"); return 0;
}
static u64 appu(int op,int wi,int wo,u64 a){
  switch(op){
    case OP_ZEXT:return a; case OP_SEXT:return (u64)sx(a,wi)&mask(wo); case OP_TRUNC:return a&mask(wo);
    case OP_FNEG:return a^0x8000000000000000ull; case OP_SITOFP:return B((double)sx(a,wi)); case OP_UITOFP:return B((double)a);
    case OP_FPTOSI:return (u64)(i64)D(a)&mask(wo); case OP_FPTOUI:return (u64)D(a)&mask(wo);
  }
  fatal("appu"); return 0;
}
static inline int sup1(E e){ return SUP[N[e].sup].only; }
static bool isCmp(int op){ return (op>=OP_EQ&&op<=OP_SLE)||op>=OP_FCMP; }
static E mkite(E c,E a,E b);
static E mkun(int op,int wi,int wo,E a);
static E mkbin(int op,int w,E a,E b){
  if(isK(a)&&isK(b)) return K(app(op,w,N[a].k,N[b].k),isCmp(op)?1:w);
  int rw=isCmp(op)?1:w; u64 m=mask(w);
  if(isK(a)&&!isK(b)&&(op==OP_ADD||op==OP_MUL||op==OP_AND||op==OP_OR||op==OP_XOR||op==OP_EQ||op==OP_NE)) std::swap(a,b);
  if(isK(b)){
    u64 k=N[b].k;
    switch(op){
      case OP_ADD: case OP_SUB: case OP_OR: case OP_XOR: case OP_SHL: case OP_LSHR: case OP_ASHR: if(k==0) return a; break;
      case OP_MUL: if(k==1) return a; if(k==0) return K(0,w); break;
      case OP_AND: if(k==m) return a; if(k==0) return K(0,w); break;
      default:break;
    }
    if(op==OP_OR&&k==m) return K(m,w);
    if(op==OP_XOR&&w==1&&k==1){ // logical not
      int o=N[a].op;
      if(o==OP_EQ) return mk(OP_NE,1,N[a].a,N[a].b,0,N[a].k,N[a].sup);
      if(o==OP_NE) return mk(OP_EQ,1,N[a].a,N[a].b,0,N[a].k,N[a].sup);
      if(o==OP_XOR&&isK(N[a].b)) return N[a].a;
    }
    if(op==OP_ADD&&N[a].op==OP_ADD&&isK(N[a].b)) return mkbin(OP_ADD,w,N[a].a,K(N[N[a].b].k+k,w));
    if(op==OP_SUB) return mkbin(OP_ADD,w,a,K(0-k,w));
    if(op==OP_EQ||op==OP_NE){
      if(w==1){ bool want=(op==OP_EQ)==(k==1); return want?a:mkbin(OP_XOR,1,a,K(1,1)); }
      if(N[a].op==OP_ZEXT){ int wi=N[N[a].a].w; if(k>mask(wi)) return K(op==OP_NE,1); return mkbin(op,wi,N[a].a,K(k,wi)); }
      if(N[a].op==OP_SEXT){ int wi=N[N[a].a].w; if(((u64)sx(k,wi)&m)!=k) return K(op==OP_NE,1); return mkbin(op,wi,N[a].a,K(k,wi)); }
      if(N[a].op==OP_ADD&&isK(N[a].b)) return mkbin(op,w,N[a].a,K(k-N[N[a].b].k,w));
      if(N[a].op==OP_ITE&&isK(N[a].b)&&isK(N[a].c)){
        bool x=(N[N[a].b].k==k)==(op==OP_EQ), y=(N[N[a].c].k==k)==(op==OP_EQ); E c=N[a].a;
        if(x==y) return K(x,1); return x?c:mkbin(OP_XOR,1,c,K(1,1));
      }
    }
    if(op==OP_ULT&&k==0) return K(0,1);
    if((op==OP_ULT||op==OP_ULE)&&N[a].op==OP_ZEXT){ int wi=N[N[a].a].w; if(k>mask(wi)) return K(1,1); return mkbin(op,wi,N[a].a,K(k,wi)); }
    if((op==OP_AND)&&N[a].op==OP_ZEXT&&k>=mask(N[N[a].a].w)&&((k&mask(N[N[a].a].w))==mask(N[N[a].a].w))) return a;
  }
  if(a==b){ switch(op){ case OP_SUB: case OP_XOR: return K(0,w); case OP_AND: case OP_OR: return a; case OP_EQ: case OP_ULE: case OP_SLE: return K(1,1); case OP_NE: case OP_ULT: case OP_SLT: return K(0,1);} }
  return mk(op,rw,a,b,0,w,supUnion(N[a].sup,N[b].sup));
}
static E mkun(int op,int wi,int wo,E a){
  if(isK(a)) return K(appu(op,wi,wo,N[a].k),wo);
  if((op==OP_ZEXT||op==OP_SEXT||op==OP_TRUNC)&&wi==wo) return a;
  int o=N[a].op;
  if(op==OP_ZEXT&&o==OP_ZEXT) return mkun(OP_ZEXT,N[N[a].a].w,wo,N[a].a);
  if(op==OP_SEXT&&o==OP_ZEXT) return mkun(OP_ZEXT,N[N[a].a].w,wo,N[a].a);
  if(op==OP_SEXT&&o==OP_SEXT) return mkun(OP_SEXT,N[N[a].a].w,wo,N[a].a);
  if(op==OP_TRUNC&&(o==OP_ZEXT||o==OP_SEXT)){
    E x=N[a].a; int wx=N[x].w;
    if(wo==wx) return x; if(wo<wx) return mkun(OP_TRUNC,wx,wo,x); return mkun(o,wx,wo,x);
  }
  if(op==OP_TRUNC&&o==OP_CONCAT&&(wo%8)==0){ // little endian pieces: a=low, b=high
    E lo=N[a].a; int wl=N[lo].w; if(wo==wl) return lo; if(wo<wl) return mkun(OP_TRUNC,wl,wo,lo);
  }
  if((op==OP_ZEXT||op==OP_SEXT||op==OP_TRUNC)&&o==OP_ITE&&isK(N[a].b)&&isK(N[a].c))
    return mkite(N[a].a,K(appu(op,wi,wo,N[N[a].b].k),wo),K(appu(op,wi,wo,N[N[a].c].k),wo));
  return mk(op,wo,a,0,0,wi,N[a].sup);
}
static E mkite(E c,E a,E b){
  if(isK(c)) return N[c].k?a:b; if(a==b) return a;
  int w=N[a].w;
  if(w==1&&isK(a)&&isK(b)) return N[a].k? c: mkbin(OP_XOR,1,c,K(1,1));
  if(w==1&&isK(a)&&N[a].k) return mkbin(OP_OR,1,c,b);
  if(w==1&&isK(b)&&!N[b].k) return mkbin(OP_AND,1,c,a);
  return mk(OP_ITE,w,c,a,b,0,supUnion(N[c].sup,supUnion(N[a].sup,N[b].sup)));
}
static E mkextract(E e,int k){ // byte k (8 bit)
  int w=N[e].w;
  if(w==8&&k==0) return e;
  if(isK(e)) return K(N[e].k>>(8*k),8);
  if(N[e].op==OP_ZEXT){ int wi=N[N[e].a].w; if(8*k>=wi) return K(0,8); if(8*k+8<=wi) return mkextract(N[e].a,k); if(k==0) return mkun(OP_ZEXT,wi,8,N[e].a); }
  if(N[e].op==OP_CONCAT){ int wl=N[N[e].a].w; if(8*k<wl) return mkextract(N[e].a,k); return mkextract(N[e].b,k-wl/8); }
  if(w<8) return mkun(OP_ZEXT,w,8,e);
  return mk(OP_EXTRACT,8,e,0,0,k,N[e].sup);
}
static E mkconcat(const E*b,int n){ // b[0] least significant byte, n bytes
  if(n==1) return b[0];
  bool allk=true; u64 v=0; for(int i=0;i<n;i++){ if(!isK(b[i])) allk=false; else v|=N[b[i]].k<<(8*i);} if(allk) return K(v,8*n);
  // consecutive extracts of one expression
  if(N[b[0]].op==OP_EXTRACT&&N[b[0]].k==0){ E s=N[b[0]].a; bool ok=true; for(int i=1;i<n;i++) if(!(N[b[i]].op==OP_EXTRACT&&N[b[i]].a==s&&(int)N[b[i]].k==i)){ok=false;break;} if(ok){ if(N[s].w==8*n) return s; if(N[s].w>8*n) return mkun(OP_TRUNC,N[s].w,8*n,s);} }
  // zero high bytes
  int hi=n; while(hi>1&&isK(b[hi-1])&&N[b[hi-1]].k==0) hi--;
  if(hi<n) return mkun(OP_ZEXT,8*hi,8*n,mkconcat(b,hi));
  E lo=b[0]; for(int i=1;i<n;i++){ E h=b[i]; lo=mk(OP_CONCAT,8*(i+1),lo,h,0,0,supUnion(N[lo].sup,N[h].sup)); }
  return lo;
}
static u64 combine(const Node&n,u64 a,u64 b,u64 c){
  switch(n.op){
    case OP_ITE:return a?b:c;
    case OP_EXTRACT:return (a>>(8*n.k))&0xff;
    case OP_CONCAT:return a|(b<<N[n.a].w);
    case OP_ZEXT: case OP_SEXT: case OP_TRUNC: case OP_FNEG: case OP_SITOFP: case OP_UITOFP: case OP_FPTOSI: case OP_FPTOUI: return appu(n.op,n.k,n.w,a);
    default:return app(n.op,n.k,a,b);
  }
}
static u64* tab(E e){
  if(TAB[e]) return TAB[e];
  Node n=N[e];
  u64*t=(u64*)malloc(2048);
  if(n.op==OP_VAR) for(int i=0;i<256;i++) t[i]=i;
  else if(n.op==OP_CONST) for(int i=0;i<256;i++) t[i]=n.k;
  else if(n.op==OP_LUT) memcpy(t,LUTS[n.k],2048);
  else {
    u64*a=n.a?tab(n.a):0,*b=n.b?tab(n.b):0,*c=n.c?tab(n.c):0;
    for(int i=0;i<256;i++) t[i]=combine(n,a?a[i]:0,b?b[i]:0,c?c[i]:0);
  }
  return TAB[e]=t;
}
static u64 eval_(E e,const u8*asg){
  const Node&n=N[e];
  if(n.op==OP_CONST) return n.k; if(n.op==OP_VAR) return asg[n.k];
  int v=SUP[n.sup].only; if(v>=0) return tab(e)[asg[v]];
  if(stamp[e]==curstamp) return memo[e];
  u64 a=n.a?eval_(n.a,asg):0;
  u64 r;
  if(n.op==OP_ITE) r=a?eval_(n.b,asg):eval_(n.c,asg);
  else { u64 b=n.b?eval_(n.b,asg):0; u64 c=n.c?eval_(n.c,asg):0; r=combine(N[e],a,b,c); }
  stamp[e]=curstamp; memo[e]=r; return r;
}
static u64 eval(E e,const u8*asg){ curstamp++; return eval_(e,asg); }

// ------------------------------------------------------------------ path state
#define MAXVAR 256
struct Dom{ u64 b[4]; bool has(int x)const{return b[x>>6]>>(x&63)&1;} int cnt()const{return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]);} int first()const{ for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1;} };
static Dom dom[MAXVAR]; static int nvars; static u8 cur[MAXVAR];
struct Con{ E e; bool pos; };
static std::vector<Con> cons;
static const char* vname[MAXVAR];
static bool in_path=false;
static int curthread=-1;

static void rec(const char*kind,const char*msg){
  static char buf[4096]; int n=0;
  n+=snprintf(buf+n,sizeof buf-n,"%s|%s|",kind,msg?msg:"");
  for(int i=0;i<nvars&&n<4000;i++) n+=snprintf(buf+n,sizeof buf-n,"%02x",cur[i]);
  buf[n++]='\n';
  char p[600]; snprintf(p,sizeof p,"%s/violations.txt",outdir);
  int fd=open(p,O_WRONLY|O_APPEND|O_CREAT,0644); if(fd>=0){ ssize_t r=write(fd,buf,n); (void)r; close(fd);} 
}
static int mytoken=0; static std::vector<int> dummyv;
[[noreturn]] static void path_exit(int code){ if(mytoken) SH->tokens++; _exit(code); }
static void violation(const char*kind,const char*msg){
  long n=++SH->viols; rec(kind,msg); if(n>=MAXV) SH->abort_=1;
}
static void fatal(const char*m){ if(SH){ SH->incomplete++; rec("engine",m);} fprintf(stderr,"sym engine: %s\n",m); path_exit(3); }

// ------------------------------------------------------------------ z3
static Z3_context ctx; static Z3_sort fpsort; static Z3_ast rne,rtz; static Z3_solver z3s;
static int z3_timeout_ms=60000;
static void z3err(Z3_context c,Z3_error_code e){ fatal(Z3_get_error_msg(c,e)); }
static void z3init(){
  if(ctx) return;
  Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx,z3err);
}
static Z3_ast bv(u64 v,int w){ return Z3_mk_unsigned_int64(ctx,v,Z3_mk_bv_sort(ctx,w)); }
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(ctx,b,bv(1,1),bv(0,1)); }
static Z3_ast toFP(Z3_ast b){ if(!fpsort){ fpsort=Z3_mk_fpa_sort_double(ctx); rne=Z3_mk_fpa_rne(ctx); rtz=Z3_mk_fpa_rtz(ctx);} return Z3_mk_fpa_to_fp_bv(ctx,b,fpsort); }
static Z3_ast tr(E e);
// A floating-point operation whose value depends on few symbolic bytes is given to z3 as a table over those bytes (its
// entries computed by the evaluator) instead of as a term of the floating-point theory, whose divisions z3 takes minutes for.
// The table covers the path's present domains, which only shrink in this process and its children.
static std::vector<std::vector<int>> tabdom(const std::vector<int>&vs){
  std::vector<std::vector<int>> r; for(int v:vs){ std::vector<int> d; for(int x=0;x<256;x++) if(dom[v].has(x)) d.push_back(x); r.push_back(d); } return r;
}
static std::vector<char> ftab;   // decision per node: 0 not yet made, 1 table, 2 term
static bool isTab(E e){
  if(N[e].op<OP_FADD||N[e].op==OP_FNEG) return false;
  if(ftab.size()<=e) ftab.resize(N.size()+1024,0);
  if(ftab[e]) return ftab[e]==1;
  Sup s=SUP[N[e].sup]; double p=1; for(int v=0;v<nvars;v++) if(s.m[v>>6]>>(v&63)&1) p*=dom[v].cnt();
  bool t=p<=20000; ftab[e]=t?1:2; return t;
}
static E varE[MAXVAR];
static Z3_ast tabAst(E e,const std::vector<int>&vs,const std::vector<std::vector<int>>&ds,size_t i,u8*a){
  if(i==vs.size()) return bv(eval(e,a),N[e].w);
  Z3_ast x=tr(varE[vs[i]]); Z3_ast r=0,last=0;
  for(int k=(int)ds[i].size()-1;k>=0;k--){
    a[vs[i]]=ds[i][k]; Z3_ast y=tabAst(e,vs,ds,i+1,a);
    if(!r) r=y; else if(y!=last) r=Z3_mk_ite(ctx,Z3_mk_bvule(ctx,x,bv(ds[i][k],8)),y,r);
    last=y;
  }
  return r;
}
static Z3_ast tr(E e){
  Node n=N[e];
  if(ZA[e]) return ZA[e];
  Z3_ast r=0;
  if(isTab(e)){
    Sup s=SUP[n.sup]; std::vector<int> vs; for(int v=0;v<nvars;v++) if(s.m[v>>6]>>(v&63)&1) vs.push_back(v);
    u8 a[MAXVAR]; memcpy(a,cur,nvars); auto ds=tabdom(vs);
    r=tabAst(e,vs,ds,0,a); Z3_inc_ref(ctx,r); ZA[e]=r; return r;
  }
  if(n.op==OP_CONST) r=bv(n.k,n.w);
  else if(n.op==OP_VAR){ char nm[32]; snprintf(nm,32,"v%d",(int)n.k); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm),Z3_mk_bv_sort(ctx,8)); }
  else if(n.op==OP_LUT){
    // group the 256 entries into runs of equal values
    Z3_ast x=tr(n.a); u64*t=LUTS[n.k]; r=bv(t[255],n.w);
    for(int i=254;i>=0;i--) if(t[i]!=t[i+1]) r=Z3_mk_ite(ctx,Z3_mk_bvule(ctx,x,bv(i,8)),bv(t[i],n.w),r);
  } else {
    Z3_ast a=n.a?tr(n.a):0,b=n.b?tr(n.b):0,c=n.c?tr(n.c):0;
    switch(n.op){
      case OP_ADD:r=Z3_mk_bvadd(ctx,a,b);break;case OP_SUB:r=Z3_mk_bvsub(ctx,a,b);break;case OP_MUL:r=Z3_mk_bvmul(ctx,a,b);break;
      case OP_UDIV:r=Z3_mk_bvudiv(ctx,a,b);break;case OP_SDIV:r=Z3_mk_bvsdiv(ctx,a,b);break;case OP_UREM:r=Z3_mk_bvurem(ctx,a,b);break;case OP_SREM:r=Z3_mk_bvsrem(ctx,a,b);break;
      case OP_AND:r=Z3_mk_bvand(ctx,a,b);break;case OP_OR:r=Z3_mk_bvor(ctx,a,b);break;case OP_XOR:r=Z3_mk_bvxor(ctx,a,b);break;
      case OP_SHL:r=Z3_mk_bvshl(ctx,a,b);break;case OP_LSHR:r=Z3_mk_bvlshr(ctx,a,b);break;case OP_ASHR:r=Z3_mk_bvashr(ctx,a,b);break;
      case OP_EQ:r=b2v(Z3_mk_eq(ctx,a,b));break;case OP_NE:r=b2v(Z3_mk_not(ctx,Z3_mk_eq(ctx,a,b)));break;
      case OP_ULT:r=b2v(Z3_mk_bvult(ctx,a,b));break;case OP_ULE:r=b2v(Z3_mk_bvule(ctx,a,b));break;
      case OP_SLT:r=b2v(Z3_mk_bvslt(ctx,a,b));break;case OP_SLE:r=b2v(Z3_mk_bvsle(ctx,a,b));break;
      case OP_ZEXT:r=Z3_mk_zero_ext(ctx,n.w-(int)n.k,a);break;case OP_SEXT:r=Z3_mk_sign_ext(ctx,n.w-(int)n.k,a);break;
      case OP_TRUNC:r=Z3_mk_extract(ctx,n.w-1,0,a);break;
      case OP_EXTRACT:r=Z3_mk_extract(ctx,8*n.k+7,8*n.k,a);break;
      case OP_CONCAT:r=Z3_mk_concat(ctx,b,a);break;
      case OP_ITE:r=Z3_mk_ite(ctx,Z3_mk_eq(ctx,a,bv(1,1)),b,c);break;
      case OP_FADD:r=(toFP(a),Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_add(ctx,rne,toFP(a),toFP(b))));break;
      case OP_FSUB:r=(toFP(a),Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sub(ctx,rne,toFP(a),toFP(b))));break;
      case OP_FMUL:r=(toFP(a),Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_mul(ctx,rne,toFP(a),toFP(b))));break;
      case OP_FDIV:r=(toFP(a),Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_div(ctx,rne,toFP(a),toFP(b))));break;
      case OP_FNEG:r=Z3_mk_bvxor(ctx,a,bv(0x8000000000000000ull,64));break;
      case OP_SITOFP:toFP(bv(0,64));r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,rne,a,fpsort));break;
      case OP_UITOFP:toFP(bv(0,64));r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_unsigned(ctx,rne,a,fpsort));break;
      case OP_FPTOSI:r=(toFP(a),Z3_mk_fpa_to_sbv(ctx,rtz,toFP(a),n.w));break;
      case OP_FPTOUI:r=(toFP(a),Z3_mk_fpa_to_ubv(ctx,rtz,toFP(a),n.w));break;
      default: if(n.op>=OP_FCMP&&n.op<OP_FCMP+16){
        int p=n.op-OP_FCMP; Z3_ast x=toFP(a),y=toFP(b); Z3_ast o[4]; int k=0;
        if(p&1) o[k++]=Z3_mk_fpa_eq(ctx,x,y); if(p&2) o[k++]=Z3_mk_fpa_gt(ctx,x,y); if(p&4) o[k++]=Z3_mk_fpa_lt(ctx,x,y);
        if(p&8){ Z3_ast z[2]={Z3_mk_fpa_is_nan(ctx,x),Z3_mk_fpa_is_nan(ctx,y)}; o[k++]=Z3_mk_or(ctx,2,z);} 
        r=b2v(k?Z3_mk_or(ctx,k,o):Z3_mk_false(ctx));
      } else fatal("tr op");
    }
  }
  Z3_inc_ref(ctx,r); ZA[e]=r; return r;
}
static void domAst(Z3_solver s,int v,const Dom&d,E ve){
  if(d.cnt()==256) return;
  Z3_ast x=tr(ve); std::vector<Z3_ast> o;
  for(int i=0;i<256;){ if(!d.has(i)){i++;continue;} int j=i; while(j+1<256&&d.has(j+1)) j++;
    if(i==j) o.push_back(Z3_mk_eq(ctx,x,bv(i,8))); else { Z3_ast z[2]={Z3_mk_bvuge(ctx,x,bv(i,8)),Z3_mk_bvule(ctx,x,bv(j,8))}; o.push_back(Z3_mk_and(ctx,2,z)); }
    i=j+1; }
  Z3_solver_assert(ctx,s,Z3_mk_or(ctx,o.size(),o.data()));
}
static inline bool svHas(int s,int v){ return SUP[s].m[v>>6]>>(v&63)&1; }

// Is (path condition && e==val) satisfiable?  On success `out` is a full assignment.
static bool feasible_(E e,bool val,u8*out,bool forceZ3);
static long xcheck_every=20000;
static bool feasible(E e,bool val,u8*out,bool forceZ3=false){
  long q0=SH->q_enum; bool r=feasible_(e,val,out,forceZ3);
  // a share of the queries decided by the finite-domain procedure is put to z3 as well: the answers must agree
  if(!forceZ3&&xcheck_every>0&&SH->q_enum!=q0&&q0%xcheck_every==0){
    // (in a throw-away child, so that z3's heap does not weigh on later forks)
    pid_t p=fork();
    if(p==0){ u8 o2[MAXVAR]; bool z=feasible_(e,val,o2,true); SH->q_xcheck++; if(z!=r){ SH->incomplete++; rec("engine","finite-domain procedure and z3 disagree"); } _exit(0); }
    if(p>0){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} }
  }
  return r;
}
static bool feasible_(E e,bool val,u8*out,bool forceZ3){
  int v1=sup1(e); 
  // closure of related variables
  Sup s=SUP[N[e].sup]; std::vector<char> used(cons.size(),0); bool ch=true; std::vector<Con> rel;
  while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!used[i]){ const Sup&t=SUP[N[cons[i].e].sup]; bool hit=false; for(int k=0;k<4;k++) if(t.m[k]&s.m[k]) hit=true; if(hit){ used[i]=1; rel.push_back(cons[i]); for(int k=0;k<4;k++) s.m[k]|=t.m[k]; ch=true; } } }
  if(v1>=0&&rel.empty()&&!forceZ3){
    u64*t=tab(e); SH->q_enum++;
    for(int i=0;i<256;i++) if(dom[v1].has(i)&&(t[i]!=0)==val){ memcpy(out,cur,nvars); out[v1]=i; return true; }
    return false;
  }
  std::vector<int> vs; double prod=1; for(int v=0;v<nvars;v++) if(s.m[v>>6]>>(v&63)&1){ vs.push_back(v); prod*=dom[v].cnt(); }
  if(v1>=0&&!forceZ3){ u64*t=tab(e); bool any=false; for(int i=0;i<256&&!any;i++) if(dom[v1].has(i)&&(t[i]!=0)==val) any=true; if(!any){ SH->q_enum++; return false; } }
  if(prod<=4096&&!forceZ3){
    SH->q_enum++;
    std::vector<std::vector<u8>> ds(vs.size()); for(size_t i=0;i<vs.size();i++) for(int x=0;x<256;x++) if(dom[vs[i]].has(x)) ds[i].push_back(x);
    std::vector<size_t> ix(vs.size(),0); u8 a[MAXVAR]; memcpy(a,cur,nvars);
    for(;;){
      for(size_t i=0;i<vs.size();i++) a[vs[i]]=ds[i][ix[i]];
      bool ok=(eval(e,a)!=0)==val; for(auto&c:rel){ if(!ok) break; ok=(eval(c.e,a)!=0)==c.pos; }
      if(ok){ memcpy(out,a,nvars); return true; }
      size_t i=0; while(i<vs.size()&&++ix[i]==ds[i].size()) ix[i++]=0; if(i==vs.size()) return false;
    }
  }
  // SMT
  z3init();
  struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0);
  std::vector<Z3_ast> as; 
  { Z3_ast x=tr(e); as.push_back(Z3_mk_eq(ctx,x,bv(val,1))); }
  for(auto&c:rel) as.push_back(Z3_mk_eq(ctx,tr(c.e),bv(c.pos,1)));
  Z3_solver so; 
  static Z3_solver qfbv=0;
  bool fp=false; { std::vector<E> st{e}; for(auto&c:rel) st.push_back(c.e); std::vector<char> seen(N.size(),0); while(!st.empty()){E x=st.back();st.pop_back(); if(seen[x])continue; seen[x]=1; if(isTab(x)) continue; if(N[x].op>=OP_FADD&&N[x].op!=OP_FNEG)fp=true; for(E y:{N[x].a,N[x].b,N[x].c}) if(y) st.push_back(y);} }
  if(fp) so=Z3_mk_solver(ctx); 
  else { if(!qfbv){ qfbv=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,qfbv);} so=qfbv; }
  Z3_solver_inc_ref(ctx,so);
  Z3_solver_push(ctx,so);
  for(int v:vs) domAst(so,v,dom[v],varE[v]);
  for(auto a:as) Z3_solver_assert(ctx,so,a);
  Z3_lbool r=Z3_solver_check(ctx,so);
  bool sat=false;
  SH->q_z3++;
  if(r==Z3_L_TRUE){
    sat=true; SH->z3_sat++;
    Z3_model m=Z3_solver_get_model(ctx,so); Z3_model_inc_ref(ctx,m);
    memcpy(out,cur,nvars);
    for(int v:vs){ Z3_ast r2; uint64_t x; if(!Z3_model_eval(ctx,m,tr(varE[v]),true,&r2)||!Z3_get_numeral_uint64(ctx,r2,&x)) fatal("z3 model"); out[v]=x; }
    Z3_model_dec_ref(ctx,m);
    // the model must satisfy the constraints under our own evaluator: cross-check of the encoding
    bool ok=(eval(e,out)!=0)==val; for(auto&c:rel) ok=ok&&((eval(c.e,out)!=0)==c.pos);
    if(!ok) fatal("z3 model does not satisfy the evaluator");
  } else if(r==Z3_L_FALSE) SH->z3_unsat++;
  else { SH->z3_unknown++; fatal("z3 unknown"); }
  Z3_solver_pop(ctx,so,1); Z3_solver_dec_ref(ctx,so);
  clock_gettime(CLOCK_MONOTONIC,&t1); SH->z3_us+=(t1.tv_sec-t0.tv_sec)*1000000+(t1.tv_nsec-t0.tv_nsec)/1000;
  return sat;
}
static void addCon(E e,bool val){
  if(isK(e)){ if((N[e].k!=0)!=val) fatal("contradiction"); return; }
  int v=sup1(e);
  if(v>=0){ u64*t=tab(e); for(int i=0;i<256;i++) if((t[i]!=0)!=val) dom[v].b[i>>6]&=~(1ull<<(i&63)); return; }
  cons.push_back(Con{e,val});
}
static void reset_timer(){
  struct itimerval it={{0,0},{hang_s,0}}; setitimer(ITIMER_VIRTUAL,&it,0);
}
// returns true in the child (new path), false in the parent
static bool fork_path(){
  if(SH->abort_) path_exit(0);
  SH->forks++;
  bool tok=false; long t=SH->tokens; while(t>0){ if(SH->tokens.compare_exchange_weak(t,t-1)){tok=true;break;} }
  fflush(0);
  pid_t p=fork();
  if(p<0){ if(tok) SH->tokens++; SH->incomplete++; rec("engine","fork failed"); path_exit(3); }
  if(p==0){ mytoken=tok; reset_timer(); return true; }
  reset_timer();
  if(!tok){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(WIFSIGNALED(st)&&WTERMSIG(st)!=SIGVTALRM){ SH->crashes++; SH->incomplete++; rec("engine","child killed by signal"); } if(SH->abort_) path_exit(0); }
  else while(waitpid(-1,0,WNOHANG)>0){}
  return false;
}
extern "C" {
int __symx_br(E s){
  if(isK(s)) return N[s].k!=0;
  SH->branches++;
  bool v0=eval(s,cur)!=0; u8 o[MAXVAR];
  if(!feasible(s,!v0,o)){ return v0; }
  if(fork_path()){ memcpy(cur,o,nvars); addCon(s,!v0); return !v0; }
  addCon(s,v0); return v0;
}
u64 __symx_conc(E s,int w){
  if(isK(s)) return N[s].k;
  SH->concs++; int n=0;
  for(;;){
    u64 v=eval(s,cur); E q=mkbin(OP_EQ,w,s,K(v,w));
    u8 o[MAXVAR];
    if(isK(q)||!feasible(q,false,o)){ return v; }
    if(++n>100000) fatal("too many values to concretise");
    if(fork_path()){ addCon(q,true); return v; }
    addCon(q,false); memcpy(cur,o,nvars);
  }
}
static E ex(u64 v,E s,int w){ return s?s:K(v,w); }
static inline E simpK(E e){ return e; }
E __symx_bin(int op,int w,u64 a,E sa,u64 b,E sb){ return mkbin(op,w,ex(a,sa,w),ex(b,sb,w)); }
E __symx_un(int op,int wi,int wo,E s){ return mkun(op,wi,wo,s); }
// calls through a mismatched (implicit) prototype may change the width of a value
E __symx_arg(E s,int w){ int k=N[s].w; if(k==w) return s; return k>w?mkun(OP_TRUNC,k,w,s):mkun(OP_ZEXT,k,w,s); }
E __symx_ite(int w,int c,E sc,u64 a,E sa,u64 b,E sb){ (void)c; return mkite(sc,ex(a,sa,w),ex(b,sb,w)); }
}
// ------------------------------------------------------------------ shadow memory
struct Gran{ E e[64]; };
static std::unordered_map<u64,Gran*> SM;
static u64 lastg=~0ull; static Gran*lastp;
static inline Gran* gran(u64 a,bool mkit){
  u64 g=a>>6; if(g==lastg) return lastp;
  auto it=SM.find(g);
  if(it==SM.end()){ if(!mkit) return nullptr; Gran*p=(Gran*)calloc(1,sizeof(Gran)); SM[g]=p; __sym_filter[g&0xfffff]=1; lastg=g; lastp=p; return p; }
  lastg=g; lastp=it->second; return lastp;
}
static inline E shb(u64 a){ if(!__sym_filter[(a>>6)&0xfffff]) return 0; Gran*p=gran(a,false); return p?p->e[a&63]:0; }
static void setb(u64 a,E e){ if(e&&isK(e)){ *(u8*)a=N[e].k; e=0; } Gran*p=gran(a,e!=0); if(p) p->e[a&63]=e; }
// race tracking
struct Acc{ u8 rd,wr,lrd,lwr; u64 lock; };   // lrd/lwr: accesses while holding the mutex `lock`
static std::unordered_map<u64,Acc> ACC; static u64 stklo,stkhi; static u8 livemask; static u64 held; static int heldn;
static void track(u64 a,u64 n,bool wr){
  for(u64 i=0;i<n;i++){
    u64 x=a+i; if(x>=stklo&&x<stkhi) continue;
    if(curthread<0){ auto it=ACC.find(x); if(it!=ACC.end()){ u8 w=it->second.wr, r=it->second.rd; if(!held||held!=it->second.lock){ w|=it->second.lwr; r|=it->second.lrd; } if((w&livemask)||(wr&&(r&livemask))){ violation("race","main thread conflicts with a live worker"); path_exit(0);} } continue; }
    Acc&c=ACC[x]; u8 me=1<<curthread; SH->races_checked++;
    u8 w=c.wr, r=c.rd; if(!held||held!=c.lock){ w|=c.lwr; r|=c.lrd; }
    u8 ow=w&~me&livemask, orr=r&~me&livemask;
    if(ow||(wr&&orr)){ violation("race",ow?(wr?"write/write conflict between worker threads":"read/write conflict between worker threads"):"write/read conflict between worker threads"); path_exit(0); }
    if(held&&!(c.lock&&c.lock!=held)){ c.lock=held; if(wr) c.lwr|=me; else c.lrd|=me; } else if(wr) c.wr|=me; else c.rd|=me;
  }
}
extern "C" {
E __symx_load(void*p,u64 sz,int w){
  u64 a=(u64)p; if(__sym_track) track(a,sz,false);
  E b[8]; bool any=false; for(u64 i=0;i<sz;i++){ b[i]=shb(a+i); if(b[i]) any=true; }
  if(!any) return 0;
  for(u64 i=0;i<sz;i++) if(!b[i]) b[i]=K(((u8*)p)[i],8);
  E e=mkconcat(b,sz); if(w<(int)sz*8) e=mkun(OP_TRUNC,sz*8,w,e); return e;
}
void __symx_store(void*p,u64 sz,int w,E s){
  u64 a=(u64)p; if(__sym_track) track(a,sz,true);
  if(!s){ for(u64 i=0;i<sz;i++) if(__sym_filter[((a+i)>>6)&0xfffff]) setb(a+i,0); return; }
  if(w<(int)sz*8) s=mkun(OP_ZEXT,w,sz*8,s);
  for(u64 i=0;i<sz;i++){ setb(a+i,mkextract(s,i)); } // called after the machine store: concrete bytes are patched into memory
}
void __symx_clear(void*p,u64 n,int wr){
  u64 a=(u64)p; if(__sym_track&&wr) track(a,n,true);
  if(__sym_track&&!wr&&n<(1<<20)) for(u64 i=0;i<n;i++) ACC.erase(a+i);
  for(u64 g=a>>6;g<=(a+n-1)>>6&&n;g++) if(__sym_filter[g&0xfffff]){ Gran*q=gran(g<<6,false); if(!q) continue; for(int i=0;i<64;i++){ u64 x=(g<<6)+i; if(x>=a&&x<a+n) q->e[i]=0; } }
}
static bool anysym(u64 a,u64 n){ if(!n) return false; for(u64 g=a>>6;g<=(a+n-1)>>6;g++) if(__sym_filter[g&0xfffff]) return true; return false; }
void __symx_memcpy(void*d,void*s,u64 n){
  if(!n) return;
  if(__sym_track){ track((u64)s,n,false); track((u64)d,n,true); }
  bool x=anysym((u64)s,n),y=anysym((u64)d,n); if(!x&&!y) return;
  std::vector<E> t(n); for(u64 i=0;i<n;i++) t[i]=shb((u64)s+i);
  for(u64 i=0;i<n;i++){ u64 q=(u64)d+i; if(t[i]){ Gran*g=gran(q,true); g->e[q&63]=t[i]; } else if(__sym_filter[(q>>6)&0xfffff]){ Gran*g=gran(q,false); if(g) g->e[q&63]=0; } }
}
void __symx_memset(void*d,E s,u64 n){
  if(__sym_track) track((u64)d,n,true);
  if(s&&!isK(s)){ for(u64 i=0;i<n;i++) setb((u64)d+i,s); return; }
  __symx_clear(d,n,0);
}
void __symx_concmem(void*p,u64 n){
  u64 a=(u64)p; if(__sym_track) track(a,n,false);
  for(u64 i=0;i<n;i++){ E e=shb(a+i); if(e){ u64 v=__symx_conc(e,8); *(u8*)(a+i)=v; setb(a+i,0);} }
}
static u8 scratch[64][16] __attribute__((aligned(64))); static int scr;
static const u64 LUTSPAN=1<<16;
void* __symx_ldptr(E s,u64 sz){
  if(isK(s)) return (void*)N[s].k;
  int v=sup1(s);
  if(v>=0&&!__sym_track){
    u64*t=tab(s); u64 lo=~0ull,hi=0; for(int i=0;i<256;i++) if(dom[v].has(i)){ if(t[i]<lo)lo=t[i]; if(t[i]>hi)hi=t[i]; }
    bool ok=hi-lo<LUTSPAN&&lo>4096;
    // the spread must be proportionate to the index range (one object): a null or unrelated pointer falls through
    if(ok&&__asan_region_is_poisoned){ for(int i=0;i<256&&ok;i++) if(dom[v].has(i)&&__asan_region_is_poisoned((void*)t[i],sz)) ok=false; }
    if(ok) for(int i=0;i<256&&ok;i++) if(dom[v].has(i)) for(u64 k=0;k<sz;k++) if(shb(t[i]+k)){ok=false;break;}
    if(ok){
      u64 tmp[256]; u64 def=0; bool first=true,same=true;
      for(int i=0;i<256;i++){ tmp[i]=0; if(dom[v].has(i)){ u64 x=0; memcpy(&x,(void*)t[i],sz); tmp[i]=x; if(first){def=x;first=false;} else if(x!=def) same=false; } }
      u8*q=scratch[scr++&63]; 
      memcpy(q,&def,sz);
      if(same){ for(u64 k=0;k<sz;k++) setb((u64)q+k,0); return q; }
      for(int i=0;i<256;i++) if(!dom[v].has(i)) tmp[i]=def;
      E l=0; for(size_t i=0;i<LUTS.size();i++) if(!memcmp(LUTS[i],tmp,2048)){ l=i+1; break; }
      if(!l){ u64*z=(u64*)malloc(2048); memcpy(z,tmp,2048); LUTS.push_back(z); l=LUTS.size(); }
      E e=mk(OP_LUT,sz*8,varE[v],0,0,l-1,N[varE[v]].sup);
      for(u64 k=0;k<sz;k++) setb((u64)q+k,mkextract(e,k));
      return q;
    }
  }
  return (void*)__symx_conc(s,64);
}
u64 __symx_divisor(u64 b,E sb,u64 a,E sa,int w){
  (void)a;(void)sa;
  if(!sb){ if((b&mask(w))==0){ violation("crash","integer division by zero"); path_exit(0);} return b; }
  E z=mkbin(OP_EQ,w,sb,K(0,w));
  if(isK(z)? N[z].k : __symx_br(z)){ violation("crash","integer division by zero"); path_exit(0); }
  return 1;
}
// ------------------------------------------------------------------ harness API
#define ARG(i,val,w) (__sym_callee?__sym_args[i]:0)
static bool called(void*f){ bool r=__sym_callee==f; __sym_callee=0; return r; }
static unsigned char newvar(int lo,int hi){
  if(nvars>=MAXVAR) fatal("too many symbolic bytes");
  int v=nvars++; Sup s={{0,0,0,0},1,v}; s.m[v>>6]|=1ull<<(v&63); int si=supIntern(s);
  E e=mk(OP_VAR,8,0,0,0,v,si); varE[v]=e; memset(&dom[v],0,sizeof dom[v]);
  for(int i=lo;i<=hi;i++) dom[v].b[i>>6]|=1ull<<(i&63);
  cur[v]=lo; if(lo==0&&hi==255) cur[v]='a';
  __sym_ret[0]=e; long mx=SH->maxvars; while(nvars>mx&&!SH->maxvars.compare_exchange_weak(mx,nvars)){}
  return cur[v];
}
unsigned char sym_byte(void){ called((void*)sym_byte); return newvar(0,255); }
unsigned char sym_range(int lo,int hi){ called((void*)sym_range); return newvar(lo,hi); }
void sym_assume(int c){
  bool k=called((void*)sym_assume); E s=k?__sym_args[0]:0;
  if(!s){ if(!c){ SH->pruned++; path_exit(0);} return; }
  E b=mkbin(OP_NE,32,s,K(0,32));
  if(isK(b)){ if(!N[b].k){ SH->pruned++; path_exit(0);} return; }
  u8 o[MAXVAR]; if(eval(b,cur)) { addCon(b,true); return; }
  if(!feasible(b,true,o)){ SH->pruned++; path_exit(0); }
  memcpy(cur,o,nvars); addCon(b,true);
}
void sym_assert(int c,const char*msg){
  bool k=called((void*)sym_assert); E s=k?__sym_args[0]:0;
  SH->asserts++;
  if(!s){ if(!c){ violation("assert",msg); path_exit(0);} return; }
  E b=mkbin(OP_NE,32,s,K(0,32));
  if(isK(b)){ if(!N[b].k){ violation("assert",msg); path_exit(0);} return; }
  SH->asserts_sym++; u8 o[MAXVAR];
  if(feasible(b,false,o,true)){ memcpy(cur,o,nvars); violation("assert",msg); path_exit(0); }
}
void sym_fail(const char*msg){ called((void*)sym_fail); SH->asserts++; violation("assert",msg); path_exit(0); }
void sym_known(const char*id){ called((void*)sym_known); if(++SH->known>400) path_exit(0);
  char p[600]; snprintf(p,sizeof p,"%s/known.txt",outdir); int fd=open(p,O_WRONLY|O_APPEND|O_CREAT,0644); if(fd>=0){ char b[2200]; int n=snprintf(b,sizeof b,"%s|",id); for(int i=0;i<nvars&&n<2100;i++) n+=snprintf(b+n,sizeof b-n,"%02x",cur[i]); b[n++]='\n'; ssize_t r=write(fd,b,n);(void)r; close(fd);} 
  path_exit(0); }
void sym_reach(int id){ called((void*)sym_reach); SH->reach[id&255]++; }
void sym_stop(void){ called((void*)sym_stop); SH->paths++; path_exit(0); }
int sym_issym(long v){ (void)v; bool k=called((void*)sym_issym); __sym_ret[0]=0; return k&&__sym_args[0]&&!isK(__sym_args[0]); }
long sym_conc(long v){ bool k=called((void*)sym_conc); E s=k?__sym_args[0]:0; __sym_ret[0]=0; return s?(long)__symx_conc(s,64):v; }
// pick the value of the current model without forking or constraining (only for reports)
void sym_sample(const char*tag,const void*p,int n){
  called((void*)sym_sample);
  long k=SH->samples; if(k>=12) return; 
  // spread: take path number 2^j
  long pn=SH->paths; if(pn&(pn-1)) return;
  SH->samples++;
  char b[8192]; int m=snprintf(b,sizeof b,"%s|",tag);
  for(int i=0;i<n&&m<1900;i++){ E e=shb((u64)p+i); int c=e?(int)eval(e,cur):((u8*)p)[i]; if(c>=32&&c<127&&c!='\\') b[m++]=c; else m+=snprintf(b+m,sizeof b-m,"\\x%02x",c); }
  b[m++]='|'; for(int i=0;i<nvars&&m<6000;i++) m+=snprintf(b+m,sizeof b-m,"%02x",cur[i]);
  b[m++]='\n'; char f[600]; snprintf(f,sizeof f,"%s/samples.txt",outdir); int fd=open(f,O_WRONLY|O_APPEND|O_CREAT,0644); if(fd>=0){ ssize_t r=write(fd,b,m);(void)r; close(fd);} 
}
void sym_dump(const char*tag,const void*p,int n){ called((void*)sym_dump); 
  char b[4096]; int m=snprintf(b,sizeof b,"%s|",tag);
  for(int i=0;i<n&&m<3900;i++){ E e=shb((u64)p+i); int c=e?(int)eval(e,cur):((u8*)p)[i]; if(c>=32&&c<127) b[m++]=c; else m+=snprintf(b+m,sizeof b-m,"\\x%02x",c); }
  b[m++]='\n'; ssize_t r=write(2,b,m);(void)r; }
int sym_symbolic(void){ called((void*)sym_symbolic); __sym_ret[0]=0; return 1; }
// ---- threads
void sym_track_begin(void){ called((void*)sym_track_begin); __sym_track=1; ACC.clear(); livemask=0; curthread=-1; stklo=stkhi=0; }
void sym_track_end(void){ called((void*)sym_track_end); __sym_track=0; }
void sym_thread_enter(int id,void*sp){ called((void*)sym_thread_enter); curthread=id; livemask|=1<<id; stkhi=(u64)sp; stklo=stkhi-(256ull<<20); }
void sym_thread_leave(void){ called((void*)sym_thread_leave); curthread=-1; stklo=stkhi=0; }
void sym_thread_lock(void*m,int on){ called((void*)sym_thread_lock); if(on){ if(!heldn++) held=(u64)m; } else if(heldn>0&&!--heldn) held=0; }
void sym_thread_join(int id){ called((void*)sym_thread_join); livemask&=~(1<<id); }
// ---- allocation
static u8 fillpat=0xAB;
static E argE(void*f,int i,bool k){ (void)f; return k?__sym_args[i]:0; }
static u64 argc_(bool k,int i,u64 v,int w){ E s=k?__sym_args[i]:0; return s?__symx_conc(s,w):v; }
static void fresh(void*p,u64 n){ if(!p) return; __symx_clear(p,n,0); }
void* __m_malloc(size_t n){ bool k=called((void*)__m_malloc); n=argc_(k,0,n,64); void*p=malloc(n); fresh(p,n); if(p&&n<=65536) memset(p,fillpat,n); __sym_ret[0]=0; return p; }
void* __m_calloc(size_t a,size_t b){ bool k=called((void*)__m_calloc); E s1=argE(0,1,k); a=argc_(k,0,a,64); if(s1) b=__symx_conc(s1,64); void*p=calloc(a,b); fresh(p,a*b); __sym_ret[0]=0; return p; }
void* __m_realloc(void*o,size_t n){ bool k=called((void*)__m_realloc); E s1=argE(0,1,k); o=(void*)argc_(k,0,(u64)o,64); if(s1) n=__symx_conc(s1,64);
  size_t os=o?malloc_usable_size(o):0; void*p=malloc(n); fresh(p,n); if(o){ size_t m=os<n?os:n; __symx_memcpy(p,o,m); memcpy(p,o,m); fresh(o,os); free(o);} __sym_ret[0]=0; return p; }
void __m_free(void*p){ bool k=called((void*)__m_free); p=(void*)argc_(k,0,(u64)p,64); if(p&&!__asan_region_is_poisoned) fresh(p,malloc_usable_size(p)); free(p); }
void* __m__Znwm(size_t n){ bool k=called((void*)__m__Znwm); n=argc_(k,0,n,64); void*p=malloc(n?n:1); fresh(p,n); if(n<=65536) memset(p,fillpat,n); __sym_ret[0]=0; return p; }
void* __m__Znam(size_t n){ bool k=called((void*)__m__Znam); n=argc_(k,0,n,64); void*p=malloc(n?n:1); fresh(p,n); if(n<=65536) memset(p,fillpat,n); __sym_ret[0]=0; return p; }
void __m__ZdlPv(void*p){ bool k=called((void*)__m__ZdlPv); p=(void*)argc_(k,0,(u64)p,64); if(p&&!__asan_region_is_poisoned) fresh(p,malloc_usable_size(p)); free(p); }
void __m__ZdaPv(void*p){ bool k=called((void*)__m__ZdaPv); p=(void*)argc_(k,0,(u64)p,64); if(p&&!__asan_region_is_poisoned) fresh(p,malloc_usable_size(p)); free(p); }
void __m__ZdlPvm(void*p,size_t){ bool k=called((void*)__m__ZdlPvm); p=(void*)argc_(k,0,(u64)p,64); if(p&&!__asan_region_is_poisoned) fresh(p,malloc_usable_size(p)); free(p); }
void __m__ZdaPvm(void*p,size_t){ bool k=called((void*)__m__ZdaPvm); p=(void*)argc_(k,0,(u64)p,64); if(p&&!__asan_region_is_poisoned) fresh(p,malloc_usable_size(p)); free(p); }
void* __m_memcpy(void*d,const void*s,size_t n){ bool k=called((void*)__m_memcpy); E a1=argE(0,1,k),a2=argE(0,2,k); d=(void*)argc_(k,0,(u64)d,64); if(a1) s=(void*)__symx_conc(a1,64); if(a2) n=__symx_conc(a2,64); __symx_memcpy(d,(void*)s,n); memcpy(d,s,n); __sym_ret[0]=0; return d; }
void* __m_memmove(void*d,const void*s,size_t n){ bool k=called((void*)__m_memmove); E a1=argE(0,1,k),a2=argE(0,2,k); d=(void*)argc_(k,0,(u64)d,64); if(a1) s=(void*)__symx_conc(a1,64); if(a2) n=__symx_conc(a2,64); __symx_memcpy(d,(void*)s,n); memmove(d,s,n); __sym_ret[0]=0; return d; }
void* __m_memset(void*d,int c,size_t n){ bool k=called((void*)__m_memset); E a1=argE(0,1,k),a2=argE(0,2,k); d=(void*)argc_(k,0,(u64)d,64); if(a2) n=__symx_conc(a2,64); memset(d,c,n); __symx_memset(d,a1?mkun(OP_TRUNC,32,8,a1):0,n); __sym_ret[0]=0; return d; }
int sym_exit_ok=0;
void __m_exit(int){ called((void*)__m_exit); if(!sym_exit_ok) violation("crash","exit() called"); else { SH->paths++; SH->reach[255]++; } path_exit(0); }
void __m_abort(void){ called((void*)__m_abort); violation("crash","abort() called"); path_exit(0); }
void __m___assert_fail(const char*a,const char*,unsigned,const char*){ called((void*)__m___assert_fail); violation("crash",a); path_exit(0); }

void __asan_on_error(){ if(SH&&in_path){ violation("asan","memory error (AddressSanitizer)"); path_exit(0);} }
}
static void onsig(int s){
  if(s==SIGVTALRM) violation("hang","no progress: CPU limit exceeded on one path");
  else { char m[64]; snprintf(m,64,"signal %d (%s)",s,s==SIGSEGV?"segmentation fault":s==SIGFPE?"arithmetic":s==SIGABRT?"abort":"bus/ill"); violation("crash",m); }
  path_exit(0);
}
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int main(int argc,char**argv){
  (void)argc;(void)argv;
  if(getenv("SYM_OUT")) snprintf(outdir,sizeof outdir,"%s",getenv("SYM_OUT"));
  if(getenv("SYM_MAXV")) MAXV=atol(getenv("SYM_MAXV"));
  if(getenv("SYM_HANG")) hang_s=atol(getenv("SYM_HANG"));
  if(getenv("SYM_XCHECK")) xcheck_every=atol(getenv("SYM_XCHECK"));
  if(getenv("SYM_FILL")) fillpat=atoi(getenv("SYM_FILL"));
  int jobs=getenv("SYM_JOBS")?atoi(getenv("SYM_JOBS")):8; int limit=getenv("SYM_TIME")?atoi(getenv("SYM_TIME")):600;
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(SH) Shared();
  SH->tokens=jobs-1;
  Sup s0={{0,0,0,0},0,-1}; SUP.push_back(s0); SUPH[Key{0,0,0}]=0;
  prctl(PR_SET_CHILD_SUBREAPER,1); 
  double t0=now();
  pid_t root=fork();
  if(root==0){
    setpgid(0,0);
    { int r=prctl(PR_SET_PDEATHSIG,SIGKILL); (void)r; }
    struct rlimit rl={512ull<<20,512ull<<20}; setrlimit(RLIMIT_STACK,&rl);
    static u8 alt[65536]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
    struct sigaction sa={}; sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK;
    int sigs[]={SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGVTALRM}; for(int s:sigs) sigaction(s,&sa,0);
    in_path=true; mytoken=1; reset_timer();
    sym_main(); SH->paths++; path_exit(0);
  }
  setpgid(root,root);
  bool timeout=false; int st;
  for(;;){
    pid_t p=waitpid(-1,&st,WNOHANG);
    if(p>0){ if(WIFSIGNALED(st)&&!timeout){ SH->incomplete++; rec("engine","path process killed"); } continue; }
    if(p<0&&errno==ECHILD) break;
    if(!timeout&&now()-t0>limit){ timeout=true; SH->incomplete++; kill(-root,SIGKILL); }
    usleep(2000);
  }
  char f[600]; snprintf(f,sizeof f,"%s/stats.json",outdir); FILE*o=fopen(f,"w");
  fprintf(o,"{\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"concretisations\":%ld,\"pruned\":%ld,\"queries_enum\":%ld,\"queries_z3\":%ld,\"queries_crosschecked\":%ld,\"z3_sat\":%ld,\"z3_unsat\":%ld,\"z3_unknown\":%ld,\"z3_s\":%.3f,\"asserts\":%ld,\"asserts_symbolic\":%ld,\"violations\":%ld,\"known\":%ld,\"incomplete\":%ld,\"timeout\":%d,\"races_checked\":%ld,\"max_symbolic_bytes\":%ld,\"wall_s\":%.3f,\"reach\":{",
    SH->paths.load(),SH->forks.load(),SH->branches.load(),SH->concs.load(),SH->pruned.load(),SH->q_enum.load(),SH->q_z3.load(),SH->q_xcheck.load(),SH->z3_sat.load(),SH->z3_unsat.load(),SH->z3_unknown.load(),SH->z3_us.load()/1e6,SH->asserts.load(),SH->asserts_sym.load(),SH->viols.load(),SH->known.load(),SH->incomplete.load(),(int)timeout,SH->races_checked.load(),SH->maxvars.load(),now()-t0);
  bool first=true; for(int i=0;i<256;i++) if(SH->reach[i]){ fprintf(o,"%s\"%d\":%ld",first?"":",",i,SH->reach[i].load()); first=false; }
  fprintf(o,"}}\n"); fclose(o);
  return 0;
}

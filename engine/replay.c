// Native (uninstrumented) implementation of the harness API: replays one solver model.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sym.h"
static unsigned char*m; static int n,pos; static const char*lastknown;
static void init(void){ if(m) return; const char*h=getenv("SYM_MODEL"); if(!h) h=""; n=strlen(h)/2; m=malloc(n+1); for(int i=0;i<n;i++){ unsigned x; sscanf(h+2*i,"%2x",&x); m[i]=x; } }
static unsigned char next(int lo){ init(); return pos<n?m[pos++]:(pos++,lo); }
unsigned char sym_byte(void){ return next('a'); }
unsigned char sym_range(int lo,int hi){ unsigned char c=next(lo); if(c<lo||c>hi){ printf("REPLAY-BAD range\n"); _exit(3);} return c; }
void sym_assume(int c){ if(!c){ printf("REPLAY-PRUNED\n"); fflush(0); _exit(0);} }
void sym_assert(int c,const char*msg){ if(!c){ printf("REPLAY-VIOLATION %s\n",msg); fflush(0); _exit(42);} }
void sym_fail(const char*msg){ sym_assert(0,msg); }
void sym_known(const char*id){ printf("REPLAY-KNOWN %s\n",id); fflush(0); _exit(0); }
void sym_reach(int id){ (void)id; }
void sym_stop(void){ printf("REPLAY-OK\n"); fflush(0); _exit(0); }
int sym_issym(long v){ (void)v; return 0; }
long sym_conc(long v){ return v; }
void sym_sample(const char*t,const void*p,int k){ sym_dump(t,p,k); }
void sym_dump(const char*t,const void*p,int k){ printf("%s: ",t); for(int i=0;i<k;i++){ unsigned char c=((unsigned char*)p)[i]; if(c>=32&&c<127) putchar(c); else printf("\\x%02x",c);} printf("\n"); }
int sym_symbolic(void){ return 0; }
void sym_track_begin(void){} void sym_track_end(void){}
void sym_thread_enter(int id,void*sp){(void)id;(void)sp;} void sym_thread_leave(void){} void sym_thread_join(int id){(void)id;}
static char fname[64]; char*sym_file_name(void){ return fname; }
void sym_file_set(const void*d,long k){ strcpy(fname,"replay_input.json"); FILE*f=fopen(fname,"wb"); fwrite(d,1,k,f); fclose(f); }
int sym_exit_ok, sym_thread_order, sym_open_files;
static void atex(void){ if(sym_exit_ok){ printf("REPLAY-OK\n"); fflush(0); _exit(0);} }
int main(void){ atexit(atex); sym_main(); sym_exit_ok=0; printf("REPLAY-OK\n"); return 0; }

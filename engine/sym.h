// Harness API.  Under the engine these create/inspect symbolic values; in a replay
// build (replay.c) the same calls read the concrete bytes of a solver model.
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
unsigned char sym_byte(void);                 // any byte
unsigned char sym_range(int lo,int hi);       // any value lo..hi (0..255)
void sym_assume(int c);
void sym_assert(int c,const char*msg);
void sym_fail(const char*msg);
void sym_known(const char*id);                // this path is inside a listed known finding: stop
void sym_reach(int id);                       // reachability witness
void sym_stop(void);                          // end this path
int sym_issym(long v);
long sym_conc(long v);                        // fork over every feasible value
void sym_sample(const char*tag,const void*p,int n);
void sym_dump(const char*tag,const void*p,int n);
int sym_symbolic(void);
void sym_track_begin(void); void sym_track_end(void);
void sym_thread_enter(int id,void*sp); void sym_thread_leave(void); void sym_thread_join(int id); void sym_thread_lock(void*m,int on);
void sym_file_set(const void*data,long len);  // content served by fopen() for every path
char*sym_file_name(void);
extern int sym_exit_ok;
extern int sym_thread_order;                  // 0: run at create, 1: run at join in creation order, 2: at first join in reverse order
int sym_main(void);
#ifdef __cplusplus
}
#endif
#endif

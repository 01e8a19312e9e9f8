// Deterministic simulator core: runs the threads of one process one at a time under a seeded scheduler and
// replaces the libc boundary (threads, futexes, clocks, stdio, pipes, file system, child processes, randomness).
#define _GNU_SOURCE
#include "simcore.h"
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <time.h>
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <spawn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/futex.h>

// ---------- raw system calls ----------
static inline long rsys(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
static inline long rsys_errno(long n,long a,long b,long c,long d,long e,long f){
  long r=rsys(n,a,b,c,d,e,f); if(r<0&&r>-4096){errno=(int)-r;return -1;} return r; }
static void fwait(uint32_t*a,uint32_t v){ rsys(SYS_futex,(long)a,FUTEX_WAIT_PRIVATE,v,0,0,0); }
static void fwake(uint32_t*a){ rsys(SYS_futex,(long)a,FUTEX_WAKE_PRIVATE,1,0,0,0); }

// ---------- state ----------
enum { T_FREE=0,T_RUN,T_BLOCK,T_DONE };
enum { W_NONE=0,W_FUTEX,W_READ,W_WRITE,W_POLL,W_JOIN,W_SLEEP,W_CHILD };
#define MAXT 48
#define ENV0 64
#define NENV 8          /* 64 send 65 recv 66 timer 67 child 68.. misc */
#define ENV_TIMER 66
typedef struct task {
  int id, st, why; uint32_t baton;
  uint64_t edges; uint64_t prio;
  uint32_t* fut; uint32_t bits; int woken, timedout; uint64_t deadline; uint64_t futseq;
  int idx; struct pollfd* pfds; int npfd; int join;
  pthread_t th; void*(*fn)(void*); void* arg; int yields;
} task;
typedef struct { uint8_t* buf; uint32_t cap; uint32_t len, r; int wclosed, rclosed, err; uint64_t total; } vpipe;
enum { V_FREE=0,V_PR,V_PW,V_NULL,V_FILE,V_ERR,V_LOGFILE,V_DIR };
typedef struct { int kind, idx, nonblock; uint64_t off; } vfd;
#define NPIPE 16
#define NVFD 128
#define VFD0 1000

static __thread task* me __attribute__((tls_model("local-exec")));
static __thread int insim __attribute__((tls_model("local-exec")));
static simcfg_t C; static simout_t* O;
static task T[MAXT]; static int nt;
static vpipe P[NPIPE]; static vfd F[NVFD];
static int active;
static uint64_t idle_points; static uint64_t rng; static uint64_t npick, npoint, nedges_total, now_ns, futseq;
static uint64_t idle_edges; static int64_t countdown=1<<30, chunk; static uint64_t next_rand_preempt;
static size_t ipick; static int timer_streak;
static uint32_t fcount[FC_N]; static uint64_t pct_points[64]; static int npct; static uint64_t prio_low;
static int env_flag[NENV]; // 0 off,1 on,2 stdout nonempty,3 stdin space
static int child_alive, child_status, child_spawned;
static pthread_key_t exit_key; static int exit_key_ok;
int sim_debug;
// Rust callbacks
extern void sim_env_run(int id); extern int sim_env_quiescent(void); extern void sim_env_finish(void); extern int sim_env_spawn(const char* prog,int outp,int errp);

static uint64_t rnd(void){ uint64_t z=(rng+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static uint64_t rndn(uint64_t n){ return n? rnd()%n:0; }

// ---------- coverage guards ----------
static uint8_t* cov; static uint32_t nguard; static uint8_t cov_local[1<<19];
uint32_t sim_nguards(void){ return nguard; }
void sim_set_cov(uint8_t* p){ cov=p; }

// ---------- real functions ----------
#define REAL(name) static __typeof__(&name) r_##name
REAL(pthread_create); REAL(pthread_join); REAL(exit); REAL(opendir); REAL(readdir64); REAL(closedir); REAL(waitpid); REAL(posix_spawnp); REAL(posix_spawn); REAL(realpath); REAL(sysconf);
static int (*r_getguard)(const pthread_attr_t*,size_t*);
static int (*r_addup2)(posix_spawn_file_actions_t*,int,int);
static int inited;
static void init_real(void){ if(inited) return; inited=1;
#define R(n) r_##n=(void*)dlsym(RTLD_NEXT,#n)
  R(pthread_create);R(pthread_join);R(exit);R(opendir);R(readdir64);R(closedir);R(waitpid);R(posix_spawnp);R(posix_spawn);R(realpath);R(sysconf);
  r_getguard=(void*)dlsym(RTLD_NEXT,"pthread_attr_getguardsize"); r_addup2=(void*)dlsym(RTLD_NEXT,"posix_spawn_file_actions_adddup2"); }
__attribute__((constructor)) static void ctor(void){ init_real(); if(!cov) cov=cov_local; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a,uint32_t* b){ if(a==b||*a) return; if(!cov) cov=cov_local; for(;a<b;a++) *a=++nguard<(1u<<19)?nguard:0; }

// ---------- events ----------
static void evlog(const char* fmt,...){ if(!C.verbose||!O) return; va_list ap; va_start(ap,fmt); if(O->evlen+256<EVCAP){ int k=vsnprintf(O->ev+O->evlen,250,fmt,ap); if(k>249)k=249; if(k>0)O->evlen+=k; O->ev[O->evlen++]='\n'; } va_end(ap); }
static void hashev(uint64_t k,uint64_t a,uint64_t b){ uint64_t h=O->hash; h^=k*0x9E3779B97F4A7C15ull; h*=0x100000001B3ull; h^=a+0x7f4a7c15; h*=0x100000001B3ull; h^=b; h*=0x100000001B3ull; h^=h>>29; O->hash=h; }
static const char* wn[]={"run","futex","read","write","poll","join","sleep","child"};

__attribute__((noreturn)) static void finish(int kind,int code,const char* msg){
  insim++;
  if(!O->finish){
    O->finish=kind; O->code=code; if(msg) snprintf(O->finish_msg,sizeof O->finish_msg,"%s",msg);
    size_t o=0; uint64_t live=0; for(int i=0;i<nt;i++){ if(T[i].st!=T_DONE&&T[i].st!=T_FREE){ if(i!=0) live++; }
      if(o+48<sizeof O->states) o+=snprintf(O->states+o,48,"%d:%s%s ",i,T[i].st==T_DONE?"done":T[i].st==T_RUN?"run":wn[T[i].why],me==&T[i]?"*":""); }
    O->live_threads=live;
    O->edges=nedges_total; O->points=npoint; O->simtime=now_ns; O->nthreads=nt; O->picks_total=npick;
    evlog("finish kind=%d code=%d %s [%s]",kind,code,msg?msg:"",O->states);
    if(kind!=FIN_OOM&&kind!=FIN_ABORT) sim_env_finish();
  }
  rsys(SYS_exit_group,0,0,0,0,0,0); for(;;);
}
void sim_stop(const char* msg){ finish(FIN_STOP,0,msg); }

// ---------- edge accounting ----------
static void flush_edges(void){ int64_t used=chunk-countdown; if(used>0&&me){ me->edges+=used; nedges_total+=used; idle_edges+=used; now_ns+=used*2; } chunk=countdown; }
static void arm(void){ // compute how many edges until the next interesting point for current task
  flush_edges(); int64_t c=1000000;
  if(C.max_idle_edges>idle_edges){ int64_t d=C.max_idle_edges-idle_edges+1; if(d<c)c=d; }
  if(C.replay){ for(size_t i=0;i<C.n_preempts;i++) if(C.preempts[i].task==me->id&&C.preempts[i].edge>me->edges){ int64_t d=C.preempts[i].edge-me->edges; if(d<c)c=d; } }
  else if(C.edge_gap){ if(next_rand_preempt<=nedges_total) next_rand_preempt=nedges_total+1+rndn(2*C.edge_gap); int64_t d=next_rand_preempt-nedges_total; if(d<c)c=d; }
  chunk=countdown=c; }

// ---------- scheduling ----------
static int pipe_readable(int i){ return P[i].len>0||P[i].wclosed||P[i].err; }
static int pipe_writable(int i){ return P[i].len<P[i].cap||P[i].rclosed; }
static vfd* getv(int fd){ int i=fd>=VFD0?fd-VFD0+3:fd; if(fd<0||(fd>2&&fd<VFD0)||i>=NVFD) return 0; return F[i].kind?&F[i]:0; }
static int isv(int fd){ return fd>=0&&(fd<=2||(fd>=VFD0&&fd<VFD0+NVFD)); }
static int poll_ready(struct pollfd* p,int n){ int c=0; for(int i=0;i<n;i++){ p[i].revents=0; vfd* v=getv(p[i].fd); if(p[i].fd<0) continue; if(!v){p[i].revents=POLLNVAL;c++;continue;}
    int r=0; if(v->kind==V_PR){ if((p[i].events&POLLIN)&&P[v->idx].len>0) r|=POLLIN; if(P[v->idx].wclosed) r|=POLLHUP; }
    else if(v->kind==V_PW){ if((p[i].events&POLLOUT)&&pipe_writable(v->idx)) r|=POLLOUT; if(P[v->idx].rclosed) r|=POLLERR; }
    else r|=p[i].events&(POLLIN|POLLOUT);
    p[i].revents=r; if(r)c++; } return c; }
static int ready(task* t){
  if(t->st==T_RUN) return 1; if(t->st!=T_BLOCK) return 0;
  switch(t->why){ case W_FUTEX: return t->woken||t->timedout; case W_READ: return pipe_readable(t->idx); case W_WRITE: return pipe_writable(t->idx);
    case W_POLL: return t->timedout||poll_ready(t->pfds,t->npfd)>0; case W_JOIN: return T[t->join].st==T_DONE; case W_SLEEP: return t->timedout||t->deadline<=now_ns; case W_CHILD: return child_spawned&&!child_alive; }
  return 0; }
static int have_deadline(void){ for(int i=0;i<nt;i++) if(T[i].st==T_BLOCK&&T[i].deadline&&!ready(&T[i])) return 1; return 0; }
static void fire_timer(void){ int b=-1; for(int i=0;i<nt;i++) if(T[i].st==T_BLOCK&&T[i].deadline&&!ready(&T[i])&&(b<0||T[i].deadline<T[b].deadline)) b=i;
  if(b>=0){ if(T[b].deadline>now_ns){ now_ns=T[b].deadline; } T[b].timedout=1; O->idle_jumps++; evlog("timer fires for %d",b); } }
static int env_on(int e){ switch(env_flag[e]){ case 1: return 1; case 2: return P[1].len>0||P[1].wclosed; case 3: return P[0].len<P[0].cap||P[0].rclosed; } if(env_flag[e]>=16&&env_flag[e]<16+NPIPE){ int p=env_flag[e]-16; return P[p].len<P[p].cap||P[p].rclosed; } return 0; }
void sim_env_set(int id,int f){ env_flag[id-ENV0]=f; }

static void rec_pick(uint64_t idx,int id){ if(O->n_pick<MAXDEV){ O->picks[O->n_pick].idx=idx; O->picks[O->n_pick++].id=id; } else O->overflow=1; }
static int in(int*c,int n,int id){ for(int i=0;i<n;i++) if(c[i]==id) return 1; return 0; }

static int choose(int*c,int n,int dflt,int cur_ok,int yielding){
  int ch=dflt; uint64_t idx=npick++;
  if(n==1) return c[0];
  if(C.replay){ while(ipick<C.n_picks&&C.picks[ipick].idx<idx) ipick++; if(ipick<C.n_picks&&C.picks[ipick].idx==idx&&in(c,n,C.picks[ipick].id)) ch=C.picks[ipick].id; }
  else {
    int d[MAXT+NENV],m=0; for(int i=0;i<n;i++) if(!(c[i]==C.starve_id&&idx>=C.starve_from&&idx<C.starve_to)) d[m++]=c[i]; if(!m){ memcpy(d,c,sizeof(int)*n); m=n; }
    if(C.mode==1&&!yielding){ // PCT priorities
      for(int k=0;k<npct;k++) if(pct_points[k]==idx&&me) me->prio=prio_low--;
      uint64_t bp=0; int b=-1; for(int i=0;i<m;i++){ uint64_t p=d[i]<ENV0?T[d[i]].prio:(uint64_t)(1000+((C.seed>>(8*(d[i]-ENV0)))&0xff)*256); if(b<0||p>bp){bp=p;b=d[i];} } ch=b;
      if(rndn(65536)<C.p_switch/8) ch=d[rndn(m)];
    } else if(cur_ok&&in(d,m,dflt)&&rndn(65536)>=C.p_switch) ch=dflt;
    else { uint64_t tot=0; for(int i=0;i<m;i++) tot+=d[i]<ENV0?16:C.w_env; if(!tot) ch=d[rndn(m)]; else { uint64_t x=rndn(tot); for(int i=0;i<m;i++){ uint64_t w=d[i]<ENV0?16:C.w_env; if(x<w){ch=d[i];break;} x-=w; } } }
    if(ch!=dflt) rec_pick(idx,ch);
  }
  return ch; }

static void go(task* t){ // transfer control to t (current thread keeps waiting unless t==me)
  task* self=me; flush_edges();
  if(t->st==T_BLOCK){ t->st=T_RUN; }
  if(t==self){ arm(); return; }
  O->switches++; hashev(1,self?self->id:99,t->id);
  evlog("switch %d -> %d",self?self->id:-1,t->id);
  int done=!self||self->st==T_DONE; uint32_t* mb=self?&self->baton:0;
  __atomic_store_n(&t->baton,1,__ATOMIC_SEQ_CST); fwake(&t->baton);
  if(done) return;
  while(!__atomic_load_n(mb,__ATOMIC_SEQ_CST)) fwait(mb,0);
  __atomic_store_n(mb,0,__ATOMIC_SEQ_CST);
  chunk=countdown=0; arm(); }

// Pick who runs next. cur_ok: the current task may continue. Returns when the current task holds the baton again.
static void resched(int cur_ok,int yielding){
  insim++;
  for(;;){
    if(idle_points++>2000000) finish(FIN_BUDGET,0,"two million scheduling points without the outside world being involved");
    if(npoint++>C.max_points) finish(FIN_BUDGET,0,"scheduling-point budget exhausted");
    now_ns+=200;
    int c[MAXT+NENV],n=0,nreal=0; int start=me?me->id+1:0;
    for(int k=0;k<nt;k++){ int i=(start+k)%nt; if(T[i].id==0) {} if(me==&T[i]){ if(cur_ok&&!yielding) c[n++]=i; else if(!cur_ok&&ready(&T[i])) c[n++]=i; } else if(ready(&T[i])) c[n++]=i; }
    nreal=n;
    if(env_on(1)) c[n++]=ENV0+1; if(env_on(3)) c[n++]=ENV0+3; if(env_on(4)) c[n++]=ENV0+4; if(env_on(0)) c[n++]=ENV0; 
    int timers=have_deadline(); if(timers&&!(yielding&&n==0)) c[n++]=ENV_TIMER;
    if(yielding&&n==0){ break; } // nobody else: keep going
    int only_timer=timers&&n==1;
    if(n==0||(only_timer&&timer_streak>=4)){
      flush_edges();
      if(sim_env_quiescent()){ timer_streak=0; hashev(7,0,0); continue; }
      if(n==0||timer_streak>200) finish(FIN_DEADLOCK,0,"no thread can run and the client is idle");
    }
    int dflt; if(cur_ok&&!yielding) dflt=me->id; else dflt=c[0]; (void)nreal;
    int ch=choose(c,n,dflt,cur_ok&&!yielding,yielding);
    if(ch>=ENV0){ hashev(2,ch,0); evlog("env %d",ch); flush_edges(); if(ch==ENV_TIMER){ timer_streak++; fire_timer(); } else { timer_streak=0; idle_edges=0; idle_points=0; sim_env_run(ch); } continue; }
    timer_streak=only_timer?timer_streak:0;
    if(me&&ch==me->id){ if(me->st==T_BLOCK) me->st=T_RUN; break; }
    go(&T[ch]); if(!me||me->st==T_DONE) return; break;
  }
  if(me) arm();
  insim--; }

static void point(int kind,uint64_t a){ flush_edges(); hashev(3+kind,me->id,a); resched(1,0); }
static void block(int why){ me->st=T_BLOCK; me->why=why; me->timedout=0; flush_edges(); hashev(4,me->id,why); evlog("%d blocks on %s",me->id,wn[why]); resched(0,0); me->deadline=0; }
static void progress(void){ idle_edges=0; }

static void edge_slow(void){
  insim++; task* t=me; flush_edges(); chunk=countdown=0;
  if(idle_edges>=C.max_idle_edges) finish(FIN_HANG,0,"a thread executed its whole step budget without any input, output or blocking");
  if(nedges_total>=C.max_edges) finish(FIN_BUDGET,0,"total step budget exhausted");
  int target=-1,hit=0;
  if(C.replay){ for(size_t i=0;i<C.n_preempts;i++) if(C.preempts[i].task==t->id&&C.preempts[i].edge==t->edges){ hit=1; target=C.preempts[i].to; } }
  else if(C.edge_gap&&nedges_total>=next_rand_preempt) hit=1;
  if(hit){
    int c[MAXT],n=0; for(int i=0;i<nt;i++) if(&T[i]!=t&&ready(&T[i])) c[n++]=i;
    int envc[NENV],ne=0; if(env_on(1)) envc[ne++]=ENV0+1; if(env_on(3)) envc[ne++]=ENV0+3; if(env_on(0)) envc[ne++]=ENV0;
    if(!C.replay){ uint64_t tot=n*16+ne*C.w_env; if(tot){ uint64_t x=rndn(tot); if(x<(uint64_t)n*16) target=c[x/16]; else { uint64_t y=(x-n*16)/(C.w_env?C.w_env:1); target=envc[y<(uint64_t)ne?y:0]; } }
      next_rand_preempt=nedges_total+1+rndn(2*C.edge_gap); }
    if(target>=0&&(in(c,n,target)||in(envc,ne,target))){
      if(!C.replay){ if(O->n_pre<MAXDEV){ O->pre[O->n_pre].task=t->id; O->pre[O->n_pre].to=target; O->pre[O->n_pre++].edge=t->edges; } else O->overflow=1; }
      O->preempts++; hashev(5,t->id,target); evlog("preempt %d at edge %lu -> %d",t->id,(unsigned long)t->edges,target);
      npoint++;
      if(target>=ENV0) sim_env_run(target); else go(&T[target]);
    }
  }
  arm(); insim--; }
static int64_t ref_left; // step budget of oracle code running outside the simulation
void sim_ref_budget(int64_t n){ ref_left=n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g){
  if(!active){ if(ref_left>0&&--ref_left==0) rsys(SYS_exit_group,77,0,0,0,0,0); return; }
  if(insim||!me) return; cov[*g]=1; if(--countdown<=0) edge_slow(); }

// ---------- faults ----------
static const fault_t* fault(int cls){ uint32_t n=fcount[cls]++; for(size_t i=0;i<C.n_faults;i++) if(C.faults[i].cls==cls&&C.faults[i].nth==n){ O->fired[cls]++; if(C.faults[i].kind<8) O->fired_kind[C.faults[i].kind]++; hashev(6,cls,n); evlog("fault cls=%d nth=%u kind=%d arg=%ld",cls,n,C.faults[i].kind,(long)C.faults[i].arg);
    if(C.faults[i].kind==FK_SLOW){ me->deadline=now_ns+C.faults[i].arg; block(W_SLEEP); return 0; }
    return &C.faults[i]; } return 0; }

// ---------- API for the harness ----------
void sim_begin(const simcfg_t* c,simout_t* o){
  init_real(); C=*c; O=o; memset(T,0,sizeof T); nt=0; memset(P,0,sizeof P); memset(F,0,sizeof F); memset(fcount,0,sizeof fcount); memset(env_flag,0,sizeof env_flag);
  npick=npoint=nedges_total=futseq=0; idle_points=0; now_ns=1000000000000ull; idle_edges=0; ipick=0; timer_streak=0; chunk=countdown=0; next_rand_preempt=0; child_alive=child_spawned=0;
  rng=C.seed^0xD1B54A32D192ED03ull; prio_low=900; npct=0; for(int i=0;i<C.pct_depth&&i<64;i++) pct_points[npct++]=rndn(C.pct_len?C.pct_len:1);
  O->hash=0xcbf29ce484222325ull; if(!exit_key_ok){ extern void sim_exit_dtor(void*); pthread_key_create(&exit_key,sim_exit_dtor); exit_key_ok=1; } }
int sim_pipe(int i,uint32_t cap){ P[i].buf=mmap(0,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); P[i].cap=cap; return i; }
void sim_fd(int fd,int kind,int idx){ int i=fd>=VFD0?fd-VFD0+3:fd; F[i].kind=kind; F[i].idx=idx; F[i].nonblock=0; F[i].off=0; }
uint32_t sim_pipe_len(int i){ return P[i].len; }
uint32_t sim_pipe_space(int i){ return P[i].cap-P[i].len; }
uint32_t sim_push(int i,const uint8_t* b,uint32_t n){ vpipe*p=&P[i]; if(p->rclosed) return n; uint32_t k=0; while(k<n&&p->len<p->cap){ p->buf[(p->r+p->len)%p->cap]=b[k++]; p->len++; } p->total+=k; return k; }
uint32_t sim_pop(int i,uint8_t* b,uint32_t n){ vpipe*p=&P[i]; uint32_t k=0; while(k<n&&p->len){ b[k++]=p->buf[p->r]; p->r=(p->r+1)%p->cap; p->len--; } return k; }
void sim_close_w(int i){ P[i].wclosed=1; } void sim_close_r(int i){ P[i].rclosed=1; }
int sim_pipe_rclosed(int i){ return P[i].rclosed; }
int sim_pipe_wclosed(int i){ return P[i].wclosed; }
void sim_child_exit(int st){ child_alive=0; child_status=st; }
void sim_advance(uint64_t ns){ now_ns+=ns; }
uint64_t sim_now(void){ return now_ns; }
uint64_t sim_points(void){ return npoint; }
uint64_t sim_edges(void){ return nedges_total; }
void sim_log(const uint8_t* b,uint32_t n){ if(O->loglen+n<=LOGCAP){ memcpy(O->log+O->loglen,b,n); O->loglen+=n; } else O->overflow=2; }
void sim_note(const char* s){ evlog("%s",s); }
void sim_enter(void){ insim++; } void sim_leave(void){ insim--; }
int sim_in_sut(void){ return active&&me&&!insim; }
// A harness-level schedule point for workload code (counts as progress)
void sim_yield_point(int kind){ if(active&&me&&!insim){ progress(); point(10+kind,0); } }
uint32_t sim_fault_errno(int cls){ if(!(active&&me)) return 0; const fault_t* f=fault(cls); return f&&f->kind==FK_ERRNO?(uint32_t)f->arg:0; }

// ---------- threads ----------
#define STACK_BASE 0x200000000000ul
static void* tramp(void* p){ task* t=p; me=t; insim=0; while(!__atomic_load_n(&t->baton,__ATOMIC_SEQ_CST)) fwait(&t->baton,0); __atomic_store_n(&t->baton,0,__ATOMIC_SEQ_CST);
  pthread_setspecific(exit_key,(void*)1); insim++; chunk=countdown=0; arm(); insim--; void* r=t->fn(t->arg); return r; }
void sim_exit_dtor(void* v){ if(!me) return; uintptr_t k=(uintptr_t)v; if(k<3){ pthread_setspecific(exit_key,(void*)(k+1)); return; }
  insim++; flush_edges(); me->st=T_DONE; hashev(8,me->id,0); evlog("%d exits",me->id); progress(); 
  // hand over without coming back
  resched(0,0); insim=1; }
static int spawn(pthread_t* out,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
  if(nt>=MAXT) return EAGAIN; task* t=&T[nt]; memset(t,0,sizeof *t); t->id=nt++; t->st=T_RUN; t->fn=fn; t->arg=arg; t->prio=1000+rndn(65000);
  size_t sz=8<<20; if(at) pthread_attr_getstacksize(at,&sz); sz=(sz+0xffff)&~0xfffful; uintptr_t base=STACK_BASE+(uintptr_t)t->id*(128ul<<20);
  void* m=mmap((void*)base,sz+65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(m==MAP_FAILED) return EAGAIN; mprotect(m,65536,PROT_NONE);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a,(char*)m+65536,sz); int ds; if(at&&!pthread_attr_getdetachstate(at,&ds)) pthread_attr_setdetachstate(&a,ds);
  int r=r_pthread_create(&t->th,&a,tramp,t); pthread_attr_destroy(&a); if(r){ t->st=T_DONE; return r; } *out=t->th; return 0; }
int pthread_create(pthread_t* out,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
  init_real(); if(!active||!me||insim){ if(active&&!me&&nt==0){ int r=spawn(out,at,fn,arg); return r; } return r_pthread_create(out,at,fn,arg); }
  insim++; const fault_t* f=fault(FC_THREAD); if(f&&f->kind==FK_ERRNO){ insim--; return (int)f->arg; }
  int r=spawn(out,at,fn,arg); evlog("%d creates thread %d",me->id,nt-1); progress(); insim--; if(!r) point(11,nt-1); return r; }
int pthread_join(pthread_t th,void** rv){ init_real(); if(active&&me&&!insim){ int k=-1; for(int i=0;i<nt;i++) if(T[i].th==th&&T[i].fn) k=i; if(k>=0&&T[k].st!=T_DONE){ me->join=k; block(W_JOIN); } } return r_pthread_join(th,rv); }
// Activate: called in the forked child by its only thread; the next pthread_create becomes task 0 and starts running.
void sim_activate(void){ active=1; }
void sim_start_wait(void){ // start task 0 and park this (harness) thread forever
  insim++; __atomic_store_n(&T[0].baton,1,__ATOMIC_SEQ_CST); fwake(&T[0].baton); uint32_t z=0; for(;;) fwait(&z,0); }
pid_t gettid(void){ if(active&&me) return 1000+me->id; return (pid_t)rsys(SYS_gettid,0,0,0,0,0,0); }
int sched_yield(void){ if(!active||!me||insim) return rsys_errno(SYS_sched_yield,0,0,0,0,0,0); flush_edges(); hashev(9,me->id,0); resched(1,1); return 0; }

// ---------- futex & misc syscalls ----------
static uint64_t ts2ns(const struct timespec* t){ return (uint64_t)t->tv_sec*1000000000ull+t->tv_nsec; }
#define REALTIME_BASE 1700000000000000000ull
static int64_t mono_jump, real_jump;
long sim_syscall(long n,long a,long b,long c,long d,long e,long f) __asm__("syscall");
long sim_syscall(long n,long a,long b,long c,long d,long e,long f){
  if(active&&me&&n==SYS_gettid) return 1000+me->id;
  if(active&&n==SYS_getrandom){ uint8_t* p=(void*)a; for(long i=0;i<b;i++) p[i]=(uint8_t)(0x5a+i*7); return b; } // harness callbacks too: they share the threads' hash keys
  if(!active||!me||insim) return rsys_errno(n,a,b,c,d,e,f);
  if(n==SYS_futex){ int op=b&127; uint32_t* u=(uint32_t*)a;
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
      point(12,0);
      const fault_t* ft=fault(FC_FUTEX_WAIT);
      if(__atomic_load_n(u,__ATOMIC_SEQ_CST)!=(uint32_t)c){ errno=EAGAIN; return -1; }
      if(ft&&ft->kind==FK_SPURIOUS) return 0;
      if(ft&&ft->kind==FK_ERRNO){ errno=EINTR; return -1; }
      me->fut=u; me->bits=op==FUTEX_WAIT_BITSET?(uint32_t)f:~0u; me->woken=0; me->futseq=++futseq; me->deadline=0; O->futex_waits++;
      const struct timespec* ts=(void*)d; if(ts){ uint64_t x=ts2ns(ts); if(op==FUTEX_WAIT) x+=now_ns; else if(b&FUTEX_CLOCK_REALTIME) x=x>REALTIME_BASE?x-REALTIME_BASE:1; if(x<=now_ns){ errno=ETIMEDOUT; return -1; } me->deadline=x; }
      block(W_FUTEX); int w=me->woken; me->fut=0; if(!w){ errno=ETIMEDOUT; return -1; } return 0; }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ long k=0; uint32_t bits=op==FUTEX_WAKE_BITSET?(uint32_t)f:~0u;
      while(k<(long)(int)c){ int bst=-1; for(int i=0;i<nt;i++) if(T[i].st==T_BLOCK&&T[i].why==W_FUTEX&&T[i].fut==u&&!T[i].woken&&!T[i].timedout&&(T[i].bits&bits)&&(bst<0||T[i].futseq<T[bst].futseq)) bst=i; if(bst<0) break; T[bst].woken=1; k++; }
      point(13,k); return k; }
    return rsys_errno(n,a,b,c,d,e,f); }
  return rsys_errno(n,a,b,c,d,e,f); }
ssize_t getrandom(void* p,size_t n,unsigned fl){ if(!active) return rsys_errno(SYS_getrandom,(long)p,n,fl,0,0,0); memset(p,0x5a,n); return n; }
int clock_gettime(clockid_t c,struct timespec* t){
  if(!active||!me||insim) return (int)rsys_errno(SYS_clock_gettime,c,(long)t,0,0,0,0);
  flush_edges(); const fault_t* f=fault(FC_CLOCK); if(f&&f->kind==FK_JUMP){ if(f->arg>0) now_ns+=f->arg; else real_jump+=f->arg; } now_ns+=50;
  uint64_t v=now_ns; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) v+=REALTIME_BASE+real_jump; t->tv_sec=v/1000000000ull; t->tv_nsec=v%1000000000ull; (void)mono_jump; return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec* rq,struct timespec* rm){ if(!active||!me||insim){ long r=rsys(SYS_clock_nanosleep,c,fl,(long)rq,(long)rm,0,0); return r<0?-r:0; }
  uint64_t x=ts2ns(rq); if(fl&TIMER_ABSTIME){ if(c==CLOCK_REALTIME) x-=REALTIME_BASE; } else x+=now_ns; me->deadline=x; block(W_SLEEP); return 0; }
int nanosleep(const struct timespec* rq,struct timespec* rm){ if(!active||!me||insim) return rsys_errno(SYS_nanosleep,(long)rq,(long)rm,0,0,0,0); return clock_nanosleep(CLOCK_MONOTONIC,0,rq,rm); }
int sched_getaffinity(pid_t p,size_t sz,cpu_set_t* s){ if(!active||!me||insim){ long r=rsys_errno(SYS_sched_getaffinity,p,sz,(long)s,0,0,0); if(r>=0){ memset((char*)s+r,0,sz-r); return 0; } return -1; }
  memset(s,0,sz); for(int i=0;i<C.n_cpus;i++) CPU_SET_S(i,sz,s); return 0; }
long sysconf(int n){ init_real(); if(active&&me&&!insim&&(n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF)) return C.n_cpus; return r_sysconf(n); }

int pthread_attr_getguardsize(const pthread_attr_t* __restrict a,size_t* __restrict n){ init_real(); int r=r_getguard(a,n); if(active&&me&&!r&&!*n) *n=65536; return r; } // task stacks come with their own guard area

// ---------- process end ----------
void exit(int c){ init_real(); if(active&&me) finish(FIN_EXIT,c,"exit"); r_exit(c); __builtin_unreachable(); }
void _exit(int c){ if(active&&me&&!insim) finish(FIN_EXIT,c,"_exit"); rsys(SYS_exit_group,c,0,0,0,0,0); __builtin_unreachable(); }
void abort(void){ if(active&&me) finish(FIN_ABORT,134,"abort"); rsys(SYS_kill,rsys(SYS_getpid,0,0,0,0,0,0),SIGABRT,0,0,0,0); rsys(SYS_exit_group,134,0,0,0,0,0); __builtin_unreachable(); }
void sim_main_returned(int c){ finish(FIN_EXIT,c,"main returned"); }

// ---------- file system ----------
static const char PFX[]="/simfs"; static int issim(const char* p){ return p&&!strncmp(p,PFX,6)&&(p[6]=='/'||p[6]==0); }
static int fs_log,fs_untyped; void sim_fs(int log,int untyped){ fs_log=log; fs_untyped=untyped; }
void sim_vnode_hide(int i,int h){ ((vnode_t*)C.vnodes)[i].pad=h; }
// what is written to stderr and to files, for the oracle (one W line per 1000 bytes)
static int sink; void sim_sink(int on){ sink=on; }
static char made[16][256]; static int n_made;
static int ismade(const char* p){ for(int i=0;i<n_made;i++) if(!strcmp(made[i],p)) return 1; return 0; }
static void sinklog(char to,const uint8_t* d,size_t n){ if(!sink) return; for(size_t i=0;i<n;i+=1000){ char b[2100]; int k=snprintf(b,64,"{\"t\":\"W\",\"to\":\"%c\",\"h\":\"",to); for(size_t j=i;j<n&&j<i+1000;j++) k+=snprintf(b+k,3,"%02x",d[j]); k+=snprintf(b+k,8,"\"}\n"); sim_log((uint8_t*)b,k); } }
// which path a call that an injected error hit was about
static void fflog(int cls,const char* p){ if(!fs_log) return; char b[2300]; int n=snprintf(b,64,"{\"t\":\"ff\",\"cls\":%d,\"p\":\"",cls); for(;*p&&n<2200;p++) n+=snprintf(b+n,3,"%02x",(unsigned char)*p); n+=snprintf(b+n,8,"\"}\n"); sim_log((uint8_t*)b,n); }
static int vlook(const char* p){ char b[1024]; size_t n=0; for(const char* s=p;*s&&n<1023;){ if(*s=='/'&&(s[1]=='/'||s[1]==0)){ s++; continue; } if(s[0]=='/'&&s[1]=='.'&&(s[2]=='/'||!s[2])){ s+=2; continue; } b[n++]=*s++; } b[n]=0; for(size_t i=0;i<C.n_vnodes;i++) if(C.vnodes[i].kind!=2&&!C.vnodes[i].pad&&!strcmp(C.vnodes[i].path,b)) return (int)i; return -1; }
static int newfd(int kind,int idx){ for(int i=3;i<NVFD;i++) if(!F[i].kind){ F[i].kind=kind; F[i].idx=idx; F[i].nonblock=0; F[i].off=0; return VFD0+i-3; } errno=EMFILE; return -1; }
#define FSFAULT(cls,p) do{ progress(); point(20,cls); const fault_t* _f=fault(cls); if(_f&&_f->kind==FK_ERRNO){ if(_f->arg!=EINTR||cls==FC_STAT) fflog(cls,p); errno=(int)_f->arg; return -1; } }while(0)
static int vopen(const char* p,int fl){ FSFAULT(FC_OPEN,p); int i=vlook(p); if((fl&O_ACCMODE)!=O_RDONLY){ if(sink){ char up[1024]; snprintf(up,sizeof up,"%s",p); char* sl=strrchr(up,'/'); if(sl) *sl=0; int u=vlook(up); if(!ismade(up)&&(u<0||C.vnodes[u].kind!=1)){ errno=ENOENT; return -1; } if(i<0&&!(fl&O_CREAT)){ errno=ENOENT; return -1; } if(i>=0&&(fl&O_EXCL)){ errno=EEXIST; return -1; } char b[2300]; int n=snprintf(b,96,"{\"t\":\"LO\",\"trunc\":%d,\"app\":%d,\"p\":\"",!!(fl&O_TRUNC),!!(fl&O_APPEND)); for(const char* q=p;*q&&n<2200;q++) n+=snprintf(b+n,3,"%02x",(unsigned char)*q); n+=snprintf(b+n,8,"\"}\n"); sim_log((uint8_t*)b,n); } return newfd(V_LOGFILE,0); } if(i<0){ errno=ENOENT; return -1; } return newfd(V_FILE,i); }
static int hidden(const char* p){ return !strncmp(p,"/proc/",6)||!strncmp(p,"/sys/",5); }
#define SUT (active&&me&&!insim)
static int do_open(int dfd,const char* p,int fl,int mode){ if(SUT){ if(issim(p)) return vopen(p,fl); if(hidden(p)){ errno=ENOENT; return -1; } if(!strcmp(p,"/dev/null")) return newfd(V_NULL,0); } return (int)rsys_errno(SYS_openat,dfd,(long)p,fl,mode,0,0); }
int open64(const char* p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return do_open(AT_FDCWD,p,fl,m); }
int open(const char* p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return do_open(AT_FDCWD,p,fl,m); }
int openat64(int d,const char* p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return do_open(d,p,fl,m); }
int openat(int d,const char* p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return do_open(d,p,fl,m); }
static void fillx(struct statx* b,int i){ memset(b,0,sizeof *b); b->stx_mask=STATX_BASIC_STATS; b->stx_mode=C.vnodes[i].kind?(S_IFDIR|0755):(S_IFREG|0644); b->stx_size=C.vnodes[i].len; b->stx_nlink=1; b->stx_ino=i+10; b->stx_blksize=4096; }
static void fills(struct stat64* b,int i){ memset(b,0,sizeof *b); b->st_mode=C.vnodes[i].kind?(S_IFDIR|0755):(S_IFREG|0644); b->st_size=C.vnodes[i].len; b->st_nlink=1; b->st_ino=i+10; b->st_blksize=4096; }
int statx(int d,const char* __restrict p0,int fl,unsigned mask,struct statx* __restrict b){
  const char* volatile vp=p0; const char* p=vp; if(SUT&&!p){ errno=EFAULT; return -1; }
  if(SUT){ if(p&&issim(p)){ FSFAULT(FC_STAT,p); int i=vlook(p); if(i<0){ errno=ENOENT; return -1; } fillx(b,i); if((fl&AT_SYMLINK_NOFOLLOW)&&C.vnodes[i].kind==3) b->stx_mode=S_IFLNK|0777; return 0; }
    if(isv(d)&&p&&*p){ vfd* v=getv(d); if(v&&v->kind==V_DIR){ char q[1600]; snprintf(q,sizeof q,"%s/%s",C.vnodes[v->idx].path,p); return statx(AT_FDCWD,q,fl,mask,b); } errno=EBADF; return -1; }
    if(isv(d)&&p&&!*p){ vfd* v=getv(d); if(v&&v->kind==V_FILE){ fillx(b,v->idx); return 0; } memset(b,0,sizeof *b); b->stx_mask=STATX_BASIC_STATS; b->stx_mode=S_IFIFO|0600; return 0; }
    if(p&&d==AT_FDCWD&&p[0]=='/'){ int k=strcmp(p,"/")==0; if(!k){ errno=ENOENT; return -1; } } }
  return (int)rsys_errno(SYS_statx,d,(long)p,fl,mask,(long)b,0); }
int stat64(const char* p,struct stat64* b){ if(SUT&&issim(p)){ FSFAULT(FC_STAT,p); int i=vlook(p); if(i<0){ errno=ENOENT; return -1; } fills(b,i); return 0; } return (int)rsys_errno(SYS_newfstatat,AT_FDCWD,(long)p,(long)b,0,0,0); }
int lstat64(const char* p,struct stat64* b){ if(SUT&&issim(p)){ int i=vlook(p); int r=stat64(p,b); if(!r&&i>=0&&C.vnodes[i].kind==3) b->st_mode=S_IFLNK|0777; return r; } return (int)rsys_errno(SYS_newfstatat,AT_FDCWD,(long)p,(long)b,AT_SYMLINK_NOFOLLOW,0,0); }
int fstat64(int fd,struct stat64* b){ if(SUT&&isv(fd)){ vfd* v=getv(fd); if(v&&v->kind==V_FILE){ fills(b,v->idx); return 0; } memset(b,0,sizeof *b); b->st_mode=S_IFIFO|0600; return 0; } return (int)rsys_errno(SYS_fstat,fd,(long)b,0,0,0,0); }
int access(const char* p,int m){ if(SUT&&issim(p)){ FSFAULT(FC_STAT,p); if(vlook(p)<0){ errno=ENOENT; return -1; } return 0; } return (int)rsys_errno(SYS_access,(long)p,m,0,0,0,0); }
int mkdir(const char* p,mode_t m){ if(SUT&&issim(p)){ int i=vlook(p); if(i>=0||ismade(p)){ errno=EEXIST; return -1; } if(sink&&n_made<16&&strlen(p)<256){ char up[256]; strcpy(up,p); char* sl=strrchr(up,'/'); if(sl) *sl=0; int u=vlook(up); if(!ismade(up)&&(u<0||C.vnodes[u].kind!=1)){ errno=ENOENT; return -1; } strcpy(made[n_made++],p); return 0; } errno=EROFS; return -1; } return (int)rsys_errno(SYS_mkdir,(long)p,m,0,0,0,0); }
char* realpath(const char* p,char* o){ init_real(); if(SUT&&issim(p)){ if(vlook(p)<0){ errno=ENOENT; return 0; } return o?strcpy(o,p):strdup(p); } return r_realpath(p,o); }
char* getcwd(char* b,size_t n){ if(SUT){ const fault_t* f=fault(FC_CWD); if(f&&f->kind==FK_ERRNO){ fflog(FC_CWD,"cwd"); errno=(int)f->arg; return 0; } if(n<11){ errno=ERANGE; return 0; } return strcpy(b,"/simfs/cwd"); } long r=rsys(SYS_getcwd,(long)b,n,0,0,0,0); if(r<0){ errno=-r; return 0; } return b; }
off64_t lseek64(int fd,off64_t o,int w){ if(SUT&&isv(fd)){ vfd* v=getv(fd); if(v&&v->kind==V_FILE){ if(w==SEEK_SET) v->off=o; else if(w==SEEK_CUR) v->off+=o; else v->off=C.vnodes[v->idx].len+o; return v->off; } errno=ESPIPE; return -1; } return rsys_errno(SYS_lseek,fd,o,w,0,0,0); }
typedef struct { uint64_t magic; char path[512]; size_t next; int fd; struct dirent64 de; } vdir;
#define VMAGIC 0x53494d4449520001ull
DIR* opendir(const char* p){ init_real(); if(SUT&&issim(p)){ progress(); point(20,FC_OPENDIR); const fault_t* f=fault(FC_OPENDIR); if(f&&f->kind==FK_ERRNO){ fflog(FC_OPENDIR,p); errno=(int)f->arg; return 0; } int i=vlook(p); if(i<0){ errno=ENOENT; return 0; } if(!C.vnodes[i].kind){ errno=ENOTDIR; return 0; }
    vdir* d=calloc(1,sizeof *d); d->magic=VMAGIC; snprintf(d->path,512,"%s",C.vnodes[i].path); d->fd=newfd(V_DIR,i); return (DIR*)d; } return r_opendir(p); }
static int isvdir(DIR* d){ return active&&*(uint64_t*)d==VMAGIC; }
struct dirent64* readdir64(DIR* dd){ init_real(); if(!isvdir(dd)) return r_readdir64(dd); vdir* d=(vdir*)dd; progress(); point(20,FC_READDIR); const fault_t* f=fault(FC_READDIR); if(f&&f->kind==FK_ERRNO){ fflog(FC_READDIR,d->path); errno=(int)f->arg; return 0; }
  size_t L=strlen(d->path); while(d->next<C.n_vnodes){ const vnode_t* v=&C.vnodes[d->next++]; if(!v->pad&&!strncmp(v->path,d->path,L)&&v->path[L]=='/'&&v->path[L+1]&&!strchr(v->path+L+1,'/')){ memset(&d->de,0,sizeof d->de); d->de.d_ino=d->next+9; d->de.d_type=fs_untyped?DT_UNKNOWN:v->kind>=2?DT_LNK:v->kind?DT_DIR:DT_REG; snprintf(d->de.d_name,256,"%s",v->path+L+1); d->de.d_reclen=sizeof d->de; return &d->de; } } errno=0; return 0; }
int closedir(DIR* d){ init_real(); if(isvdir(d)){ vdir* v=(vdir*)d; if(v->fd>=0){ vfd* f=getv(v->fd); if(f) f->kind=0; } free(d); return 0; } return r_closedir(d); }

int dirfd(DIR* d){ if(isvdir(d)) return ((vdir*)d)->fd; return *(int*)d; }
// ---------- descriptors ----------
static ssize_t vread(int fd,uint8_t* b,size_t n){ vfd* v=getv(fd); if(!v){ errno=EBADF; return -1; }
  if(v->kind==V_NULL){ return 0; }
  if(v->kind==V_FILE){ const vnode_t* x=&C.vnodes[v->idx]; progress(); point(20,FC_READ_FILE); const fault_t* f=fault(FC_READ_FILE); if(f&&f->kind==FK_ERRNO){ if(f->arg!=EINTR) fflog(FC_READ_FILE,x->path); errno=(int)f->arg; return -1; } if(x->kind){ errno=EISDIR; return -1; } if(v->off>=x->len) return 0; size_t k=x->len-v->off; if(k>n)k=n; if(f&&f->kind==FK_SHORT&&f->arg>0&&k>(size_t)f->arg)k=f->arg; memcpy(b,x->data+v->off,k); v->off+=k; return k; }
  if(v->kind!=V_PR){ errno=EBADF; return -1; }
  int cls=fd==0?FC_READ_STDIN:FC_READ_CHILD; point(14,fd); const fault_t* f=fault(cls); if(f&&f->kind==FK_ERRNO){ progress(); errno=(int)f->arg; return -1; }
  vpipe* p=&P[v->idx];
  while(!pipe_readable(v->idx)){ if(v->nonblock){ errno=EAGAIN; return -1; } me->idx=v->idx; block(W_READ); }
  progress(); if(p->err&&!p->len){ errno=p->err; return -1; }
  uint32_t k=n>p->len?p->len:n; if(f&&f->kind==FK_SHORT&&f->arg>0&&k>(uint32_t)f->arg) k=(uint32_t)f->arg; if(!k) return 0; k=sim_pop(v->idx,b,k); hashev(15,fd,k); evlog("%d reads %u from %d",me->id,k,fd); return k; }
static ssize_t vwrite(int fd,const uint8_t* b,size_t n){ vfd* v=getv(fd); if(!v){ errno=EBADF; return -1; }
  if(v->kind==V_NULL) return n;
  if(v->kind==V_ERR){ if(sink) point(21,2); const fault_t* f=fault(FC_WRITE_STDERR); if(sink&&f&&f->kind==FK_ERRNO&&f->arg==EINTR){ errno=EINTR; return -1; } uint32_t k=n; if(O->errlen+k>ERRCAP) k=ERRCAP-O->errlen; memcpy(O->err+O->errlen,b,k); O->errlen+=k; if(f&&f->kind==FK_ERRNO){ errno=(int)f->arg; return -1; } if(f&&f->kind==FK_SHORT&&n>(size_t)f->arg&&f->arg>0) n=f->arg; sinklog('e',b,n); return n; }
  if(v->kind==V_LOGFILE){ progress(); if(sink) point(21,3); const fault_t* f=fault(FC_WRITE_FILE); if(f&&f->kind==FK_ERRNO){ errno=(int)f->arg; return -1; } if(f&&f->kind==FK_SHORT&&n>(size_t)f->arg&&f->arg>0) n=f->arg; sinklog('f',b,n); return n; }
  if(v->kind!=V_PW){ errno=EBADF; return -1; }
  if(!n) return 0;
  point(16,fd); const fault_t* f=fault(FC_WRITE_STDOUT); if(f&&f->kind==FK_ERRNO){ progress(); errno=(int)f->arg; return -1; }
  while(!pipe_writable(v->idx)){ if(v->nonblock){ errno=EAGAIN; return -1; } me->idx=v->idx; block(W_WRITE); }
  progress(); vpipe* p=&P[v->idx]; if(p->rclosed){ errno=EPIPE; return -1; }
  uint32_t k=p->cap-p->len; if(k>n)k=n; if(f&&f->kind==FK_SHORT&&f->arg>0&&k>(uint32_t)f->arg) k=(uint32_t)f->arg; k=sim_push(v->idx,b,k); hashev(17,fd,k); evlog("%d writes %u to %d",me->id,k,fd); return k; }
ssize_t read(int fd,void* b,size_t n){ if(SUT&&isv(fd)) return vread(fd,b,n); return rsys_errno(SYS_read,fd,(long)b,n,0,0,0); }
ssize_t write(int fd,const void* b,size_t n){ if(SUT&&isv(fd)) return vwrite(fd,b,n); return rsys_errno(SYS_write,fd,(long)b,n,0,0,0); }
ssize_t readv(int fd,const struct iovec* v,int c){ if(SUT&&isv(fd)){ for(int i=0;i<c;i++) if(v[i].iov_len) return vread(fd,v[i].iov_base,v[i].iov_len); return 0; } return rsys_errno(SYS_readv,fd,(long)v,c,0,0,0); }
ssize_t writev(int fd,const struct iovec* v,int c){ if(SUT&&isv(fd)){ ssize_t t=0; for(int i=0;i<c;i++) if(v[i].iov_len){ ssize_t k=vwrite(fd,v[i].iov_base,v[i].iov_len); if(k<0) return t?t:-1; t+=k; if((size_t)k<v[i].iov_len) return t; } return t; } return rsys_errno(SYS_writev,fd,(long)v,c,0,0,0); }
int close(int fd){ if(SUT&&isv(fd)){ vfd* v=getv(fd); if(!v){ errno=EBADF; return -1; } int k=v->kind,i=v->idx; v->kind=V_FREE; if(k==V_PR||k==V_PW){ int other=0; for(int j=0;j<NVFD;j++) if(F[j].kind==k&&F[j].idx==i) other=1; if(!other){ if(k==V_PR) P[i].rclosed=1; else if(!(child_spawned&&i>=4)) P[i].wclosed=1; } } return 0; } return (int)rsys_errno(SYS_close,fd,0,0,0,0,0); }
int do_fcntl(int fd,int c,long a){ if(SUT&&isv(fd)){ vfd* v=getv(fd); if(!v){ errno=EBADF; return -1; } if(c==F_GETFL) return v->nonblock?O_NONBLOCK:0; if(c==F_SETFL){ v->nonblock=!!(a&O_NONBLOCK); return 0; } if(c==F_DUPFD||c==F_DUPFD_CLOEXEC){ int n=newfd(v->kind,v->idx); return n; } return 0; } return (int)rsys_errno(SYS_fcntl,fd,c,a,0,0,0); }
int fcntl(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); return do_fcntl(fd,c,a); }
int fcntl64(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); return do_fcntl(fd,c,a); }
int ioctl(int fd,unsigned long r,...){ va_list ap; va_start(ap,r); long a=va_arg(ap,long); va_end(ap); if(SUT&&isv(fd)){ vfd* v=getv(fd); if(v&&r==0x5421){ v->nonblock=*(int*)a!=0; return 0; } errno=ENOTTY; return -1; } return (int)rsys_errno(SYS_ioctl,fd,r,a,0,0,0); }
int isatty(int fd){ if(SUT&&isv(fd)){ errno=ENOTTY; return 0; } struct { int x[32]; } t; return rsys(SYS_ioctl,fd,0x5401,(long)&t,0,0,0)==0; }
int poll(struct pollfd* p,nfds_t n,int to){ int any=0; for(nfds_t i=0;i<n;i++) if(isv(p[i].fd)) any=1; if(!SUT||!any) return (int)rsys_errno(SYS_poll,(long)p,n,to,0,0,0);
  point(18,n); const fault_t* f=fault(FC_POLL); if(f&&f->kind==FK_ERRNO){ progress(); errno=(int)f->arg; return -1; }
  int k=poll_ready(p,n); if(k||to==0) return k; me->pfds=p; me->npfd=n; me->deadline=to>0?now_ns+(uint64_t)to*1000000ull:0; block(W_POLL); progress(); return poll_ready(p,n); }

// ---------- child processes ----------
static uint32_t child_cap=65536; void sim_set_child_cap(uint32_t c){ child_cap=c?c:1; }
static int pipes_made; static int dup_fd[3]; 
int pipe2(int* o,int fl){ if(SUT){ int i=4+pipes_made; if(i>=NPIPE){ errno=EMFILE; return -1; } pipes_made++; sim_pipe(i,child_cap); o[0]=newfd(V_PR,i); o[1]=newfd(V_PW,i); return 0; } return (int)rsys_errno(SYS_pipe2,(long)o,fl,0,0,0,0); }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* a,int fd,int nfd){ init_real(); if(SUT){ if(nfd>=0&&nfd<3) dup_fd[nfd]=fd; return 0; } return r_addup2(a,fd,nfd); }
static int vspawn(pid_t* pid,const char* prog){ progress(); point(19,0); const fault_t* f=fault(FC_SPAWN); if(f&&f->kind==FK_ERRNO) return (int)f->arg; vfd* o=getv(dup_fd[1]); vfd* e=getv(dup_fd[2]); insim++; int r=sim_env_spawn(prog,o?o->idx:-1,e?e->idx:-1); insim--; if(r) return r; child_spawned=child_alive=1; *pid=424242; return 0; }
int posix_spawnp(pid_t* pid,const char* prog,const posix_spawn_file_actions_t* a,const posix_spawnattr_t* at,char* const av[],char* const ev[]){ init_real(); if(SUT) return vspawn(pid,prog); return r_posix_spawnp(pid,prog,a,at,av,ev); }
int posix_spawn(pid_t* pid,const char* prog,const posix_spawn_file_actions_t* a,const posix_spawnattr_t* at,char* const av[],char* const ev[]){ init_real(); if(SUT) return vspawn(pid,prog); return r_posix_spawn(pid,prog,a,at,av,ev); }
pid_t waitpid(pid_t p,int* st,int o){ init_real(); if(SUT&&p==424242){ point(21,0); const fault_t* f=fault(FC_WAITPID); if(f&&f->kind==FK_ERRNO){ errno=(int)f->arg; return -1; } if(child_alive){ if(o&WNOHANG) return 0; block(W_CHILD); } progress(); if(st) *st=child_status; return p; } return r_waitpid(p,st,o); }
int kill(pid_t p,int s){ if(SUT&&p==424242){ return 0; } return (int)rsys_errno(SYS_kill,p,s,0,0,0,0); }

// ---------- SUT heap: fixed addresses, own arena ----------
#define HEAP_BASE 0x100000000000ul
#define HEAP_SIZE (8ul<<30)
static uintptr_t hp; static void* fl[48]; static uint64_t live_bytes; uint64_t sim_live(void){ return live_bytes; }
static int cls_of(size_t n){ if(n<=16) return 4; return 64-__builtin_clzl(n-1); }
void* sim_alloc(size_t n,size_t al){
  if(!hp){ void* m=mmap((void*)HEAP_BASE,HEAP_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(m==MAP_FAILED) return 0; hp=HEAP_BASE+64; }
  size_t need=n<al?al:n; 
  int k=cls_of(need); if(k>=40) finish(FIN_OOM,0,"allocation request too large");
  if(fl[k]){ void* p=fl[k]; fl[k]=*(void**)p; live_bytes+=n; return p; }
  size_t sz=1ul<<k; uintptr_t a=sz>=4096?4096:sz; if(al>a) a=al; uintptr_t p=(hp+a-1)&~(a-1); if(p+sz>HEAP_BASE+C.max_heap) finish(FIN_OOM,0,"simulated memory limit exceeded");
  live_bytes+=n; hp=p+sz; O->heap_peak=hp-HEAP_BASE; return (void*)p; }
void sim_free(void* p,size_t n,size_t al){ live_bytes-=n; size_t need=n<al?al:n; int k=cls_of(need); *(void**)p=fl[k]; fl[k]=p; }
int sim_owns(void* p){ uintptr_t x=(uintptr_t)p; return x>=HEAP_BASE&&x<HEAP_BASE+HEAP_SIZE; }
int sim_heap_on(void){ return active&&!insim&&me!=0; }

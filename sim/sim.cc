// Deterministic simulator for apertium stages.
//
// One process ("zygote") loads every stage as a shared object.  Each simulated
// run is one forked child in which all stages of one or more pipelines run as
// coroutines, and every byte that crosses a pipe or the disk, every scheduling
// decision and every injected fault is decided here from one PRNG (or from the
// recorded decision list of a replay file).
#define _GNU_SOURCE 1
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <new>
#include <algorithm>
#include <ucontext.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <cxxabi.h>
#include <libxml/parser.h>
#include <unicode/uclean.h>

using std::string; using std::vector; using std::map;

// ---------------------------------------------------------------- results
enum Verdict { V_DONE=0, V_DEADLOCK=1, V_STEPS=2, V_MEM=3, V_SPIN=4, V_SIGNAL=5,
               V_ASSERT=6, V_CPU=7, V_INTERNAL=8 };
enum Kind { K_SWITCH=0, K_SHORTREAD, K_SHORTWRITE, K_STALL, K_HEAP, NKIND };
enum Fault { F_SWITCH=0, F_SHORTREAD, F_SHORTWRITE, F_STALL, F_BLOCKED_READ, F_BLOCKED_WRITE,
             F_EOF, F_EPIPE, F_ENOSPC, F_EIO_WRITE, F_EIO_READ, F_CRASH, F_NEWFAIL, F_JUNK,
             F_OPENFAIL, F_SHORTFILE, NFAULT };
static const char* FAULT_NAMES[NFAULT] = {"switch","short_read","short_write","stall",
  "blocked_read","blocked_write","eof","epipe","enospc","eio_write","eio_read","crash",
  "alloc_fail","alloc_junk","open_fail","short_file_io"};

const int MAXACT = 32;
const int MAXCLI = 6;
const size_t OUTCAP = 6u << 20;
const size_t REC_CAP = 1u << 18;
const size_t ERRCAP = 1<<16;
const size_t TRACECAP = 1u << 20;
const size_t DISKCAP = 8u << 20;
const int MAXSTAMP = 65536;

struct ActRes { int done, status, sig; uint64_t consumed, produced, maxlive, live, polls; uint32_t errlen; char err[ERRCAP]; };
struct CliRes { uint64_t len; uint32_t nuls; int eof; uint32_t opdone; uint32_t nstamp; };
struct Shm {
  int verdict, cur, signo; 
  uint64_t steps, now, choices, hash, sched_hash, faults[NFAULT], nrec, tracelen, disklen, switches;
  char msg[512];
  int nact, ncli;
  ActRes act[MAXACT];
  CliRes cli[MAXCLI];
  uint32_t rec_i[REC_CAP], rec_v[REC_CAP];
  uint64_t stamp[MAXCLI][MAXSTAMP], live_at[MAXCLI][MAXSTAMP], blocks_at[MAXCLI][MAXSTAMP];
  char out[MAXCLI][OUTCAP];
  char trace[TRACECAP];
  char disk[DISKCAP];
};
static Shm* S;
static int g_acct=-1;

// ---------------------------------------------------------------- run spec
struct StageSpec { string tool; int copy; string in, out; vector<string> argv; size_t ibuf=4096, obuf=4096; };
struct Op { char k; string d; };
struct CliSpec { int send, recv; vector<Op> ops; };
struct FaultSpec { string kind; int actor; string path; uint64_t at; };
struct Spec {
  uint64_t seed=1; 
  vector<StageSpec> stages; vector<CliSpec> clis; vector<FaultSpec> faults;
  map<int,size_t> caps; size_t defcap=65536;
  map<string,string> disk; 
  uint64_t rate[NKIND]={0,0,0,0,0}; // per 65536
  bool replay=false; map<uint32_t,uint32_t> ov;
  uint64_t maxsteps=2000000, maxmem=256u<<20, maxpolls=200000, quota=1ull<<40;
  uint64_t rngseed=7; int junk=0; uint64_t heapseed=0; bool trace=false; int cpu=10; bool nopower=false;
  bool wantdisk=false;
};
static Spec P;

// ---------------------------------------------------------------- PRNG / choices
static uint64_t rs[2];
static uint64_t sm64(uint64_t& x){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);} 
static void rseed(uint64_t s){ rs[0]=sm64(s); rs[1]=sm64(s);} 
static uint64_t rnext(){ uint64_t s1=rs[0],s0=rs[1],r=s0+s1; rs[0]=s0; s1^=s1<<23; rs[1]=s1^s0^(s1>>18)^(s0>>5); return r; }
static uint64_t aux_state=7;
static uint64_t auxnext(){ return sm64(aux_state); }
static inline void hmix(uint64_t& h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; }

static void tracef(const char* fmt,...) {
  if(!P.trace) return;
  if(S->tracelen+256>TRACECAP) return;
  va_list ap; va_start(ap,fmt);
  int n=vsnprintf(S->trace+S->tracelen,256,fmt,ap); va_end(ap);
  if(n>255)n=255; if(n>0) S->tracelen+=n;
}

static uint32_t choose(Kind k,uint32_t n) {
  if(n<2) return 0;
  uint32_t i=S->choices++;
  uint32_t v=0;
  if(P.replay){ auto it=P.ov.find(i); if(it!=P.ov.end()) v=it->second%n; }
  else if(P.rate[k]) { if((rnext()&0xffff)<P.rate[k]) v=1+rnext()%(n-1); }
  if(v){ if(S->nrec<REC_CAP){ S->rec_i[S->nrec]=i; S->rec_v[S->nrec]=v; S->nrec++; } 
         tracef("  choice %u kind=%d -> %u/%u\n",i,(int)k,v,n); }
  hmix(S->hash,((uint64_t)k<<40)^((uint64_t)i<<20)^v);
  return v;
}

// ---------------------------------------------------------------- state
struct Pipe { string buf; size_t off=0; size_t cap=65536; int writers=0, readers=0; bool everw=false;
  size_t avail()const{return buf.size()-off;} 
  void take(size_t n){ off+=n; if(off==buf.size()){buf.clear();off=0;} else if(off>65536){buf.erase(0,off);off=0;} } };
struct File { string data; uint64_t written=0; };
static map<int,Pipe> pipes;
static map<string,std::shared_ptr<File>> disk;
static map<string,uint64_t> unlinked;

struct End { enum {NONE,PIPE,FIL,ERRSINK} t=NONE; int pipe=-1; std::shared_ptr<File> f; size_t pos=0; string path; bool open=false; bool rd=false, wr=false, append=false; uint64_t count=0; };
struct AtExit { void (*f)(void*); void* a; };
enum AKind { A_STAGE, A_SENDER, A_RECV };
enum St { RUN, BLK_R, BLK_W, DONE };
struct Actor {
  AKind k=A_STAGE; St st=RUN; int idx=0; int cli=-1; 
  ucontext_t ctx; char* stack=nullptr; 
  StageSpec* ss=nullptr; int (*mainf)(int,char**)=nullptr; void (*flushf)()=nullptr;
  vector<char*> argv; vector<string> argstore;
  End end[3]; FILE* f[3]={0,0,0}; 
  int waitpipe=-1; uint64_t stall=0; int saved_errno=0; uint64_t eh[2]={0,0};
  int optind_=1; int opterr_=1, optopt_=0; char* optarg_=nullptr;
  vector<AtExit> ax; int status=0; bool sigpipe=false;
  // client
  size_t op=0, opoff=0; 
  uint64_t news=0; int64_t live=0, maxlive=0, blocks=0;
};
static vector<Actor*> A;
static Actor* cur=nullptr;      // running coroutine (or null: scheduler)
static ucontext_t sched_ctx;
static bool in_child=false;
static FILE *real_in,*real_out,*real_err;

static void dump_disk();
[[noreturn]] static void finish(int verdict,const char* fmt="",...) {
  S->verdict=verdict; 
  va_list ap; va_start(ap,fmt); vsnprintf(S->msg,sizeof S->msg,fmt,ap); va_end(ap);
  S->cur = cur?cur->idx:-1;
  if(P.wantdisk && (verdict==V_DONE||verdict==V_DEADLOCK)){ g_acct=-1; dump_disk(); }
  syscall(231 /*exit_group*/,0); for(;;);
}

// ---------------------------------------------------------------- allocator seam
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
static inline void acct(int64_t d){
  if(g_acct>=0){ Actor* a=A[g_acct]; a->live+=d; a->blocks+=d>0?1:-1; if(a->live>a->maxlive){a->maxlive=a->live; 
      if((uint64_t)a->maxlive>P.maxmem){ S->act[g_acct].maxlive=a->maxlive; finish(V_MEM,"stage %d live memory over %llu",g_acct,(unsigned long long)P.maxmem);} } } }
extern "C" void* malloc(size_t n){ if(g_acct>=0 && n>P.maxmem){ finish(V_MEM,"single allocation of %zu",n);} void* p=__libc_malloc(n); if(g_acct>=0&&p) acct(malloc_usable_size(p)); return p; }
extern "C" void free(void* p){ if(g_acct>=0&&p) acct(-(int64_t)malloc_usable_size(p)); __libc_free(p); }
extern "C" void* calloc(size_t a,size_t b){ void* p=__libc_calloc(a,b); if(g_acct>=0&&p) acct(malloc_usable_size(p)); return p; }
extern "C" void* realloc(void* q,size_t n){ if(g_acct>=0&&q) acct(-(int64_t)malloc_usable_size(q)); if(g_acct>=0 && n>P.maxmem) finish(V_MEM,"single reallocation of %zu",n); void* p=__libc_realloc(q,n); if(g_acct>=0&&p) acct(malloc_usable_size(p)); return p; }
static uint64_t newfail_at[MAXACT];
static void* do_new(size_t n){
  if(g_acct>=0){ Actor* a=A[g_acct]; a->news++; 
    if(newfail_at[g_acct] && a->news==newfail_at[g_acct]){ S->faults[F_NEWFAIL]++; tracef("[%d] operator new #%llu fails\n",g_acct,(unsigned long long)a->news); throw std::bad_alloc(); } 
    if(n>P.maxmem) throw std::bad_alloc(); }
  void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n){ return do_new(n); }
void* operator new[](size_t n){ return do_new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try{return do_new(n);}catch(...){return nullptr;} }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { try{return do_new(n);}catch(...){return nullptr;} }
void operator delete(void* p) noexcept { free(p);} 
void operator delete[](void* p) noexcept { free(p);} 
void operator delete(void* p,size_t) noexcept { free(p);} 
void operator delete[](void* p,size_t) noexcept { free(p);} 

// ---------------------------------------------------------------- scheduling
static void yield_(){
  Actor* a=cur; a->saved_errno=errno;
  int acct_save=g_acct;
  swapcontext(&a->ctx,&sched_ctx);
  g_acct=acct_save; errno=a->saved_errno;
}
struct Guard { int s; Guard():s(g_acct){g_acct=-1;} ~Guard(){g_acct=s;} };

static void close_end(End& e){
  if(!e.open) return; e.open=false;
  if(e.t==End::PIPE){ if(e.rd) pipes[e.pipe].readers--; if(e.wr) pipes[e.pipe].writers--; }
}
static void actor_done(Actor* a,int status,int sig){
  if(a->st==DONE) return;
  a->st=DONE; a->status=status; 
  for(auto& e:a->end) close_end(e);
  ActRes& r=S->act[a->idx]; r.done=1; r.status=status; r.sig=sig; r.live=a->live>0?a->live:0; r.maxlive=a->maxlive;
  hmix(S->hash,0x5151u+a->idx*1000+status*7+sig);
  tracef("[%d] ends status=%d sig=%d\n",a->idx,status,sig);
}
[[noreturn]] static void stage_die(int status,int sig){
  Actor* a=cur; g_acct=-1; actor_done(a,status,sig); 
  for(;;){ setcontext(&sched_ctx); }
}
static FaultSpec* find_fault(const char* kind,int actor,const string* path){
  for(auto& f:P.faults) if(f.kind==kind && (f.actor<0||f.actor==actor) && (f.path.empty()|| f.path=="*" || (path&&*path==f.path))) return &f;
  return nullptr;
}
static void maybe_crash(Actor* a,uint64_t bytes_before,uint64_t bytes_after,const string& where){
  for(auto& f:P.faults) if(f.kind=="crash" && f.actor==a->idx && f.path==where && bytes_before<=f.at && f.at<bytes_after){
    S->faults[F_CRASH]++; tracef("[%d] killed at %s byte %llu\n",a->idx,where.c_str(),(unsigned long long)f.at);
    stage_die(137,9);
  }
}

// low level read/write on an End, called in stage context
static ssize_t end_read(Actor* a,End& e,void* buf,size_t n){
  Guard g;
  if(n==0) return 0;
  S->act[a->idx].polls++;
  yield_();
  if(e.t==End::FIL){
    if(auto* f=find_fault("eio_read",a->idx,&e.path)) if(!f->path.empty()) if(e.pos+n>f->at && e.pos>=f->at){ S->faults[F_EIO_READ]++; errno=EIO; return -1; }
    size_t av=e.pos<e.f->data.size()?e.f->data.size()-e.pos:0; size_t m=std::min(av,n);
    if(auto* f=find_fault("eio_read",a->idx,&e.path)) if(!f->path.empty()) if(e.pos<f->at && e.pos+m>f->at) m=f->at-e.pos;
    if(m>1){ uint32_t c=choose(K_SHORTREAD,m); if(c){ m=c; S->faults[F_SHORTFILE]++; } }
    memcpy(buf,e.f->data.data()+e.pos,m); e.pos+=m; e.count+=m; if(&e==&a->end[0]) S->act[a->idx].consumed=e.count;
    return m;
  }
  if(e.t!=End::PIPE) return 0;
  Pipe& p=pipes[e.pipe];
  if(auto* f=find_fault("eio_read",a->idx,nullptr)) if(f->path.empty() && e.count>=f->at){ S->faults[F_EIO_READ]++; tracef("[%d] read EIO\n",a->idx); errno=EIO; return -1; }
  for(;;){
    if(p.avail()) break;
    if(p.writers==0){ S->faults[F_EOF]++; 
      if(S->act[a->idx].polls>P.maxpolls) finish(V_SPIN,"stage %d keeps reading after end of input",a->idx);
      return 0; }
    S->faults[F_BLOCKED_READ]++;
    a->st=BLK_R; a->waitpipe=e.pipe; yield_(); 
  }
  S->act[a->idx].polls=0;
  size_t m=std::min(n,p.avail());
  if(auto* f=find_fault("eio_read",a->idx,nullptr)) if(f->path.empty() && e.count+m>f->at) m=f->at-e.count;
  if(m>1){ uint32_t c=choose(K_SHORTREAD,m); if(c){ m=c; S->faults[F_SHORTREAD]++; } }
  memcpy(buf,p.buf.data()+p.off,m); p.take(m); e.count+=m; S->act[a->idx].consumed=e.count;
  hmix(S->hash,0x10000+a->idx*31+m);
  tracef("[%d] read %zu (total %llu)\n",a->idx,m,(unsigned long long)e.count);
  maybe_crash(a,e.count-m,e.count,"in");
  return m;
}
static uint64_t disk_used(){ uint64_t t=0; for(auto&kv:disk) t+=kv.second->data.size(); return t; }
static ssize_t end_write1(Actor* a,End& e,const char* buf,size_t n){
  Guard g;
  if(n==0) return 0;
  if(e.t==End::ERRSINK){ ActRes& r=S->act[a->idx]; size_t m=std::min(n,ERRCAP-1-r.errlen); memcpy(r.err+r.errlen,buf,m); r.errlen+=m; return n; }
  yield_();
  if(e.t==End::FIL){
    const string& pth=e.path;
    if(auto* f=find_fault("eio_write",a->idx,&pth)) if(e.count>=f->at){ S->faults[F_EIO_WRITE]++; tracef("[%d] write EIO %s\n",a->idx,pth.c_str()); errno=EIO; return -1; }
    size_t m=n;
    if(auto* f=find_fault("eio_write",a->idx,&pth)) if(e.count+m>f->at) m=f->at-e.count;
    if(auto* f=find_fault("enospc",a->idx,&pth)){ if(e.count>=f->at){ S->faults[F_ENOSPC]++; tracef("[%d] write ENOSPC %s\n",a->idx,pth.c_str()); errno=ENOSPC; return -1; } if(e.count+m>f->at) m=f->at-e.count; }
    if(P.quota<(1ull<<39)){ uint64_t u=disk_used(); uint64_t fr=P.quota>u?P.quota-u:0; uint64_t grow=e.pos+m>e.f->data.size()?e.pos+m-e.f->data.size():0; if(grow>fr){ if(fr==0){ S->faults[F_ENOSPC]++; errno=ENOSPC; return -1;} m-= (grow-fr);} }
    if(m>1){ uint32_t c=choose(K_SHORTWRITE,m); if(c){ m=c; S->faults[F_SHORTFILE]++; } }
    for(auto& f:P.faults) if(f.kind=="crash"&&f.actor==a->idx&&f.path==pth&&e.count+m>f.at&&e.count<=f.at){ // torn write: part of it reaches the file
      size_t k=f.at-e.count; if(e.append) e.pos=e.f->data.size(); if(e.pos+k>e.f->data.size()) e.f->data.resize(e.pos+k); memcpy(&e.f->data[e.pos],buf,k); }
    maybe_crash(a,e.count,e.count+m,pth);
    if(e.append) e.pos=e.f->data.size();
    if(e.pos+m>e.f->data.size()) e.f->data.resize(e.pos+m);
    memcpy(&e.f->data[e.pos],buf,m); e.pos+=m; e.count+=m; e.f->written+=m; if(&e==&a->end[1]) S->act[a->idx].produced=e.count;
    hmix(S->hash,0x30000+a->idx*31+m);
    tracef("[%d] fwrite %s %zu\n",a->idx,pth.c_str(),m);
    return m;
  }
  if(e.t!=End::PIPE) return n;
  Pipe& p=pipes[e.pipe];
  for(;;){
    if(p.readers==0){ S->faults[F_EPIPE]++; 
      if(P.nopower){ errno=EPIPE; return -1; } // SIGPIPE ignored
      tracef("[%d] SIGPIPE\n",a->idx); stage_die(141,13); }
    if(p.avail()<p.cap) break;
    S->faults[F_BLOCKED_WRITE]++;
    a->st=BLK_W; a->waitpipe=e.pipe; yield_();
  }
  size_t m=std::min(n,p.cap-p.avail());
  if(m>1){ uint32_t c=choose(K_SHORTWRITE,m); if(c){ m=c; S->faults[F_SHORTWRITE]++; } }
  for(auto& f:P.faults) if(f.kind=="crash"&&f.actor==a->idx&&f.path=="out"&&e.count+m>f.at&&e.count<=f.at){ size_t k=f.at-e.count; p.buf.append(buf,k); }
  maybe_crash(a,e.count,e.count+m,"out");
  if(auto* f=find_fault("eio_write",a->idx,nullptr)) if(f->path.empty()){ if(e.count>=f->at){ S->faults[F_EIO_WRITE]++; errno=EIO; return -1;} if(e.count+m>f->at) m=f->at-e.count; }
  if(auto* f=find_fault("enospc",a->idx,nullptr)) if(f->path.empty()){ if(e.count>=f->at){ S->faults[F_ENOSPC]++; errno=ENOSPC; return -1;} if(e.count+m>f->at) m=f->at-e.count; }
  p.buf.append(buf,m); e.count+=m; S->act[a->idx].produced=e.count;
  hmix(S->hash,0x20000+a->idx*31+m);
  tracef("[%d] write %zu (total %llu)\n",a->idx,m,(unsigned long long)e.count);
  return m;
}
static ssize_t end_write(Actor* a,End& e,const char* buf,size_t n){ // stdio semantics: loop over partial writes
  size_t off=0; while(off<n){ ssize_t w=end_write1(a,e,buf+off,n-off); if(w<=0) return off?(ssize_t)off:w; off+=w; } return off; }

// ---------------------------------------------------------------- cookie FILEs
struct CFile { Actor* a; End* e; bool own; FILE* fp; int fd; };
static vector<CFile*> cfiles;     // by fake fd
const int FDBASE=5000;
static ssize_t ck_read(void* c,char* b,size_t n){ CFile* f=(CFile*)c; ssize_t r=end_read(f->a,*f->e,b,n); return r; }
static ssize_t ck_write(void* c,const char* b,size_t n){ CFile* f=(CFile*)c; ssize_t w=end_write(f->a,*f->e,b,n); return w<0?0:w; }
static int ck_seek(void* c,off64_t* o,int wh){ CFile* f=(CFile*)c; End& e=*f->e; if(e.t!=End::FIL){ errno=ESPIPE; return -1;} int64_t base= wh==SEEK_SET?0: wh==SEEK_CUR?(int64_t)e.pos:(int64_t)e.f->data.size(); base+=*o; if(base<0){errno=EINVAL;return -1;} e.pos=base; *o=base; return 0; }
static int ck_close(void* c){ Guard g; CFile* f=(CFile*)c; close_end(*f->e); if(f->fd>=0) cfiles[f->fd-FDBASE]=nullptr; 
  int rc=0;
  if(f->e->t==End::FIL && f->e->wr) if(auto* ff=find_fault("eio_close",f->a->idx,&f->e->path)){ (void)ff; S->faults[F_EIO_WRITE]++; errno=EIO; rc=-1; }
  return rc; }
static FILE* mkfile(Actor* a,End* e,bool own,const char* mode,size_t bufsz){
  Guard g;
  CFile* c=new CFile{a,e,own,nullptr,-1};
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close};
  if(e->t!=End::FIL) io.seek=nullptr;
  c->fp=fopencookie(c,mode,io);
  c->fd=FDBASE+cfiles.size(); cfiles.push_back(c);
  if(bufsz) setvbuf(c->fp,(char*)__libc_malloc(bufsz+16),_IOFBF,bufsz);
  return c->fp;
}
static CFile* by_fd(int fd){ if(!in_child||fd<FDBASE||fd>=FDBASE+(int)cfiles.size()) return nullptr; return cfiles[fd-FDBASE]; }

// ---------------------------------------------------------------- interposed libc
#define REAL(ret,name,args) static ret (*r) args = (ret(*)args)dlsym(RTLD_NEXT,#name)
extern "C" {
int fileno(FILE* f) noexcept(true) { REAL(int,fileno,(FILE*)); if(in_child) for(auto* c:cfiles) if(c&&c->fp==f) return c->fd; return r(f); }
int fileno_unlocked(FILE* f) noexcept(true) { return fileno(f); }
int isatty(int fd) noexcept(true) { REAL(int,isatty,(int)); if(in_child){ if(by_fd(fd)||fd<3){ errno=ENOTTY; return 0; } } return r(fd); }
static Actor* stage(){ return (in_child&&cur&&cur->k==A_STAGE)?cur:nullptr; }
static std::map<int,string>& xmlfds(){ static auto* m=new std::map<int,string>; return *m; } // what libxml2 reads, by descriptor
int close(int fd){ REAL(int,close,(int)); if(in_child&&!xmlfds().empty()){ Guard g; xmlfds().erase(fd); } return r(fd); }
static ssize_t xml_read(int fd,const string& path,void* b,size_t n){ // a disk error or a short read
  REAL(ssize_t,read,(int,void*,size_t)); Guard g; uint64_t pos=lseek(fd,0,SEEK_CUR);
  if(auto* f=find_fault("eio_read",cur->idx,&path)) if(!f->path.empty()){ if(pos>=f->at){ S->faults[F_EIO_READ]++; tracef("[%d] read EIO %s\n",cur->idx,path.c_str()); errno=EIO; return -1; } if(pos+n>f->at) n=f->at-pos; }
  ssize_t k=r(fd,b,n);
  if(k>1){ uint32_t c=choose(K_SHORTREAD,k); if(c){ lseek(fd,(off_t)c-k,SEEK_CUR); k=c; S->faults[F_SHORTFILE]++; } }
  return k; }
ssize_t read(int fd,void* b,size_t n){ if(stage()&&!xmlfds().empty()){ auto it=xmlfds().find(fd); if(it!=xmlfds().end()) return xml_read(fd,it->second,b,n); }
  REAL(ssize_t,read,(int,void*,size_t)); if(CFile* c=by_fd(fd)) return end_read(c->a,*c->e,b,n); if(stage()&&fd<3) return end_read(cur,cur->end[0],b,n); return r(fd,b,n); }
ssize_t write(int fd,const void* b,size_t n){ REAL(ssize_t,write,(int,const void*,size_t)); if(CFile* c=by_fd(fd)) return end_write1(c->a,*c->e,(const char*)b,n); if(stage()&&(fd==1||fd==2)) return end_write1(cur,cur->end[fd],(const char*)b,n); return r(fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int k){ REAL(ssize_t,writev,(int,const struct iovec*,int)); 
  CFile* c=by_fd(fd); if(c||(stage()&&(fd==1||fd==2))){ size_t t=0; for(int i=0;i<k;i++){ ssize_t w= c?end_write(c->a,*c->e,(const char*)v[i].iov_base,v[i].iov_len):end_write(cur,cur->end[fd],(const char*)v[i].iov_base,v[i].iov_len); if(w<0) return t?t:-1; t+=w; if((size_t)w<v[i].iov_len) break; } return t; }
  return r(fd,v,k); }
off64_t lseek64(int fd,off64_t o,int wh) noexcept(true){ REAL(off64_t,lseek64,(int,off64_t,int)); if(CFile* c=by_fd(fd)){ off64_t x=o; if(ck_seek(c,&x,wh)<0) return -1; return x; } return r(fd,o,wh); }
int fsync(int fd){ REAL(int,fsync,(int)); if(by_fd(fd)||(stage()&&fd<3)) return 0; return r(fd); }
int fdatasync(int fd){ return fsync(fd); }
int ftruncate(int fd,off_t n) noexcept(true){ REAL(int,ftruncate,(int,off_t)); if(CFile* c=by_fd(fd)){ c->e->f->data.resize(n); return 0;} return r(fd,n); }
int ftruncate64(int fd,off64_t n) noexcept(true){ return ftruncate(fd,n); }

static bool simpath(const char* p){ return !strncmp(p,"/sim/",5)||!strncmp(p,"/tmp/",5)||!strncmp(p,"/dev/std",8)||(*p!='/'&&stage()); } // relative names belong to the simulated working directory
static std::set<string> simdirs;
static bool isdir(const char* p){ return simdirs.count(p)||!strcmp(p,".")||!strcmp(p,"/sim")||!strcmp(p,"/sim/cwd"); }
static FILE* sim_fopen(const char* path,const char* mode){
  Guard g; Actor* a=cur; string p=path;
  if(p=="/dev/stdin") return mkfile(a,&a->end[0],false,"r",4096);
  if(p=="/dev/stdout") return mkfile(a,&a->end[1],false,"w",4096);
  if(p=="/dev/stderr") return mkfile(a,&a->end[2],false,"w",0);
  bool w=strchr(mode,'w'), ap=strchr(mode,'a'), plus=strchr(mode,'+');
  yield_();
  if(auto* f=find_fault("open_fail",a->idx,&p)){ (void)f; S->faults[F_OPENFAIL]++; errno=EMFILE; return nullptr; }
  auto it=disk.find(p);
  if(w||ap){ if(auto* f=find_fault("open_enospc",a->idx,&p)){ (void)f; S->faults[F_ENOSPC]++; errno=ENOSPC; return nullptr; } }
  if(it==disk.end()){ if(!w&&!ap){ errno=ENOENT; return nullptr; } disk[p]=std::make_shared<File>(); it=disk.find(p); }
  else if(w) it->second->data.clear();
  End* e=new End; e->t=End::FIL; e->f=it->second; e->path=p; e->open=true; e->rd=!(w||ap)||plus; e->wr=w||ap||plus; e->append=ap;
  tracef("[%d] fopen %s %s\n",a->idx,path,mode);
  hmix(S->hash,0x77+p.size());
  return mkfile(a,e,true,mode,e->wr?a->ss->obuf:a->ss->ibuf);
}
FILE* fopen(const char* path,const char* mode){ REAL(FILE*,fopen,(const char*,const char*)); if(stage()&&path&&(simpath(path)||strpbrk(mode,"wa+"))) return sim_fopen(path,mode); return r(path,mode); }
FILE* fopen64(const char* path,const char* mode){ return fopen(path,mode); }
static int sim_open(const char* path,int fl){ // libxml2 and friends: read through a memfd
  Guard g; string p=path; if(find_fault("open_fail",cur->idx,&p)){ S->faults[F_OPENFAIL]++; errno=EMFILE; return -1; }
  auto it=disk.find(path); if(it==disk.end()){ errno=ENOENT; return -1; } (void)fl;
  int fd=memfd_create("sim",0); const string& d=it->second->data; size_t o=0; REAL(ssize_t,write,(int,const void*,size_t)); while(o<d.size()){ ssize_t w=r(fd,d.data()+o,d.size()-o); if(w<=0)break; o+=w; } lseek(fd,0,SEEK_SET); xmlfds()[fd]=p; return fd; }
int open(const char* path,int fl,...){ REAL(int,open,(const char*,int,...)); va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); if(stage()&&path&&simpath(path)) return sim_open(path,fl); return r(path,fl,m); }
int open64(const char* path,int fl,...){ REAL(int,open64,(const char*,int,...)); va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); if(stage()&&path&&simpath(path)) return sim_open(path,fl); return r(path,fl,m); }
int stat(const char* path,struct stat* st) noexcept(true){ REAL(int,stat,(const char*,struct stat*)); if(stage()&&path&&simpath(path)){ Guard g; if(isdir(path)){ memset(st,0,sizeof *st); st->st_mode=S_IFDIR|0755; return 0; } auto it=disk.find(path); if(it==disk.end()){errno=ENOENT;return -1;} memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=it->second->data.size(); return 0;} return r(path,st); }
int stat64(const char* path,struct stat64* st) noexcept(true){ REAL(int,stat64,(const char*,struct stat64*)); if(stage()&&path&&simpath(path)){ Guard g; if(isdir(path)){ memset(st,0,sizeof *st); st->st_mode=S_IFDIR|0755; return 0; } auto it=disk.find(path); if(it==disk.end()){errno=ENOENT;return -1;} memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=it->second->data.size(); return 0;} return r(path,st); }
int access(const char* path,int m) noexcept(true){ REAL(int,access,(const char*,int)); if(stage()&&path&&simpath(path)){ Guard g; if(disk.count(path)) return 0; errno=ENOENT; return -1;} return r(path,m); }
int unlink(const char* path) noexcept(true){ REAL(int,unlink,(const char*)); if(stage()){ Guard g; tracef("[%d] unlink %s\n",cur->idx,path); unlinked[path]++; if(disk.erase(path)) return 0; errno=ENOENT; return -1; } return r(path); }
int remove(const char* path) noexcept(true){ REAL(int,remove,(const char*)); if(stage()) return unlink(path); return r(path); }
int rename(const char* a,const char* b) noexcept(true){ REAL(int,rename,(const char*,const char*)); if(stage()){ Guard g; auto it=disk.find(a); if(it==disk.end()){errno=ENOENT;return -1;} if(auto* f=find_fault("rename_fail",cur->idx,nullptr)){ (void)f; S->faults[F_EIO_WRITE]++; errno=EIO; return -1; } auto s=it->second; disk.erase(it); disk[b]=s; return 0; } return r(a,b); }
int mkdir(const char* path,mode_t m) noexcept(true){ REAL(int,mkdir,(const char*,mode_t)); if(stage()){ Guard g; if(find_fault("mkdir_fail",cur->idx,nullptr)){ S->faults[F_OPENFAIL]++; errno=ENOSPC; return -1; } if(disk.count(path)||!simdirs.insert(path).second){ errno=EEXIST; return -1; } return 0; } return r(path,m); }
char* getcwd(char* b,size_t n) noexcept(true){ REAL(char*,getcwd,(char*,size_t)); if(stage()){ if(!b) b=(char*)malloc(n?n:16); strcpy(b,"/sim/cwd"); return b; } return r(b,n); }
static int tmpctr=0;
char* tmpnam(char* s) noexcept(true){ static char buf[64]; char* d=s?s:buf; do snprintf(d,20,"/tmp/file%06d",++tmpctr); while(disk.count(d)); return d; }
int mkstemp(char* t) noexcept(true){ (void)t; errno=EACCES; return -1; }
int system(const char*){ errno=ENOSYS; return -1; }
void xmlCleanupParser(void){}
void sim_xmlcleanup(void){}

int __uflow(FILE* f){ REAL(int,__uflow,(FILE*)); int c=r(f); if(c==EOF&&cur&&in_child){ ActRes& ar=S->act[cur->idx]; if(++ar.polls>P.maxpolls) finish(V_SPIN,"stage %d keeps reading after end of input",cur->idx);} return c; }
int feof(FILE* f) noexcept(true){ REAL(int,feof,(FILE*)); int c=r(f); if(c&&cur&&in_child){ ActRes& ar=S->act[cur->idx]; if(++ar.polls>P.maxpolls) finish(V_SPIN,"stage %d keeps polling end of input",cur->idx);} return c; }

int fclose(FILE* f){ REAL(int,fclose,(FILE*)); Actor* a=cur; bool st=stage(); int c=r(f); if(st) for(auto& x:a->f) if(x==f) x=nullptr; return c; } // the tool may close its own standard streams

static void run_exit_handlers(Actor* a){ while(!a->ax.empty()){ AtExit x=a->ax.back(); a->ax.pop_back(); x.f(x.a); } }
int __cxa_atexit(void (*f)(void*),void* a,void* d) noexcept(true){ static int (*r)(void(*)(void*),void*,void*)=(int(*)(void(*)(void*),void*,void*))dlsym(RTLD_NEXT,"__cxa_atexit"); if(stage()){ Guard g; cur->ax.push_back({f,a}); return 0; } return r(f,a,d); }
void exit(int code) noexcept(true){
  if(!stage()){ static void (*r)(int)=(void(*)(int))dlsym(RTLD_NEXT,"exit"); r(code); }
  Actor* a=cur; run_exit_handlers(a); if(a->flushf) a->flushf(); for(int k:{1,2}) if(a->f[k]) fflush(a->f[k]);
  { // exit() flushes every open stdio stream
    vector<CFile*> cs; { Guard g; cs=cfiles; } for(auto* c:cs) if(c&&c->a==a&&c->fp&&c->own) fflush(c->fp); }
  stage_die(code&255,0); }
void _exit(int code){ if(stage()) stage_die(code&255,0); syscall(231,code); for(;;); }
void quick_exit(int code) noexcept(true) { _exit(code); }
void abort(void) noexcept(true){ if(stage()){ stage_die(134,SIGABRT); } static void (*r)()=(void(*)())dlsym(RTLD_NEXT,"abort"); r(); for(;;); }

ssize_t sim_stage_read(int fd,void* b,size_t n){ return end_read(cur,cur->end[fd],b,n); }
ssize_t sim_stage_write(int fd,const void* b,size_t n){ return end_write1(cur,cur->end[fd],(const char*)b,n); }
unsigned sim_stage_random(void){ return (unsigned)auxnext(); }
size_t sim_stage_bufsize(int fd){ return fd==0?cur->ss->ibuf*2:cur->ss->obuf*2; }
}
namespace std { void __glibcxx_assert_fail(const char* file,int line,const char* fn,const char* cond) noexcept {
  if(in_child) finish(V_ASSERT,"%s:%d: %s: %s",file?file:"?",line,fn?fn:"?",cond?cond:"?"); ::abort(); } }

static void on_signal(int sig,siginfo_t*,void*){
  S->signo=sig; finish(sig==SIGVTALRM?V_CPU:V_SIGNAL,"signal %d",sig); }

// ---------------------------------------------------------------- stage registry
struct Dso { void* h; int (*mainf)(int,char**); void (*flushf)(); };
static map<string,Dso> dsos; // tool#copy
static void load_dso(const string& dir,const string& tool,int copy){
  string key=tool+"#"+std::to_string(copy); 
  string path=dir+"/"+tool+".so"; string tmp=path;
  if(copy>0){ // the same code, loaded again: separate static data
    tmp=dir+"/"+tool+"."+std::to_string(copy)+".so"; }
  void* h=dlopen(tmp.c_str(),RTLD_NOW|RTLD_LOCAL);
  if(!h){ fprintf(stderr,"dlopen %s: %s\n",tmp.c_str(),dlerror()); ::_exit(3); }
  Dso d; d.h=h; d.mainf=(int(*)(int,char**))dlsym(h,"sim_tool_main"); d.flushf=(void(*)())dlsym(h,"sim_dso_flush");
  if(!d.mainf||!d.flushf){ fprintf(stderr,"%s: no entry point\n",tmp.c_str()); ::_exit(3); }
  dsos[key]=d;
}

static void coro_entry() noexcept {
  Actor* a=cur;
  g_acct=a->idx;
  int rc=a->mainf((int)a->argv.size()-1,a->argv.data());
  exit(rc);
}

static void setup_end(Actor* a,int k,const string& s){
  End& e=a->end[k]; e.open=true; e.rd=(k==0); e.wr=(k!=0);
  if(k==2||s.empty()){ e.t= k==2?End::ERRSINK:End::NONE; return; }
  if(s[0]=='p'){ e.t=End::PIPE; e.pipe=atoi(s.c_str()+1); Pipe& p=pipes[e.pipe]; if(k==0) p.readers++; else p.writers++; }
  else if(s[0]=='f'){ e.t=End::FIL; e.path=s.substr(1); auto& f=disk[e.path]; if(!f) f=std::make_shared<File>(); if(k==1) f->data.clear(); e.f=f; }
}

static bool runnable(Actor* a){
  if(a->st==DONE||a->stall>S->now) return false;
  if(a->k==A_STAGE){
    if(a->st==RUN) return true;
    Pipe& p=pipes[a->waitpipe];
    if(a->st==BLK_R) return p.avail()||p.writers==0;
    return p.avail()<p.cap||p.readers==0;
  }
  CliSpec& c=P.clis[a->cli];
  if(a->k==A_RECV){ Pipe& p=pipes[c.recv]; return p.avail()||p.writers==0; }
  Pipe& p=pipes[c.send];
  if(a->op>=c.ops.size()) return true;
  Op& o=c.ops[a->op];
  switch(o.k){
    case 's': return p.avail()<p.cap||p.readers==0;
    case 'a': return S->cli[a->cli].nuls>=(uint32_t)atoll(o.d.c_str()) || S->cli[a->cli].eof;
    case 'b': return S->cli[a->cli].len>=(uint64_t)atoll(o.d.c_str()) || S->cli[a->cli].eof;
    default: return true;
  }
}
static Actor* recv_actor(int cli){ for(auto* a:A) if(a->k==A_RECV&&a->cli==cli) return a; return nullptr; }
static void client_step(Actor* a){
  CliSpec& c=P.clis[a->cli]; CliRes& R=S->cli[a->cli];
  if(a->k==A_RECV){
    Pipe& p=pipes[c.recv];
    if(!p.avail()){ R.eof=1; p.readers--; actor_done(a,0,0); return; }
    size_t m=p.avail(); if(m>1){ uint32_t k=choose(K_SHORTREAD,m); if(k){m=k; S->faults[F_SHORTREAD]++;} }
    const char* d=p.buf.data()+p.off;
    for(size_t i=0;i<m;i++){ if(R.len<OUTCAP) S->out[a->cli][R.len]=d[i]; R.len++; if(!d[i]){ if(R.nstamp<MAXSTAMP){ S->stamp[a->cli][R.nstamp]=S->now; int64_t lv=0,bl=0; for(auto* x:A) if(x->k==A_STAGE){ lv+=x->live; bl+=x->blocks; } S->live_at[a->cli][R.nstamp]=lv; S->blocks_at[a->cli][R.nstamp]=bl; R.nstamp++; } R.nuls++; } }
    p.take(m); hmix(S->hash,0x40000+m);
    tracef("client %d receives %zu (total %llu, %u NULs)\n",a->cli,m,(unsigned long long)R.len,R.nuls);
    if(R.len>=OUTCAP) finish(V_MEM,"output without bound");
    return;
  }
  Pipe& p=pipes[c.send];
  if(a->op>=c.ops.size()){ p.writers--; actor_done(a,0,0); return; }
  Op& o=c.ops[a->op];
  switch(o.k){
    case 's': {
      if(p.readers==0){ a->op=c.ops.size(); return; }
      size_t m=std::min(o.d.size()-a->opoff,p.cap-p.avail());
      if(m>1){ uint32_t k=choose(K_SHORTWRITE,m); if(k){m=k; S->faults[F_SHORTWRITE]++;} }
      p.buf.append(o.d,a->opoff,m); a->opoff+=m; hmix(S->hash,0x50000+m);
      tracef("client %d sends %zu\n",a->cli,m);
      if(a->opoff>=o.d.size()){ a->op++; a->opoff=0; }
      break; }
    case 'x': { Actor* r=recv_actor(a->cli); if(r&&r->st!=DONE){ pipes[c.recv].readers--; actor_done(r,0,0); } a->op++; break; }
    case 'k': { int t=atoi(o.d.c_str()); if(t<(int)A.size()&&A[t]->st!=DONE){ S->faults[F_CRASH]++; tracef("stage %d killed\n",t); actor_done(A[t],137,9);} a->op++; break; }
    default: a->op++; 
  }
  R.opdone=a->op;
}

static void child_run(){
  in_child=true;
  rseed(P.seed); aux_state=P.rngseed*77+13;
  struct rlimit rl={16ull<<30,16ull<<30}; setrlimit(RLIMIT_AS,&rl); struct rlimit nc={0,0}; setrlimit(RLIMIT_CORE,&nc);
  for(auto& kv:P.caps) pipes[kv.first].cap=kv.second;
  for(auto& kv:P.disk){ auto f=std::make_shared<File>(); f->data=kv.second; disk[kv.first]=f; }
  stack_t ss; ss.ss_sp=malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; 
  for(int s: {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGVTALRM,SIGTRAP,SIGSYS}) sigaction(s,&sa,nullptr);
  struct itimerval tv={{0,0},{P.cpu,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
  int dn=::open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1); dup2(dn,2);

  for(size_t i=0;i<P.stages.size();i++){
    StageSpec& s=P.stages[i]; Actor* a=new Actor; a->idx=A.size(); a->ss=&s; 
    auto it=dsos.find(s.tool+"#"+std::to_string(s.copy)); if(it==dsos.end()) finish(V_INTERNAL,"no tool %s#%d",s.tool.c_str(),s.copy);
    a->mainf=it->second.mainf; a->flushf=it->second.flushf;
    a->argstore.push_back("apertium-"+s.tool); for(auto& x:s.argv) a->argstore.push_back(x);
    A.push_back(a);
  }
  for(size_t c=0;c<P.clis.size();c++){
    Actor* s=new Actor; s->k=A_SENDER; s->cli=c; s->idx=A.size(); A.push_back(s); pipes[P.clis[c].send].writers++;
    Actor* r=new Actor; r->k=A_RECV; r->cli=c; r->idx=A.size(); A.push_back(r); pipes[P.clis[c].recv].readers++;
  }
  S->nact=P.stages.size(); S->ncli=P.clis.size();
  for(auto& f:P.faults) if(f.kind=="newfail"&&f.actor>=0) newfail_at[f.actor]=f.at;
  for(auto* a:A) if(a->k==A_STAGE){
    for(auto& x:a->argstore) a->argv.push_back((char*)x.c_str()); a->argv.push_back(nullptr);
    setup_end(a,0,a->ss->in); setup_end(a,1,a->ss->out); setup_end(a,2,"");
    a->f[0]=mkfile(a,&a->end[0],false,"r",a->ss->ibuf); a->f[1]=mkfile(a,&a->end[1],false,"w",a->ss->obuf); a->f[2]=mkfile(a,&a->end[2],false,"w",0); setvbuf(a->f[2],nullptr,_IONBF,0);
    const size_t SZ=2u<<20; a->stack=(char*)mmap(nullptr,SZ+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(a->stack,4096,PROT_NONE);
    if(P.junk){ memset(a->stack+SZ-49152,P.junk,49152); }
    getcontext(&a->ctx); a->ctx.uc_stack.ss_sp=a->stack; a->ctx.uc_stack.ss_size=SZ; a->ctx.uc_link=&sched_ctx; makecontext(&a->ctx,(void(*)())coro_entry,0);
  }
  if(P.heapseed){ uint64_t h=P.heapseed; for(int i=0;i<40;i++){ void* volatile p=__libc_malloc(16+sm64(h)%3000); if(sm64(h)&1) __libc_free(p);} }
  if(P.junk){ mallopt(M_PERTURB,P.junk); S->faults[F_JUNK]++; }
  int lastsw=-1; uint64_t eh0[2];
  for(;;){
    Actor* run[MAXACT]; int n=0; bool stalled=false, alldone=true; int lasti=-1;
    uint64_t mins=~0ull;
    for(auto* a:A){ if(a->st!=DONE){ alldone=false; if(a->stall>S->now){ stalled=true; mins=std::min(mins,a->stall);} } }
    if(alldone) finish(V_DONE);
    // order: last-run actor first, then the others round robin
    int na=A.size(); int base=lastsw<0?0:lastsw;
    for(int i=0;i<na;i++){ Actor* a=A[(base+i)%na]; if(runnable(a)){ run[n++]=a; } }
    (void)lasti;
    if(n==0){ if(stalled){ S->now=mins; continue; } finish(V_DEADLOCK,"no actor can run"); }
    uint32_t c=choose(K_SWITCH,n); Actor* a=run[c];
    if(c) S->faults[F_SWITCH]++;
    if(a->idx!=lastsw){ S->switches++; hmix(S->sched_hash,a->idx); }
    lastsw=a->idx;
    if(n>1||stalled){ uint32_t st=choose(K_STALL,65); if(st){ a->stall=S->now+st*st; S->faults[F_STALL]++; tracef("actor %d stalls %u ticks\n",a->idx,st*st); continue; } }
    S->steps++; S->now++;
    if(S->steps>P.maxsteps) finish(V_STEPS,"more than %llu steps",(unsigned long long)P.maxsteps);
    if(a->k!=A_STAGE){ client_step(a); continue; }
    a->st=RUN; cur=a; stdin=a->f[0]; stdout=a->f[1]; stderr=a->f[2]; 
    optind=a->optind_; opterr=a->opterr_; optopt=a->optopt_; optarg=a->optarg_;
    if(a->optind_==1&&a->news==0) optind=0;
    uint64_t* eg=(uint64_t*)abi::__cxa_get_globals(); eh0[0]=eg[0]; eh0[1]=eg[1]; eg[0]=a->eh[0]; eg[1]=a->eh[1];
    g_acct=a->idx; errno=a->saved_errno;
    // setcontext from stage_die lands here as well
    swapcontext(&sched_ctx,&a->ctx);
    g_acct=-1;
    a=cur; a->eh[0]=eg[0]; a->eh[1]=eg[1]; eg[0]=eh0[0]; eg[1]=eh0[1];
    a->optind_=optind; a->opterr_=opterr; a->optopt_=optopt; a->optarg_=optarg;
    S->act[a->idx].maxlive=a->maxlive; S->act[a->idx].live=a->live>0?a->live:0;
    cur=nullptr; stdin=real_in; stdout=real_out; stderr=real_err;
  }
}

// ---------------------------------------------------------------- protocol with the driver
static bool rd_exact(FILE* f,string& s,size_t n){ s.resize(n); return n==0||fread(&s[0],1,n,f)==n; }
static vector<string> split(const string& s,char d){ vector<string> v; size_t p=0; for(;;){ size_t q=s.find(d,p); if(q==string::npos){ v.push_back(s.substr(p)); return v;} v.push_back(s.substr(p,q-p)); p=q+1; } }
static bool read_spec(FILE* in){
  P=Spec(); char key[64]; size_t len; 
  for(;;){
    if(fscanf(in,"%63s %zu",key,&len)!=2) return false;
    if(fgetc(in)!='\n') return false;
    string d; if(!rd_exact(in,d,len)) return false; fgetc(in);
    string k=key;
    if(k=="go") return true;
    auto u=[&]{return strtoull(d.c_str(),nullptr,10);};
    if(k=="seed") P.seed=u();
    else if(k=="stage"){ auto v=split(d,'\x1f'); StageSpec s; s.tool=v[0]; s.copy=atoi(v[1].c_str()); s.in=v[2]; s.out=v[3]; s.ibuf=atoi(v[4].c_str()); s.obuf=atoi(v[5].c_str()); s.argv.assign(v.begin()+6,v.end()); P.stages.push_back(s); }
    else if(k=="client"){ auto v=split(d,'\x1f'); CliSpec c; c.send=atoi(v[0].c_str()); c.recv=atoi(v[1].c_str()); P.clis.push_back(c); }
    else if(k=="op"){ P.clis.back().ops.push_back({d[0],d.substr(1)}); }
    else if(k=="fault"){ auto v=split(d,'\x1f'); P.faults.push_back({v[0],atoi(v[1].c_str()),v[2],strtoull(v[3].c_str(),nullptr,10)}); }
    else if(k=="cap"){ auto v=split(d,'\x1f'); P.caps[atoi(v[0].c_str())]=strtoull(v[1].c_str(),nullptr,10); }
    else if(k=="disk"){ size_t p=d.find('\0'); P.disk[d.substr(0,p)]=d.substr(p+1); }
    else if(k=="rate"){ auto v=split(d,'\x1f'); for(int i=0;i<NKIND&&i<(int)v.size();i++) P.rate[i]=strtoull(v[i].c_str(),nullptr,10); }
    else if(k=="replay"){ P.replay=true; if(!d.empty()) for(auto& x:split(d,' ')){ unsigned a,b; if(sscanf(x.c_str(),"%u:%u",&a,&b)==2) P.ov[a]=b; } }
    else if(k=="maxsteps") P.maxsteps=u(); else if(k=="maxmem") P.maxmem=u(); else if(k=="maxpolls") P.maxpolls=u(); else if(k=="quota") P.quota=u();
    else if(k=="junk") P.junk=u(); else if(k=="rngseed") P.rngseed=u(); else if(k=="heapseed") P.heapseed=u(); else if(k=="trace") P.trace=u(); else if(k=="cpu") P.cpu=u(); else if(k=="nosigpipe") P.nopower=u(); else if(k=="wantdisk") P.wantdisk=u();
    else { fprintf(stderr,"bad key %s\n",key); return false; }
  }
}
// The driver side of the parent allocates nothing and reads no specification: every run is a
// fork of one and the same heap, so what a run does never depends on the runs before it.
enum : size_t { BUFSZ=512u<<20 };
static char* bufmap(int fl){ void* p=mmap(nullptr,BUFSZ,PROT_READ|PROT_WRITE,fl|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); ::_exit(3); } return (char*)p; }
static char *ob,*tb,*specbuf; static size_t on,tn,speclen;
static void oraw(const void* d,size_t n){ if(on+n>BUFSZ) ::_exit(3); memcpy(ob+on,d,n); on+=n; }
static void put(const char* k,const void* d,size_t n){ char b[96]; int m=snprintf(b,96,"%s %zu\n",k,n); oraw(b,m); oraw(d,n); oraw("\n",1); }
static void putu(const char* k,uint64_t v){ char b[32]; int n=snprintf(b,32,"%llu",(unsigned long long)v); put(k,b,n); }
static void tadd(const char* fmt,...){ va_list ap; va_start(ap,fmt); int n=vsnprintf(tb+tn,512,fmt,ap); va_end(ap); tn+=n; if(tn+1024>BUFSZ) ::_exit(3); }
static void tput(const char* k){ put(k,tb,tn); tn=0; }
static void oflush(){ size_t p=0; while(p<on){ ssize_t r=::write(1,ob+p,on-p); if(r<0&&errno==EINTR) continue; if(r<=0) ::_exit(3); p+=r; } on=0; }
static bool rawread(char* d,size_t n){ while(n){ ssize_t r=::read(0,d,n); if(r<0&&errno==EINTR) continue; if(r<=0) return false; d+=r; n-=r; } return true; }
typedef unsigned long long ull;
static void emit(int wstatus){
  int v=S->verdict; 
  if(WIFSIGNALED(wstatus)){ v=V_SIGNAL; S->signo=WTERMSIG(wstatus); snprintf(S->msg,sizeof S->msg,"killed by signal %d",S->signo); }
  else if(v<0) { v=V_INTERNAL; snprintf(S->msg,sizeof S->msg,"child ended without a verdict (%d)",wstatus); }
  putu("verdict",v); putu("cur",S->cur+1); putu("signo",S->signo); put("msg",S->msg,strlen(S->msg));
  putu("steps",S->steps); putu("now",S->now); putu("choices",S->choices); putu("switches",S->switches);
  putu("sched_hash",S->sched_hash);
  uint64_t h=S->hash; hmix(h,v);
  for(int i=0;i<NFAULT;i++) tadd("%s%s=%llu",i?" ":"",FAULT_NAMES[i],(ull)S->faults[i]); tput("faults");
  for(int i=0;i<S->nact;i++){ ActRes& r=S->act[i]; tadd("%d %d %d %llu %llu %llu %llu",r.done,r.status,r.sig,(ull)r.consumed,(ull)r.produced,(ull)r.maxlive,(ull)r.live); tput("act"); put("err",r.err,r.errlen); }
  for(int i=0;i<S->ncli;i++){ CliRes& c=S->cli[i]; size_t L=std::min<uint64_t>(c.len,OUTCAP); put("out",S->out[i],L); 
    for(size_t k=0;k<L;k++) h=(h^(unsigned char)S->out[i][k])*0x100000001b3ull;
    tadd("%u %d %u",c.nuls,c.eof,c.opdone); tput("cli");
    for(uint32_t k=0;k<c.nstamp;k++) tadd("%s%llu:%llu:%llu",k?" ":"",(ull)S->stamp[i][k],(ull)S->live_at[i][k],(ull)S->blocks_at[i][k]); tput("stamps"); }
  putu("hash",h);
  if(S->nrec<REC_CAP) for(uint64_t i=0;i<S->nrec;i++) tadd("%s%llu:%llu",i?" ":"",(ull)S->rec_i[i],(ull)S->rec_v[i]); else tadd("overflow");
  tput("rec");
  if(S->tracelen) put("trace",S->trace,S->tracelen);
  // disk contents: name NUL len NUL data
  if(S->disklen) put("disk",S->disk,S->disklen);
  put("end","",0); oflush();
}
static void dump_disk(){ size_t o=0; for(auto& kv:disk){ string h=kv.first; h+='\0'; h+=std::to_string(kv.second->data.size()); h+='\0'; size_t n=kv.second->data.size(); if(o+h.size()+n>DISKCAP) break; memcpy(S->disk+o,h.data(),h.size()); o+=h.size(); memcpy(S->disk+o,kv.second->data.data(),n); o+=n; } S->disklen=o; }

// ---------------------------------------------------------------- coverage (only in a SIM_COVDIR build)
#include <fcntl.h>
static uint64_t* covtab=nullptr; enum { COVN=1<<19 };
extern "C" void __sanitizer_cov_trace_pc(){
  if(!covtab) return; uint64_t pc=(uint64_t)__builtin_return_address(0);
  for(uint64_t k=(pc*0x9e3779b97f4a7c15ull)>>45;;k++){ k&=COVN-1; if(covtab[k]==pc) return; if(!covtab[k]){ covtab[k]=pc; return; } } }
static void cov_start(){ const char* d=getenv("SIM_COVDIR"); if(!d) return;
  string p=string(d)+"/"+std::to_string(getpid()); int f=open((p+".tab").c_str(),O_RDWR|O_CREAT,0644); if(f<0||ftruncate(f,COVN*8)) return;
  covtab=(uint64_t*)mmap(nullptr,COVN*8,PROT_READ|PROT_WRITE,MAP_SHARED,f,0);
  FILE* i=fopen("/proc/self/maps","r"); FILE* o=fopen((p+".maps").c_str(),"w"); int c; while((c=fgetc(i))!=EOF) fputc(c,o); fclose(i); fclose(o); }

int main(int argc,char** argv){
  if(argc<3){ fprintf(stderr,"usage: simd DSODIR tool[:copies] ...\n"); return 3; }
  // one address space layout, so that a replay in another process is exact
  { int cur_p=personality(0xffffffff); if(cur_p>=0&&!(cur_p&ADDR_NO_RANDOMIZE)&&!getenv("SIMD_REEXEC")){ if(personality(cur_p|ADDR_NO_RANDOMIZE)>=0){ setenv("SIMD_REEXEC","1",1); execv("/proc/self/exe",argv); } } unsetenv("SIMD_REEXEC"); }
  setenv("LC_ALL","C.UTF-8",1); unsetenv("LANGUAGE"); setlocale(LC_ALL,"C.UTF-8");
  real_in=stdin; real_out=stdout; real_err=stderr;
  xmlInitParser(); UErrorCode ec=U_ZERO_ERROR; u_init(&ec);
  for(int i=2;i<argc;i++){ string t=argv[i]; int c=1; size_t p=t.find(':'); if(p!=string::npos){ c=atoi(t.c_str()+p+1); t=t.substr(0,p);} for(int k=0;k<c;k++) load_dso(argv[1],t,k); }
  cov_start();
  S=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  ob=bufmap(MAP_PRIVATE); tb=bufmap(MAP_PRIVATE); specbuf=bufmap(MAP_SHARED);
  put("ready","",0); oflush(); fflush(stdout); fflush(stderr);
  size_t hdr=offsetof(Shm,rec_i);
  char len[17]; len[16]=0;
  while(rawread(len,16)){
    speclen=strtoull(len,nullptr,10); if(speclen>=BUFSZ||!rawread(specbuf,speclen)) return 3;
    memset(S,0,hdr); S->tracelen=0; S->verdict=-1;
    pid_t pid=fork();
    if(pid==0){ FILE* in=fmemopen(specbuf,speclen,"r"); if(in&&read_spec(in)){ fclose(in); child_run(); } ::_exit(0); }
    int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR);
    emit(st);
  }
  return 0;
}

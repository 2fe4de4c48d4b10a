// Deterministic simulator for casync-nano: shared types.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <array>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef std::vector<u8> Bytes;
typedef std::string Str;
typedef std::array<u8,32> Id;

// ---------------------------------------------------------------- PRNG
static inline u64 mix64(u64 x){ x += 0x9e3779b97f4a7c15ull; x = (x^(x>>30))*0xbf58476d1ce4e5b9ull; x = (x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
struct Rng {
	u64 s; explicit Rng(u64 seed=0):s(mix64(seed)){}
	u64 next(){ s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	u64 below(u64 n){ return n? next()%n : 0; }
	u64 range(u64 a,u64 b){ return a+below(b-a+1); }
	bool pct(int p){ return (int)below(100) < p; }
	template<class T> T pick(std::initializer_list<T> l){ return *(l.begin()+below(l.size())); }
};
static inline u64 h2(u64 a,u64 b){ return mix64(a*0x100000001b3ull ^ mix64(b)); }

// ---------------------------------------------------------------- reference algorithms (ref.cpp)
struct CParams { u32 min=64, avg=256, max=1024; };
struct CChunk { u64 off; u32 len; };
Id ref_sha(const u8*p,size_t n);
std::vector<CChunk> ref_chunk(const u8*p,size_t n,const CParams&cp);
void ref_xchacha(u8*out,const u8*in,size_t n,const u8 key[32],const u8 nonce[24]);
Str hex(const u8*p,size_t n);
u64 fnv(u64 h,const void*p,size_t n);
struct IdxEntry { u64 end; Id id; };
struct IdxParsed { bool structural_ok=false; CParams cp; std::vector<IdxEntry> e; bool entries_ok=false; };
Bytes ref_make_index(const CParams&cp,const std::vector<IdxEntry>&e);
IdxParsed ref_parse_index(const Bytes&b);
bool params_usable(u64 mn,u64 av,u64 mx);

// ---------------------------------------------------------------- plan
enum { TOOL_CSN=0, TOOL_CRYPT=1, TOOL_PATCHDD=2 };
enum { SEG_RAND=0, SEG_ZERO=1, SEG_TEXT=2, SEG_DENSE=3 };
struct Seg { int kind; u64 seed; u32 len; };
struct Flip { u32 off; u32 x; };
enum { MUT_TRUNC=1, MUT_APPEND, MUT_BYTE, MUT_MAGIC, MUT_FOOTER, MUT_FLAGS, MUT_PARAMS, MUT_LEN_HI, MUT_ZEROLEN, MUT_BACK, MUT_HUGE, MUT_SETOFF, MUT_DUPID, MUT_HDRLEN, MUT_TABMAGIC, MUT_WORD, MUT_DUPZERO, MUT_BIGREP, MUT_BIGLEN, MUT_NEARID, MUT_NEARREP, MUT_MAX };
struct Mut { int kind; u64 a,b; };

enum Role { R_OTHER=0, R_INDEX=1, R_TARGET=2, R_KEY=3, R_SEED0=4, R_SIDE0=8, R_CHUNKIN=12, R_OUT=13, R_SRC=14, R_STD=15, R_MAX=16 };
enum Op { O_OPEN=1, O_CLOSE, O_READ, O_WRITE, O_SEEK, O_STAT, O_IOCTL, O_DOSYNC, O_ALLOC, O_HTTP, O_DATA, O_SLEEP, O_CLOCK, O_SOCK, O_SEND, O_RECV, O_META, O_CRYPT, O_CURLCFG, O_ENV, O_MAX };
enum FK { F_NONE=0, F_EINTR, F_SHORT, F_EIO, F_DEAD, F_ENOSPC, F_FLIP, F_ROT, F_WB, F_NULL, F_EMFILE,
	// http
	H_REFUSED, H_DNS, H_CTIMEOUT, H_STALL, H_PAUSE, H_RESET, H_PARTIAL, H_EMPTYREPLY, H_TLS, H_STATUS, H_REDIRECT, H_REDIRLOOP,
	H_BODYFLIP, H_BODYOTHER, H_BODYTRUNC, H_BODYGARBAGE, H_BODYRAW, H_BODYEMPTY, H_BODYBOMB, H_BODYTRAIL, H_BODYCROSS, H_NOTFOUND, H_BODYMULTI, H_BODYSHORT, H_BODYENDLESS, H_DRIP, F_APPEAR, F_KMAX };
extern const char*OPN[]; extern const char*FKN[]; extern const char*ROLEN[];

struct Rate { int op, role, kind; u32 ppm, from, to, max; u64 argmod; u64 argadd; u32 count=0; };  // arg = rnd % argmod + argadd if argmod
struct Fault { int inc, op, role; u32 occ; int kind; u64 arg; };
struct Crash { int kind=0; /*0 none 1 kill 2 power*/ u64 at=0; int mode=0; u64 seed=0; };
struct Inc { Crash crash; std::vector<Rate> rates; bool healthy=false; };

struct LocalSrc { std::vector<Seg> segs; bool blk=false; std::vector<Flip> flips; int side=0; std::vector<Seg> sidesegs; std::vector<Mut> sidemuts; bool alias=false; bool missing=false; u32 pad=0; u64 hole=0; u32 holeat=0; };
struct HttpSrc { bool enc=false; int keyspec=0; u64 key=0; bool wrongkey=false; bool slash=false; bool https=false; u64 missseed=0; u32 missp=0; int zlevel=3; int zflags=0; u32 pad=0; int same=0; /* 1+index of the store with the same base URL, of the other kind */ };
struct StoreRef { int type; int idx; }; // type 0 local 1 http 2 target
struct ToolFile { u64 seed=0; u32 len=0; int encrypted=0; int pre=0; int dir=0; u32 pad=0; };  // csn-tool: pre 0 no output yet, 1 complete output, 2 foreign output, 3 input missing, 4 bad name

struct Plan {
	u64 seed=0; int tool=0;
	CParams cp; bool cdc=true;
	std::vector<Seg> segs; std::vector<Mut> muts;
	// target
	bool tblk=true; bool tmissing=false; bool tsmall=false; std::vector<Seg> tinit; u32 tprefix=0; u32 tpartial=0; u32 textra=0; std::vector<Flip> tflips; u32 tpad=0; u64 hole=0; u32 holeat=0;
	std::vector<LocalSrc> locals; std::vector<HttpSrc> https; std::vector<StoreRef> order;
	bool casync=false; int optstyle=0; int kcapi=0; int tty=0; int loglevel=0; int closed=0;
	int frag=0; u64 fragseed=0; u64 latseed=0;
	bool randomfaults=true; std::vector<Fault> faults;
	std::vector<Inc> incs;
	int pair=0;      // also run a variant and compare: 1 other front end, 2 without short/interrupted transfers, 3 without kernel hashing, 4 in other surroundings
	int bad=0; u64 badarg=0; // something about the command line or the environment that cannot work
	// csn-tool / patchdd
	int tkind=0; std::vector<ToolFile> files; u64 tkey=0; int tkeyspec=0; int targs=0; bool srcblk=false; u64 argseed=0; bool user=false, samepid=false;
};
Str plan_to_text(const Plan&p);
bool plan_from_text(const Str&s,Plan&p,Str&err);
Bytes seg_bytes(const std::vector<Seg>&segs,const CParams&cp);

// ---------------------------------------------------------------- simulated world
struct Inode {
	int role=0; bool blk=false; bool dir=false; u32 mode=0644;
	Bytes cache, dur; std::set<u32> dirty; std::set<u32> bad; bool dead=false; bool sizedirty=false;
	bool modified=false; u64 id=0;
	u64 lastend=~0ull; bool scanhole=false; u64 holeat=0, hole=0; // hole bytes of zeros, not stored, begin at holeat; what follows is stored right behind
	u64 lsize() const { return cache.size()+hole; }
	void write(u64 off,const u8*p,size_t n);
	int sync();            // 0 ok, -1 a write-back failure was reported
	void powerloss(int mode,u64 seed);
};
typedef std::shared_ptr<Inode> InodeP;
struct Ofd {
	u64 algpend=0; InodeP ino; u64 pos=0; int flags=0; int kind=0; /*0 file 1 alg 2 algop 3 std 4 null 5 dir 6 curl's connection*/ int stdno=0; Bytes acc; bool bound=false; bool fin=false; Str path; };
struct DirOp { int kind; Str a; InodeP ino; Str b; }; // 0 create a=ino, 1 unlink a, 2 rename a->b

enum Outcome { OUT_EXIT=1, OUT_CRASH, OUT_ABORT, OUT_SIGNAL, OUT_HANG, OUT_HEAP };
enum HangBy { HB_NONE=0 };
struct WriteRec { u64 off; u32 len; bool good; u64 op; };
struct HttpRec { u64 op; u64 t0,t1; int server; Id id; bool badurl; int code; int curl; int fk; bool wrongext; bool served_ok; int status; size_t delivered; bool redirected; bool hard=false; bool transient=false; u64 live=0; };
struct FiredRec { Fault f; u64 op; bool after_target; u64 extra; };

struct Server { HttpSrc h; std::map<Id,Bytes> body; Str host; Str base; u8 key[32]; u32 nreq=0; };

struct World {
	// persistent over incarnations
	std::map<Str,InodeP> dir, durdir; std::vector<DirOp> pend; u64 nextino=1;
	std::vector<Server> servers; std::map<Id,Bytes> content; std::vector<Id> idlist; std::map<Id,Id> near; // an id of the index that is that of no chunk, but nearly this one
	std::function<void(u64)> onappear; std::map<Str,Str> env; int tty=0, closed=0; bool outtty()const{ return (tty==1||tty==2)&&!(closed&2); } // 1 all, 2 input and output, 3 log only

	bool user=false, samepid=false; bool mapdenied=false; int hangsecs=0; Bytes image; std::vector<u8> imask; bool image_valid=false; // expected image for write checking (imask 1: writable)
	u64 now=0;
	int cur=0; // incarnation
	bool explicitf=false; std::map<std::array<u32,4>,Fault> emap; std::vector<Rate> rates; Rng rng; u64 budget_faults=0;
	Str stdin_data; Bytes stdout_data;
	int frag=0; u64 fragseed=0, latseed=0;
	// per incarnation
	std::vector<std::shared_ptr<Ofd>> fds; u64 ops=0, opcap=3000000, readcap=0; u64 crash_at=0; u64 crash_seed=0; u64 timecap=0; u64 incstart=0;
	std::map<u32,u32> occ;
	std::vector<FiredRec> fired; std::vector<WriteRec> twrites; std::vector<HttpRec> http; std::vector<Str> contain;
	std::vector<std::pair<u64,int>> oplog; // ops of interest for crash placement
	bool target_touched=false; bool target_written=false; u64 evhash=1469598103934665603ull;
	u64 live=0, peak=0; u64 nalloc=0; std::vector<u64> live_at_req; u32 fd_peak=0; bool heapbad=false; Str heapmsg;
	std::vector<void*> zs, evs;
	std::vector<void(*)()> atex;
	bool verbose=false; std::vector<Str> trace; Str logbuf;
	u8 heapfill=0xA5, heapfree=0xDD; int stackfill=-1, pid=4242; bool brkout=false, brkerr=false; std::vector<std::pair<u64,Str>> outev; // what the result must not depend on; what was printed when
	std::vector<Str> secrets; std::map<int,Str> leaktail; Str leak; std::array<u8,8192> lfilter; std::set<Str> lwin; // what must never leave the process
	void add_secret(const u8 key[32]); void scan(int stream,const void*p,size_t n,const char*where);
	sigjmp_buf jb; int exitcode=0; bool running=false; int sig=0;
	int stdin_pos=0; u64 readbytes=0; bool tool_allow_out=false; std::set<Str> allowed_out; Str outdir;
	std::vector<u64> sleeps;
	int target_dur_lost=0; int outcome=0; u64 memcap=1ull<<32; u32 zpeak=0, epeak=0, cpeak=0, ccur=0; bool wb_failed=false; u32 fragctr=0; u64 maxbody=0;

	Fault*decide(int op,int role);
	bool enter(int op,int role,bool cancrash=true); // true: the crash point is here and the caller must call die()
	[[noreturn]] void die(int why);
	void ev(u64 a,u64 b,u64 c){ u64 v[3]={a,b,c}; evhash=fnv(evhash,v,sizeof v); }
	void tr(const char*fmt,...) __attribute__((format(printf,2,3)));
	InodeP mk(const Str&path,int role,bool blk,const Bytes&data);
	void powerloss(int mode,u64 seed);
};
extern World*W;

struct ProcResult { bool cpuhang=false; int outcome=0; int code=0; int sig=0; u64 ops=0; u64 dt=0; u64 hash=0; std::vector<FiredRec> fired; std::vector<WriteRec> tw; std::vector<HttpRec> http; std::vector<Str> contain; std::vector<std::pair<u64,int>> oplog; u64 peak=0; std::vector<u64> live_at_req; u32 fd_peak=0; Str heapmsg; bool heapbad=false; std::vector<u64> sleeps; bool target_written=false; Bytes out; u32 zpeak=0,epeak=0,cpeak=0; bool wb_failed=false; Str log; u64 maxbody=0; Str leak; std::vector<std::pair<u64,Str>> outev; };
ProcResult run_process(World&w,int tool,const std::vector<Str>&argv);

// ---------------------------------------------------------------- running a plan and judging it
enum Kind { K_WRONG_IMAGE=0, K_BAD_WRITE, K_CONTAIN, K_NOT_DURABLE, K_MUST_SUCCEED, K_PREFIX_FETCH, K_PREFIX_WRITE, K_PREFIX_SHRINK, K_ECONOMY, K_ORDER, K_RETRY, K_BACKOFF, K_DISABLE, K_HANG, K_CRASH, K_MEM, K_INDEX_ACCEPTED, K_TARGET_TOUCHED, K_MEMORY_BOUND, K_FD_BOUND, K_URL, K_EQUIV, K_TOOL_PARTIAL, K_TOOL_WRONG, K_TOOL_OVERWRITE, K_DD_WRONG, K_DD_WRITE, K_OUTSIDE, K_REJECTED_GOOD, K_RERUN, K_LEAK, K_SETUP, K_INPUTS, K_PROGRESS, K_MAX };
extern const char*KN[];
struct Violation { int kind; int inc; Str msg; };
struct RunResult {
	std::vector<Violation> v; u64 hash=0; u64 simtime=0; u64 ops=0; u64 sig=0; bool nontrivial=false; std::vector<FiredRec> fired; u64 crashes_kill=0, crashes_power=0; std::vector<Str> trace; std::vector<int> outcomes; std::map<Str,u64> probes; std::vector<std::vector<std::pair<u64,int>>> oplogs; u64 nhttp=0, nincs=0; std::vector<u64> inc_ops;
};
extern void (*plan_hook)(const Plan&p);
RunResult run_plan(const Plan&p,bool verbose=false);
Bytes zcomp(const u8*p,size_t n,int level,int flags);
Bytes srv_encode(const Server&s,const Id&nonceid,const u8*p,size_t n);
void plan_shape(const Plan&p,std::vector<size_t>&nchunks);
Plan gen_plan(const Str&prop,u64 seed,bool thorough); bool is_bigscan(const Plan&p); bool no_huge();
u64 kinds_for(const Str&prop);
static inline u64 kb(int k){ return 1ull<<k; }

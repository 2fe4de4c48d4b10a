// The simulated operating system: files, block devices, page cache vs durable storage, clock,
// heap, stdio, signals. Every function sim_X replaces libc's X inside the code under test.
#include "sim.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <poll.h>
#include <time.h>
#include <getopt.h>
#include <linux/fs.h>
#include <linux/if_alg.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <zstd.h>

World*W;
const char*OPN[]={"?","open","close","read","write","seek","stat","ioctl","fsync","alloc","http","data","sleep","clock","sock","send","recv","meta","crypt","curlcfg","env"};
const char*FKN[]={"none","eintr","short","eio","dead","enospc","flip","rot","writeback","null","emfile",
 "refused","dns","conntimeout","stall","pause","reset","partial","emptyreply","tls","status","redirect","redirloop",
 "bodyflip","bodyother","bodytrunc","bodygarbage","bodyraw","bodyempty","bodybomb","bodytrail","bodycross","notfound","bodymulti","bodyshort","bodyendless","dripping","appear"};
const char*ROLEN[]={"other","index","target","key","seed0","seed1","seed2","seed3","side0","side1","side2","side3","chunkin","out","src","std"};

void World::tr(const char*fmt,...)
{
	if(!verbose) return;
	char b[400]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
	char c[480]; snprintf(c,sizeof c,"[run %d op %llu t=%.6f] %s",cur,(unsigned long long)ops,now/1e9,b);
	trace.push_back(c);
}
void World::die(int why){ outcome=why; running=false; siglongjmp(jb,1); }
extern volatile u64 g_progress;
bool World::enter(int op,int role,bool cancrash)
{
	ops++; g_progress=g_progress+1;
	ev(op,role,0);
	if(op==O_WRITE&&role!=R_STD) oplog.push_back({ops,O_WRITE}); else if(op==O_HTTP||op==O_DOSYNC||op==O_META) oplog.push_back({ops,op});
	if(crash_at&&ops>=crash_at){
		crash_at=0; tr("-- interrupted at this %s",OPN[op]);
		if(cancrash) die(OUT_CRASH);
		return true;
	}
	if(ops>opcap){ tr("operation limit exceeded"); die(OUT_HANG); }
	return false;
}
Fault*World::decide(int op,int role)
{
	static Fault out;
	u32 o=occ[(u32)op<<8|role]++;
	bool hit=false;
	if(explicitf){
		auto it=emap.find({(u32)cur,(u32)op,(u32)role,o});
		if(it!=emap.end()){ out=it->second; hit=true; }
	} else for(auto&r:rates){
		if(r.op!=op||(r.role!=255&&r.role!=role)||o<r.from||o>r.to||(r.max&&r.count>=r.max)) continue;
		if(rng.below(1000000)>=r.ppm) continue;
		r.count++; out=Fault{cur,op,role,o,r.kind,(r.argmod?rng.below(r.argmod):0)+r.argadd}; hit=true; break;
	}
	if(!hit) return nullptr;
	fired.push_back({out,ops,target_touched,0});
	ev(1000+out.kind,out.arg,o);
	tr("fault %s on %s/%s (arg %llu)",FKN[out.kind],OPN[op],ROLEN[role<16?role:0],(unsigned long long)out.arg);
	if(out.kind==F_APPEAR){ if(onappear) onappear(out.arg); return nullptr; }
	return &out;
}
InodeP World::mk(const Str&path,int role,bool blk,const Bytes&data)
{
	auto i=std::make_shared<Inode>(); i->role=role; i->blk=blk; i->cache=data; i->dur=data; i->id=nextino++;
	dir[path]=i; durdir[path]=i; return i;
}
void Inode::write(u64 off,const u8*p,size_t n)
{
	if(off+n>cache.size()){ cache.resize(off+n); sizedirty=true; }
	memcpy(cache.data()+off,p,n); modified=true;
	if(n) for(u64 s=off/512;s<=(off+n-1)/512;s++) dirty.insert((u32)s);
}
static void commit(Inode*i,u32 s){
	u64 o=(u64)s*512; if(o>=i->cache.size()) return;
	size_t n=std::min<u64>(512,i->cache.size()-o);
	if(i->dur.size()<o+n) i->dur.resize(o+n);
	memcpy(&i->dur[o],&i->cache[o],n);
}
int Inode::sync()
{
	int r=0;
	for(u32 s:dirty) if(!bad.count(s)) commit(this,s); else {
		r=-1; u64 o=(u64)s*512; // the written data is gone: what is on the medium is what will be read back
		size_t n=o<cache.size()? std::min<u64>(512,cache.size()-o):0;
		for(size_t k=0;k<n;k++) cache[o+k]=o+k<dur.size()?dur[o+k]:0;
	}
	dirty.clear(); bad.clear();
	if(cache.size()!=dur.size()) dur.resize(cache.size());
	sizedirty=false;
	return r;
}
void Inode::powerloss(int mode,u64 seed)
{
	Rng r(seed); size_t k=0,n=dirty.size(),lim=r.below(n+1);
	u64 olds=dur.size(); bool keepsize=mode==1||(mode!=0&&r.pct(50));
	for(u32 s:dirty){
		bool keep=false;
		switch(mode){ case 0: break; case 1: keep=true; break; case 2: keep=r.pct(50); break; case 3: keep=k<lim; break; case 4: keep=k!=lim; break; default: keep=r.pct(85); }
		if(bad.count(s)) keep=false;
		if(keep) commit(this,s);
		k++;
	}
	if(!blk){ if(keepsize) dur.resize(cache.size()); else if(dur.size()>olds&&mode!=1) dur.resize(olds); }
	cache=dur; dirty.clear(); bad.clear(); sizedirty=false; dead=false;
}
void World::powerloss(int mode,u64 seed)
{
	Rng r(seed^0x55); size_t n=mode==1? pend.size() : mode==0? 0 : r.below(pend.size()+1);
	std::set<Inode*> all; std::vector<InodeP> hold;
	for(auto&d:dir) hold.push_back(d.second);
	for(auto&d:durdir) hold.push_back(d.second);
	for(size_t i=0;i<n;i++){ auto&p=pend[i]; if(p.kind==0) durdir[p.a]=p.ino; else if(p.kind==1) durdir.erase(p.a); else if(p.kind==2){ auto it=durdir.find(p.a); InodeP q=p.ino; if(it!=durdir.end()) durdir.erase(it); durdir[p.b]=q; } }
	pend.clear(); dir=durdir;
	for(auto&d:durdir) hold.push_back(d.second);
	u64 k=0; for(auto&h:hold) if(all.insert(h.get()).second) h->powerloss(mode,seed+31*h->id+k*0);
}

// ------------------------------------------------------------------ secrets
// A secret is a 256 bit key. It has leaked when 16 of its hexadecimal digits in a row, or 8 of its bytes, leave the process.
void World::add_secret(const u8 key[32])
{
	Str h=hex(key,32), raw((const char*)key,32); if(secrets.empty()) lfilter.fill(0);
	auto win=[&](const Str&w){ lwin.insert(w); u32 k=(u8)w[0]<<8|(u8)w[1]; lfilter[k>>3]|=1<<(k&7); };
	for(int i=0;i+16<=64;i++) win(h.substr(i,16));
	for(int i=0;i+8<=32;i++) win(raw.substr(i,8));
	secrets.push_back(raw);
}
void World::scan(int stream,const void*p,size_t n,const char*where)
{
	if(secrets.empty()||!n||!leak.empty()) return;
	Str&t=leaktail[stream]; Str b=t; b.append((const char*)p,n);
	for(size_t i=0;i+8<=b.size();i++){
		auto lo=[](char c){ return c>='A'&&c<='F'?(char)(c+32):c; };
		u32 k=(u8)b[i]<<8|(u8)b[i+1], kl=(u8)lo(b[i])<<8|(u8)lo(b[i+1]); bool hit=false;
		if(lfilter[k>>3]>>(k&7)&1) hit=lwin.count(b.substr(i,8));
		if(!hit&&i+16<=b.size()&&(lfilter[kl>>3]>>(kl&7)&1)){ Str x=b.substr(i,16); for(auto&c:x) c=lo(c); hit=lwin.count(x); }
		if(hit){ leak=where; tr("a part of an encryption key appears in %s",where); break; }
	}
	t=b.size()>15?b.substr(b.size()-15):b;
}

// ------------------------------------------------------------------ heap
#ifdef SIM_ASAN
static const size_t CANARY=0;
#else
static const size_t CANARY=16;
#endif
struct AllocRec { size_t n; };
static std::unordered_map<void*,AllocRec> heap;
static void heap_bad(const char*m){ if(W&&!W->heapbad){ W->heapbad=true; W->heapmsg=m; W->tr("heap error: %s",m); } }
static bool canary_ok(void*p,size_t n){ for(size_t i=0;i<CANARY;i++) if(((u8*)p)[n+i]!=(u8)(0xC5+i)) return false; return true; }
static void*raw_alloc(size_t n,size_t align,bool zero)
{
	if(!W||!W->running) return malloc(n);
	if(n>W->memcap){ errno=ENOMEM; return nullptr; }
	void*p=nullptr;
#ifdef SIM_ASAN
	if(align>16){ if(posix_memalign(&p,align,n)) p=nullptr; } else p=zero? calloc(1,n):malloc(n);
#else
	if(align>16){ if(posix_memalign(&p,align,n+CANARY)) p=nullptr; } else p=zero? calloc(1,n+CANARY):malloc(n+CANARY);
	if(p){ if(!zero) memset(p,W->heapfill,n<65536?n:65536); for(size_t i=0;i<CANARY;i++) ((u8*)p)[n+i]=(u8)(0xC5+i); }
#endif
	if(!p){ errno=ENOMEM; return nullptr; }
	heap[p]={n}; W->live+=n; if(W->live>W->peak) W->peak=W->live;
	return p;
}
static void raw_free(void*p)
{
	if(!p) return;
	auto it=heap.find(p);
	if(it==heap.end()){
#ifdef SIM_ASAN
		free(p);
#else
		heap_bad("release of memory that is not allocated (double or invalid free)");
		if(W&&W->running) W->die(OUT_HEAP);
#endif
		return;
	}
	if(!canary_ok(p,it->second.n)) heap_bad("write past the end of a heap block");
	if(W) W->live-=it->second.n;
	size_t n=it->second.n; heap.erase(it);
#ifndef SIM_ASAN
	memset(p,W?W->heapfree:0xDD,n<65536?n:65536);
#endif
	(void)n; free(p);
}
static bool alloc_fails(){
	if(!W||!W->running) return false;
	W->nalloc++;
	Fault*f=W->decide(O_ALLOC,0);
	if(f&&f->kind==F_NULL){ errno=ENOMEM; return true; }
	return false;
}
extern "C" {
void*sim_malloc(size_t n){ if(alloc_fails()) return nullptr; return raw_alloc(n,0,false); }
void*sim_calloc(size_t a,size_t b){ if(alloc_fails()) return nullptr; size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return raw_alloc(n,0,true); }
void sim_free(void*p){ if(W&&!W->running&&!heap.count(p)){ return; } raw_free(p); }
void*sim_realloc(void*p,size_t n)
{
	if(alloc_fails()) return nullptr;
	if(!p) return raw_alloc(n,0,false);
	auto it=heap.find(p);
	if(it==heap.end()){
#ifdef SIM_ASAN
		return realloc(p,n);
#else
		heap_bad("realloc of memory that is not allocated"); W->die(OUT_HEAP);
#endif
	}
	size_t o=it->second.n;
	void*q=raw_alloc(n,0,false); if(!q) return nullptr;
	memcpy(q,p,o<n?o:n); raw_free(p); return q;
}
void*sim_reallocarray(void*p,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return sim_realloc(p,n); }
char*sim_strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)sim_malloc(n); if(p) memcpy(p,s,n); return p; }
char*sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*p=(char*)sim_malloc(n+1); if(p){ memcpy(p,s,n); p[n]=0; } return p; }
int sim_vasprintf(char**o,const char*f,va_list a){ va_list b; va_copy(b,a); int n=vsnprintf(nullptr,0,f,b); va_end(b); if(n<0) return -1; *o=(char*)sim_malloc(n+1); if(!*o) return -1; vsnprintf(*o,n+1,f,a); return n; }
int sim_asprintf(char**o,const char*f,...){ va_list a; va_start(a,f); int r=sim_vasprintf(o,f,a); va_end(a); return r; }
int sim_posix_memalign(void**o,size_t al,size_t n){ if(alloc_fails()) return ENOMEM; *o=raw_alloc(n,al,false); return *o?0:ENOMEM; }
void*sim_aligned_alloc(size_t al,size_t n){ if(alloc_fails()) return nullptr; return raw_alloc(n,al,false); }
void*sim_memalign(size_t al,size_t n){ return sim_aligned_alloc(al,n); }
}

// ------------------------------------------------------------------ files
static Str norm(const char*p){
	Str s; if(p[0]!='/') s="/cwd/";
	for(const char*q=p;*q;){
		if(*q=='/'){ if(s.empty()||s.back()!='/') s+='/'; q++; continue; }
		const char*e=q; while(*e&&*e!='/') e++;
		Str c(q,e-q); q=e;
		if(c=="."){ continue; }
		if(c==".."){ while(!s.empty()&&s.back()=='/') s.pop_back(); while(!s.empty()&&s.back()!='/') s.pop_back(); continue; }
		s+=c;
	}
	while(s.size()>1&&s.back()=='/') s.pop_back();
	return s;
}
static bool toolong(const char*p){ size_t n=strlen(p),c=0; bool l=n>=4096; for(;*p;p++){ if(*p=='/') c=0; else if(++c>255) l=true; } if(l) errno=ENAMETOOLONG; return l; }
static bool isdirpath(const Str&s){
	for(auto&d:W->dir) if(d.first.size()>s.size()&&d.first.compare(0,s.size(),s)==0&&(d.first[s.size()]=='/'||s=="/")) return true;
	return s=="/"||s=="/cwd"||s=="/sim"||s=="/tmp"||s=="/dev";
}
static int newfd(const std::shared_ptr<Ofd>&o){
	for(size_t i=0;i<W->fds.size();i++) if(!W->fds[i]){ W->fds[i]=o; goto cnt; }
	if(W->fds.size()>=1024){ errno=EMFILE; return -1; }
	W->fds.push_back(o);
cnt:
	u32 n=0; int r=-1; for(size_t i=0;i<W->fds.size();i++) if(W->fds[i]){ if(W->fds[i]->kind!=6) n++; if(W->fds[i]==o) r=(int)i; }
	if(n>W->fd_peak) W->fd_peak=n;
	return r;
}
static Ofd*getfd(int fd){ if(fd<0||(size_t)fd>=W->fds.size()||!W->fds[fd]){ errno=EBADF; return nullptr; } return W->fds[fd].get(); }
// libcurl's connections: they occupy descriptors like everything else
void conn_close(std::shared_ptr<Ofd>&c,int&fd){ if(c&&fd>=0&&(size_t)fd<W->fds.size()) W->fds[fd]=nullptr; c=nullptr; fd=-1; } // also if it has become something else meanwhile
void conn_open(std::shared_ptr<Ofd>&c,int&fd){ if(c&&(W->fds[fd]!=c||c->fin)) conn_close(c,fd); if(!c){ c=std::make_shared<Ofd>(); c->kind=6; fd=newfd(c); if(fd<0) c=nullptr; } }
// how much a short transfer moves: anything, or a few bytes
static size_t shortlen(size_t n,u64 arg){ return n>64&&(arg>>13)%4==0?1+arg%64:1+arg%(n-1); }
static int errfault(Fault*f,Inode*i){
	switch(f->kind){
	case F_EINTR: errno=EINTR; return 1;
	case F_EIO: errno=EIO; return 1;
	case F_DEAD: if(i) i->dead=true; errno=EIO; return 1;
	case F_ENOSPC: errno=ENOSPC; return 1;
	case F_NULL: errno=ENOMEM; return 1;
	case F_EMFILE: errno=EMFILE; return 1;
	}
	return 0;
}
static void contain(const char*fmt,const Str&p){ char b[300]; snprintf(b,sizeof b,fmt,p.c_str()); W->contain.push_back(b); W->tr("outside effect: %s",b); }
static bool mayout(const Str&p){ return W->tool_allow_out&&(W->outdir.empty()||p.compare(0,W->outdir.size(),W->outdir)==0); }

static int do_open(const char*path,int flags,int mode)
{
	Str s=norm(path); auto it=W->dir.find(s);
	int role=it!=W->dir.end()? it->second->role : mayout(s)&&(flags&O_CREAT)? (int)R_OUT : (int)R_OTHER;
	W->enter((flags&(O_CREAT|O_TRUNC))?O_META:O_OPEN,role);
	if(Fault*f=W->decide(O_OPEN,role)) if(errfault(f,nullptr)) return -1;
	it=W->dir.find(s);
	if(toolong(path)) return -1; if(!*path){ errno=ENOENT; return -1; }
	if(it==W->dir.end()&&isdirpath(s)){
		if((flags&O_ACCMODE)!=O_RDONLY||(flags&O_CREAT)){ errno=EISDIR; return -1; }
		auto o=std::make_shared<Ofd>(); o->kind=5; o->path=s; o->flags=flags; return newfd(o);
	}
	if(s=="/dev/null"){ auto o=std::make_shared<Ofd>(); o->kind=4; o->flags=flags; return newfd(o); }
	if(it==W->dir.end()){
		if(!(flags&O_CREAT)){ errno=ENOENT; return -1; }
		size_t sl=s.rfind('/'); Str par=sl==0?"/":s.substr(0,sl); if(!isdirpath(par)){ errno=ENOENT; return -1; }
		if(!mayout(s)) contain("created '%s'",s);
		W->scan(99,s.data(),s.size(),"the name of a file");
		auto i=std::make_shared<Inode>(); i->id=W->nextino++; i->role=role; i->mode=mode&0777; W->dir[s]=i; W->pend.push_back({0,s,i,""});
		auto o=std::make_shared<Ofd>(); o->ino=i; o->flags=flags; o->path=s; return newfd(o);
	}
	if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; }
	if(W->user&&(flags&O_ACCMODE)!=O_RDONLY&&!(it->second->mode&0222)){ errno=EACCES; return -1; }
	auto i=it->second;
	if(i->dir&&(flags&O_ACCMODE)!=O_RDONLY){ errno=EISDIR; return -1; }
	if((flags&O_TRUNC)&&!i->blk&&(flags&O_ACCMODE)!=O_RDONLY){
		if(!(i->role==R_OUT&&mayout(s))) contain("truncated '%s'",s);
		if(i->role==R_TARGET) W->twrites.push_back({0,0,false,W->ops});
		i->cache.clear(); i->sizedirty=true; i->modified=true; i->dirty.clear();
	}
	auto o=std::make_shared<Ofd>(); o->ino=i; o->flags=flags; o->path=s; 
	int fd=newfd(o); W->tr("open %s = %d",s.c_str(),fd); return fd;
}
// a file or device may contain one large run of zeros that is not stored
static u64 phys(const Inode*i,u64 p){ return !i->hole||p<i->holeat?p: p>=i->holeat+i->hole?p-i->hole:i->holeat; }
static size_t upto(const Inode*i,u64 p,size_t n,bool&inhole){ inhole=false; if(!i->hole) return n; if(p<i->holeat) return std::min<u64>(n,i->holeat-p); if(p<i->holeat+i->hole){ inhole=true; return std::min<u64>(n,i->holeat+i->hole-p); } return n; }
static bool zeros(const void*b,size_t n){ static const u8 z[65536]={0}; const u8*p=(const u8*)b; while(n){ size_t k=std::min(n,sizeof z); if(memcmp(p,z,k)) return false; p+=k; n-=k; } return true; }
static void rotseed(Inode*i,u64 arg){
	if(i->cache.empty()) return;
	u64 o=(arg>>8)%i->cache.size(); u8 x=(u8)(arg&255); if(!x) x=1;
	i->cache[o]^=x; if(o<i->dur.size()) i->dur[o]=i->cache[o];
}
static ssize_t do_read(int fd,void*buf,size_t n,i64 off,bool positional)
{
	Ofd*o=getfd(fd); if(!o) return -1;
	int role=o->ino?o->ino->role:(int)R_STD;
	W->enter(O_READ,role);
	o=getfd(fd); if(!o) return -1;
	Fault*f=W->decide(O_READ,role);
	if(f&&errfault(f,o->ino.get())) return -1;
	if(o->kind==4){ if((o->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; } return 0; }
	if(o->kind==5||(o->ino&&o->ino->dir)){ errno=EISDIR; return -1; }
	if(o->kind==6){ o->fin=true; errno=EAGAIN; return -1; }
	if(o->kind==3){
		if(o->stdno!=0){ errno=EBADF; return -1; }
		size_t av=W->stdin_data.size()-W->stdin_pos; if(f&&f->kind==F_SHORT&&n>1) n=shortlen(n,f->arg);
		if(n>av) n=av;
		memcpy(buf,W->stdin_data.data()+W->stdin_pos,n); W->stdin_pos+=n; return n;
	}
	if(!o->ino){ errno=EINVAL; return -1; }
	Inode*i=o->ino.get();
	if((o->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; }
	if(i->dead){ errno=EIO; return -1; }
	if(positional&&off<0){ errno=EINVAL; return -1; }
	u64 p=positional?(u64)off:o->pos; u64 sz=i->lsize();
	if(f&&f->kind==F_ROT) rotseed(i,f->arg);
	size_t av=p<sz?sz-p:0; if(n>av) n=av;
	bool inhole; n=upto(i,p,n,inhole);
	if(inhole&&!positional&&!i->scanhole&&i->role>=R_SEED0&&i->role<R_SEED0+4){ errno=EIO; return -1; } // nobody waits for a scan of that
	if(f&&f->kind==F_SHORT&&n>1) n=shortlen(n,f->arg);
	if(i->role==R_TARGET&&!W->target_touched) { W->target_touched=true; }
	if(n&&inhole) memset(buf,0,n); else if(n) memcpy(buf,i->cache.data()+phys(i,p),n);
	bool seq=p==i->lastend||p==0; i->lastend=p+n;
	if(f&&f->kind==F_FLIP&&n&&!((f->arg>>40)&&seq)) ((u8*)buf)[(f->arg>>8)%n]^=(u8)(f->arg&255?f->arg&255:1);
	if(!positional) o->pos+=n;
	W->ev(n,p,inhole?7:fnv(7,buf,n)); W->readbytes+=n; if(W->readcap&&W->readbytes>W->readcap){ W->tr("limit on the amount of data read exceeded"); W->die(OUT_HANG); }
	return n;
}
static ssize_t do_write(int fd,const void*buf,size_t n,i64 off,bool positional)
{
	Ofd*o=getfd(fd); if(!o) return -1;
	int role=o->ino?o->ino->role:(int)R_STD;
	bool cr=false;
	if(!(o->kind==3&&o->stdno==2)) cr=W->enter(O_WRITE,role,false);
	o=getfd(fd); if(!o) return -1;
	Fault*f=cr?nullptr:W->decide(O_WRITE,role);
	if(f&&errfault(f,o->ino.get())) return -1;
	if((o->kind==4||o->kind==5)&&(o->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; if(cr) W->die(OUT_CRASH); return -1; }
	if(o->kind==4) return n;
	if(o->kind==6){ o->fin=true; W->scan(53,buf,n,"a request"); if(cr) W->die(OUT_CRASH); return n; }
	if(cr){ // the process dies during this write: any prefix of it may have been carried out
		Rng r(W->crash_seed+17); int m=(int)r.below(4); n= m==0?0 : m==1?n : r.below(n+1);
	}
	if(f&&f->kind==F_SHORT&&n>1) n=shortlen(n,f->arg);
	if(o->kind==3){
		if(o->stdno==0){ errno=EBADF; return -1; }
		W->scan(o->stdno,buf,n,o->stdno==1?"the standard output":"the log");
		if(o->stdno==1&&W->brkout){ errno=EIO; if(cr) W->die(OUT_CRASH); return -1; }
		if(o->stdno==2&&W->brkerr){ errno=EIO; return -1; }
		if(o->stdno==1&&W->outev.size()<20000) W->outev.push_back({W->ops,Str((const char*)buf,std::min<size_t>(n,400))});
		if(o->stdno==1) W->stdout_data.insert(W->stdout_data.end(),(const u8*)buf,(const u8*)buf+n);
		else if(W->verbose) W->logbuf.append((const char*)buf,n);
		if(cr) W->die(OUT_CRASH);
		return n;
	}
	if(!o->ino){ errno=EINVAL; if(cr) W->die(OUT_CRASH); return -1; }
	Inode*i=o->ino.get();
	if((o->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; if(cr) W->die(OUT_CRASH); return -1; }
	if(i->dead){ errno=EIO; if(cr) W->die(OUT_CRASH); return -1; }
	if(positional&&off<0){ errno=EINVAL; if(cr) W->die(OUT_CRASH); return -1; }
	u64 p=positional?(u64)off:(o->flags&O_APPEND)?i->lsize():o->pos;
	bool inhole; n=upto(i,p,n,inhole);
	auto goodwrite=[&]{ bool good=true; if(W->image_valid){ if(inhole) return zeros(buf,n); u64 q=phys(i,p); good= q+n<=W->image.size()&&memcmp(buf,W->image.data()+q,n)==0; if(good) for(size_t k=0;k<n;k++) if(!W->imask[q+k]) return false; } return good; };
	if(i->blk){ u64 sz=i->lsize(); if(p>=sz&&n){ if(i->role==R_TARGET) W->twrites.push_back({p,(u32)n,goodwrite(),W->ops}); errno=ENOSPC; if(cr) W->die(OUT_CRASH); return -1; } if(n>sz-p) n=sz-p; }
	else if(n&&phys(i,p)+n>(1ull<<28)){ if(i->role==R_TARGET) W->twrites.push_back({p,(u32)n,false,W->ops}); errno=EFBIG; if(cr) W->die(OUT_CRASH); return -1; }
	if(i->role==R_TARGET){
		bool good=goodwrite();
		if(n) { W->twrites.push_back({p,(u32)n,good,W->ops}); W->target_written=true; W->target_touched=true; }
	} else if(!(i->role==R_OUT&&W->tool_allow_out)) contain("wrote to '%s'",o->path);
	if(inhole) i->modified=true; else if(n){ i->write(phys(i,p),(const u8*)buf,n); }
	if(f&&f->kind==F_WB&&n&&!inhole) for(u64 s=phys(i,p)/512;s<=(phys(i,p)+n-1)/512;s++) i->bad.insert((u32)s);
	if(!positional) o->pos=p+n;
	if(!inhole) W->scan(100+fd,buf,n,"a file");
	W->ev(n,p,inhole?9:fnv(9,buf,n));
	if(i->role==R_TARGET) W->tr("target write off=%llu len=%zu",(unsigned long long)p,n);
	if((o->flags&(O_SYNC|O_DSYNC))&&!cr){ if(i->sync()<0){ W->wb_failed=true; errno=EIO; return -1; } }
	if(cr) W->die(OUT_CRASH);
	return n;
}
static int do_fsync(int fd,bool isall)
{
	Ofd*o=getfd(fd); if(!o) return -1;
	int role=o->ino?o->ino->role:0;
	W->enter(O_DOSYNC,role);
	if(o->kind==5){ for(auto&p:W->pend){ if(p.kind==0) W->durdir[p.a]=p.ino; else if(p.kind==1) W->durdir.erase(p.a); else if(p.kind==2){ W->durdir.erase(p.a); W->durdir[p.b]=p.ino; } } W->pend.clear(); return 0; }
	if(!o->ino){ errno=EINVAL; return -1; }
	Fault*f=W->decide(O_DOSYNC,role); Inode*i=o->ino.get();
	if(f&&f->kind==F_EINTR) f->kind=F_EIO;
	if(f&&(f->kind==F_EIO||f->kind==F_ENOSPC||f->kind==F_DEAD)){
		Rng r(f->arg+5); bool any=false;
		for(u32 s:i->dirty) if(r.pct(40)){ i->bad.insert(s); any=true; }
		if(!any&&!i->dirty.empty()) i->bad.insert(*i->dirty.rbegin());
		bool had=!i->dirty.empty();
		i->sync(); if(had) W->wb_failed=true;
		if(f->kind==F_DEAD) i->dead=true;
		errno=f->kind==F_ENOSPC?ENOSPC:EIO; return -1;
	}
	if(i->dead){ errno=EIO; return -1; }
	W->tr("fsync %s",o->path.c_str());
	if(i->sync()<0){ W->wb_failed=true; if(!isall||1){ errno=EIO; return -1; } }
	return 0;
}
static void fillstat(struct stat*st,Inode*i,int kind){
	memset(st,0,sizeof*st); st->st_nlink=1; st->st_blksize=4096; st->st_dev=77;
	if(!i){ st->st_mode= kind==5?(S_IFDIR|0755): kind==1||kind==2?(S_IFSOCK|0777) : kind==4||kind==3?(S_IFCHR|0600):S_IFREG; return; }
	st->st_ino=i->id; st->st_mode=(i->dir?S_IFDIR:i->blk?S_IFBLK:S_IFREG)|i->mode;
	if(i->role==R_OTHER&&i->mode==0) st->st_mode=S_IFCHR|0600;
	if(!i->blk&&!i->dir){ st->st_size=i->lsize(); st->st_blocks=(st->st_size+511)/512; }
	if(i->blk) st->st_rdev=i->id;
}
static InodeP lookup(const char*p){ auto it=W->dir.find(norm(p)); return it==W->dir.end()?nullptr:it->second; }

extern "C" {
int sim_open(const char*p,int fl,...){ int m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a); } return do_open(p,fl,m); }
int sim_open2(const char*p,int fl){ return do_open(p,fl,0644); }
int sim_openat(int d,const char*p,int fl,...){ int m=0; if(fl&(O_CREAT|O_TMPFILE)){ va_list a; va_start(a,fl); m=va_arg(a,int); va_end(a); } Str s=p; if(d!=AT_FDCWD&&p[0]!='/'){ Ofd*o=getfd(d); if(!o) return -1; s=o->path+"/"+p; } return do_open(s.c_str(),fl,m); }
int sim_creat(const char*p,mode_t m){ return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int sim_close(int fd){
	Ofd*o=getfd(fd); if(!o) return -1;
	int role=o->ino?o->ino->role:0;
	W->enter(O_CLOSE,role); Fault*f=W->decide(O_CLOSE,role);
	W->fds[fd].reset();
	if(f){ errfault(f,nullptr); return -1; }
	return 0;
}
ssize_t sim_read(int fd,void*b,size_t n){ return do_read(fd,b,n,0,false); }
ssize_t sim_read_chk(int fd,void*b,size_t n,size_t){ return do_read(fd,b,n,0,false); }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ return do_read(fd,b,n,o,true); }
ssize_t sim_pread_chk(int fd,void*b,size_t n,off_t o,size_t){ return do_read(fd,b,n,o,true); }
ssize_t sim_write(int fd,const void*b,size_t n){ return do_write(fd,b,n,0,false); }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t o){ return do_write(fd,b,n,o,true); }
static ssize_t vec(int fd,const struct iovec*v,int c,off_t o,bool pos,bool wr){
	ssize_t t=0; for(int i=0;i<c;i++){ if(!v[i].iov_len) continue; ssize_t r= wr? do_write(fd,v[i].iov_base,v[i].iov_len,o+t,pos):do_read(fd,v[i].iov_base,v[i].iov_len,o+t,pos);
		if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t sim_readv(int fd,const struct iovec*v,int c){ return vec(fd,v,c,0,false,false); }
ssize_t sim_writev(int fd,const struct iovec*v,int c){ return vec(fd,v,c,0,false,true); }
ssize_t sim_preadv(int fd,const struct iovec*v,int c,off_t o){ return vec(fd,v,c,o,true,false); }
ssize_t sim_pwritev(int fd,const struct iovec*v,int c,off_t o){ return vec(fd,v,c,o,true,true); }
off_t sim_lseek(int fd,off_t off,int wh){
	Ofd*o=getfd(fd); if(!o) return -1; int role=o->ino?o->ino->role:(int)R_STD;
	W->enter(O_SEEK,role); if(Fault*f=W->decide(O_SEEK,role)){ if(f->kind==F_EINTR) f->kind=F_EIO; if(errfault(f,nullptr)) return -1; }
	if(!o->ino){ errno=ESPIPE; return -1; }
	i64 base= wh==SEEK_SET?0: wh==SEEK_CUR?(i64)o->pos: wh==SEEK_END?(i64)o->ino->lsize():0;
	i64 n; if(__builtin_add_overflow(base,off,&n)||n<0){ errno=EINVAL; return -1; } o->pos=n; return n; }
int sim_fstat(int fd,struct stat*st){ Ofd*o=getfd(fd); if(!o) return -1; int role=o->ino?o->ino->role:0; W->enter(O_STAT,role); if(Fault*f=W->decide(O_STAT,role)) { if(f->kind==F_EINTR) f->kind=F_EIO; if(errfault(f,nullptr)) return -1; } fillstat(st,o->ino.get(),o->kind); return 0; }
int sim_stat(const char*p,struct stat*st){ auto i=lookup(p); W->enter(O_STAT,i?i->role:0); if(toolong(p)) return -1; if(!*p){ errno=ENOENT; return -1; } if(!i){ if(isdirpath(norm(p))){ fillstat(st,nullptr,5); return 0; } errno=ENOENT; return -1; } if(Fault*f=W->decide(O_STAT,i->role)) { if(f->kind==F_EINTR) f->kind=F_EIO; if(errfault(f,nullptr)) return -1; } fillstat(st,i.get(),0); return 0; }
int sim_lstat(const char*p,struct stat*st){ return sim_stat(p,st); }
int sim_fstatat(int,const char*p,struct stat*st,int){ return sim_stat(p,st); }
int sim_ioctl(int fd,unsigned long req,...){
	va_list a; va_start(a,req); void*arg=va_arg(a,void*); va_end(a);
	Ofd*o=getfd(fd); if(!o) return -1; int role=o->ino?o->ino->role:(int)R_STD;
	W->enter(O_IOCTL,role); if(Fault*f=W->decide(O_IOCTL,role)) { if(f->kind==F_EINTR) f->kind=F_EIO; if(errfault(f,nullptr)) return -1; }
	if(!o->ino||!o->ino->blk){ errno=ENOTTY; return -1; }
	if(req==BLKGETSIZE64){ *(u64*)arg=o->ino->lsize(); return 0; }
	if(req==BLKGETSIZE){ *(unsigned long*)arg=o->ino->lsize()/512; return 0; }
	if(req==BLKSSZGET){ *(int*)arg=512; return 0; }
	if(req==BLKFLSBUF){ return o->ino->sync()<0?(errno=EIO,-1):0; }
	if(req==BLKROGET){ *(int*)arg=0; return 0; }
	if(req==BLKDISCARD||req==BLKZEROOUT||req==BLKSECDISCARD){ u64*r=(u64*)arg; Inode*i=o->ino.get(); for(u64 k=r[0];k<r[0]+r[1]&&k<i->cache.size();k++){ u8 z=0; i->write(k,&z,1);} if(i->role==R_TARGET) W->twrites.push_back({r[0],(u32)r[1],false,W->ops}); else contain("discarded parts of '%s'",o->path); return 0; }
	errno=ENOTTY; return -1; }
int sim_fsync(int fd){ return do_fsync(fd,false); }
int sim_fdatasync(int fd){ return do_fsync(fd,false); }
int sim_syncfs(int fd){ Ofd*o=getfd(fd); if(!o) return -1; W->enter(O_DOSYNC,0); int r=0; for(auto&d:W->dir) if(d.second->sync()<0) r=-1; W->durdir=W->dir; W->pend.clear(); if(r){ W->wb_failed=true; errno=EIO; } return r; }
void sim_sync(void){ W->enter(O_DOSYNC,0); for(auto&d:W->dir) if(d.second->sync()<0) W->wb_failed=true; W->durdir=W->dir; W->pend.clear(); }
int sim_sync_file_range(int fd,off_t,off_t,unsigned){ Ofd*o=getfd(fd); return o?0:-1; }
static int truncino(InodeP i,off_t n,const Str&p){
	if(i->blk){ errno=EINVAL; return -1; }
	if(i->role==R_TARGET) { W->twrites.push_back({std::min<u64>(n,i->cache.size()),0,false,W->ops}); }
	else if(!(i->role==R_OUT&&W->tool_allow_out)) contain("truncated '%s'",p);
	if((u64)n>(1ull<<28)){ errno=EFBIG; return -1; }
	i->cache.resize(n); i->sizedirty=true; i->modified=true; return 0; }
int sim_ftruncate(int fd,off_t n){ Ofd*o=getfd(fd); if(!o) return -1; if(!o->ino){ errno=EINVAL; return -1; } W->enter(O_META,o->ino->role); if(Fault*f=W->decide(O_META,o->ino->role)) if(errfault(f,nullptr)) return -1; if((o->flags&O_ACCMODE)==O_RDONLY){ errno=EINVAL; return -1; } return truncino(o->ino,n,o->path); }
int sim_truncate(const char*p,off_t n){ auto i=lookup(p); if(!i){ errno=ENOENT; return -1; } W->enter(O_META,i->role); return truncino(i,n,p); }
int sim_fallocate(int fd,int mode,off_t off,off_t len){ Ofd*o=getfd(fd); if(!o) return -1; if(!o->ino||o->ino->blk){ errno=EOPNOTSUPP; return -1; } W->enter(O_META,o->ino->role); Inode*i=o->ino.get();
	if(mode==0){ if((u64)(off+len)>i->cache.size()) return truncino(o->ino,off+len,o->path); return 0; }
	if(mode&(FALLOC_FL_PUNCH_HOLE|FALLOC_FL_ZERO_RANGE)){ Bytes z(std::min<u64>(len,1<<24)); if(i->role==R_TARGET) W->twrites.push_back({(u64)off,(u32)len,false,W->ops}); else if(!(i->role==R_OUT&&W->tool_allow_out)) contain("punched '%s'",o->path); if((u64)off<i->cache.size()) i->write(off,z.data(),std::min<u64>(z.size(),i->cache.size()-off)); return 0; }
	errno=EOPNOTSUPP; return -1; }
int sim_posix_fallocate(int fd,off_t o,off_t l){ return sim_fallocate(fd,0,o,l)<0?errno:0; }
int sim_posix_fadvise(int,off_t,off_t,int){ return 0; }
ssize_t sim_readahead(int,off_t,size_t){ return 0; }
int sim_unlink(const char*p){
	Str s=norm(p); auto it=W->dir.find(s); int role=it==W->dir.end()?(int)R_OTHER:it->second->role; W->enter(O_META,role);
	if(Fault*f=W->decide(O_META,role)) if(errfault(f,nullptr)) return -1;
	if(it==W->dir.end()){ errno=ENOENT; return -1; }
	if(!(role==R_OUT&&mayout(s))) contain("removed '%s'",s);
	W->pend.push_back({1,s,nullptr,""}); W->dir.erase(it); W->tr("unlink %s",s.c_str()); return 0; }
int sim_unlinkat(int,const char*p,int){ return sim_unlink(p); }
int sim_remove(const char*p){ return sim_unlink(p); }
static Str fsof(const Str&p){ return p.substr(0,p.find('/',1)); } // every top-level directory is a file system of its own
int sim_rename(const char*a,const char*b){
	Str x=norm(a),y=norm(b); auto it=W->dir.find(x); int role=it==W->dir.end()?(int)R_OTHER:it->second->role; W->enter(O_META,role);
	if(Fault*f=W->decide(O_META,role)) if(errfault(f,nullptr)) return -1;
	if(toolong(a)||toolong(b)) return -1;
	if(it==W->dir.end()){ errno=ENOENT; return -1; }
	if(fsof(x)!=fsof(y)){ errno=EXDEV; return -1; }
	it=W->dir.find(x); auto i=it->second; auto t=W->dir.find(y);
	if(!(role==R_OUT&&mayout(x)&&mayout(y))) contain("renamed '%s'",x);
	else if(t!=W->dir.end()&&t->second->role!=R_OUT) contain("replaced '%s'",y);
	if(t!=W->dir.end()&&t->second!=i) t->second->modified=true;
	W->dir.erase(x); W->dir[y]=i; W->pend.push_back({2,x,i,y}); W->tr("rename %s -> %s",x.c_str(),y.c_str()); return 0; }
int sim_renameat(int,const char*a,int,const char*b){ return sim_rename(a,b); }
int sim_renameat2(int,const char*a,int,const char*b,unsigned fl){ if((fl&1)&&lookup(b)){ errno=EEXIST; return -1; } return sim_rename(a,b); }
int sim_link(const char*a,const char*b){ auto i=lookup(a); W->enter(O_META,i?i->role:0); if(i) if(Fault*f=W->decide(O_META,i->role)) if(errfault(f,nullptr)) return -1; if(!i){ errno=ENOENT; return -1; } if(lookup(b)){ errno=EEXIST; return -1; } Str y=norm(b); if(fsof(norm(a))!=fsof(y)){ errno=EXDEV; return -1; } if(!(i->role==R_OUT&&mayout(y))) contain("created '%s'",y); W->dir[y]=i; W->pend.push_back({0,y,i,""}); return 0; }
int sim_linkat(int,const char*a,int,const char*b,int){ return sim_link(a,b); }
int sim_symlink(const char*,const char*b){ contain("created '%s'",norm(b)); errno=EPERM; return -1; }
int sim_mkdir(const char*p,mode_t){ contain("created directory '%s'",norm(p)); errno=EPERM; return -1; }
int sim_rmdir(const char*p){ contain("removed directory '%s'",norm(p)); errno=EPERM; return -1; }
int sim_access(const char*p,int m){ auto i=lookup(p); W->enter(O_STAT,i?i->role:(int)R_OUT); if(toolong(p)) return -1; if(!*p){ errno=ENOENT; return -1; } if(!i&&isdirpath(norm(p))) return 0; if(!i){ errno=ENOENT; return -1; } if(((m&W_OK)&&W->user&&!(i->mode&0222))||((m&X_OK)&&!(i->mode&0111))){ errno=EACCES; return -1; } return 0; }
int sim_faccessat(int,const char*p,int m,int){ return sim_access(p,m); }
int sim_eaccess(const char*p,int m){ return sim_access(p,m); }
static int mktemp_(char*t,int fl){ size_t n=strlen(t); if(n<6){ errno=EINVAL; return -1; } for(int k=0;k<100;k++){ u64 v=W->nextino*7919+k*31+W->cur; for(int i=0;i<6;i++){ t[n-6+i]='a'+v%26; v/=26; } if(!lookup(t)) return do_open(t,O_RDWR|O_CREAT|O_EXCL|fl,0600); } errno=EEXIST; return -1; }
int sim_mkstemp(char*t){ return mktemp_(t,0); }
int sim_mkostemp(char*t,int f){ return mktemp_(t,f); }
int sim_fchmod(int fd,mode_t m){ Ofd*o=getfd(fd); if(!o) return -1; if(o->ino){ if(!(o->ino->role==R_OUT&&W->tool_allow_out)) contain("changed mode of '%s'",o->path); o->ino->mode=m&07777; } return 0; }
int sim_chmod(const char*p,mode_t m){ auto i=lookup(p); if(!i){ errno=ENOENT; return -1; } if(!(i->role==R_OUT&&W->tool_allow_out)) contain("changed mode of '%s'",p); i->mode=m&07777; return 0; }
int sim_fchown(int fd,uid_t,gid_t){ Ofd*o=getfd(fd); if(!o) return -1; contain("changed owner of '%s'",o->path); return 0; }
int sim_chown(const char*p,uid_t,gid_t){ contain("changed owner of '%s'",p); return 0; }
mode_t sim_umask(mode_t){ return 022; }
int sim_dup(int fd){ Ofd*o=getfd(fd); if(!o) return -1; auto sp=W->fds[fd]; for(size_t i=0;i<W->fds.size();i++) if(!W->fds[i]){ W->fds[i]=sp; return (int)i; } W->fds.push_back(sp); return (int)W->fds.size()-1; }
int sim_dup2(int a,int b){ Ofd*o=getfd(a); if(!o) return -1; if((size_t)b>=W->fds.size()) W->fds.resize(b+1); W->fds[b]=W->fds[a]; return b; }
int sim_dup3(int a,int b,int){ return sim_dup2(a,b); }
int sim_fcntl(int fd,int cmd,...){ Ofd*o=getfd(fd); if(!o) return -1; if(cmd==F_GETFL) return o->flags; if(cmd==F_DUPFD||cmd==F_DUPFD_CLOEXEC) return sim_dup(fd); return 0; }
int sim_flock(int fd,int){ return getfd(fd)?0:-1; }
int sim_lockf(int fd,int,off_t){ return getfd(fd)?0:-1; }
ssize_t sim_copy_file_range(int,off_t*,int,off_t*,size_t,unsigned){ errno=ENOSYS; return -1; }
ssize_t sim_sendfile(int,int,off_t*,size_t){ errno=EINVAL; return -1; }

// ---- mmap: a copy, written back on msync/munmap for shared writable mappings
struct Map { InodeP ino; u64 off; size_t len; bool shared; Bytes orig; };
static std::map<void*,Map> maps;
static void mapflush(void*p,Map&m){ if(!m.shared||!m.ino) return; u8*q=(u8*)p; size_t n=m.off<m.ino->cache.size()?std::min<u64>(m.len,m.ino->cache.size()-m.off):0; size_t i=0;
	while(i<n){ if(q[i]==m.orig[i]){ i++; continue; } size_t j=i; while(j<n&&q[j]!=m.orig[j]) j++; 
		if(m.ino->role==R_TARGET){ bool good=true; if(W->image_valid) good=m.off+j<=W->image.size()&&memcmp(q+i,W->image.data()+m.off+i,j-i)==0; W->twrites.push_back({m.off+i,(u32)(j-i),good,W->ops}); W->target_written=true; }
		else contain("wrote to '%s'","mapped file");
		m.ino->write(m.off+i,q+i,j-i); i=j; }
	memcpy(m.orig.data(),q,m.len); }
void*sim_mmap(void*,size_t len,int prot,int flags,int fd,off_t off){
	W->enter(O_META,0); if(!len){ errno=EINVAL; return MAP_FAILED; } if(len>(1ull<<28)){ W->mapdenied=true; errno=ENOMEM; return MAP_FAILED; }
	Map m; m.off=off; m.len=len; m.shared=false;
	if(!(flags&MAP_ANONYMOUS)){ Ofd*o=getfd(fd); if(!o) return MAP_FAILED; if(!o->ino){ errno=ENODEV; return MAP_FAILED; } m.ino=o->ino; m.shared=(flags&MAP_SHARED)&&(prot&PROT_WRITE); 
		if(o->ino->hole&&(u64)off+len>o->ino->holeat){ if((u64)off<o->ino->holeat+o->ino->hole){ W->mapdenied=true; errno=ENODEV; return MAP_FAILED; } off-=o->ino->hole; m.off=off; }
		if(Fault*f=W->decide(O_READ,o->ino->role)) if(f->kind!=F_EINTR&&f->kind!=F_SHORT) if(errfault(f,o->ino.get())) return MAP_FAILED; }
	size_t al=(len+4095)/4096*4096; void*p=mmap(nullptr,al,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) return p;
	if(m.ino&&(u64)off<m.ino->cache.size()) memcpy(p,m.ino->cache.data()+off,std::min<u64>(len,m.ino->cache.size()-off));
	m.orig.assign((u8*)p,(u8*)p+len); maps[p]=m; return p; }
int sim_msync(void*p,size_t,int fl){ W->enter(O_DOSYNC,0); auto it=maps.find(p); if(it==maps.end()){ for(auto&m:maps) if((u8*)p>=(u8*)m.first&&(u8*)p<(u8*)m.first+m.second.len){ mapflush(m.first,m.second); if((fl&MS_SYNC)&&m.second.ino->sync()<0){ errno=EIO; return -1; } return 0; } errno=EINVAL; return -1; } mapflush(p,it->second); if((fl&MS_SYNC)&&it->second.ino&&it->second.ino->sync()<0){ W->wb_failed=true; errno=EIO; return -1; } return 0; }
int sim_munmap(void*p,size_t){ W->enter(O_META,0); auto it=maps.find(p); if(it==maps.end()){ errno=EINVAL; return -1; } mapflush(p,it->second); munmap(p,(it->second.len+4095)/4096*4096); maps.erase(it); return 0; }
int sim_madvise(void*,size_t,int){ return 0; }
int sim_posix_madvise(void*,size_t,int){ return 0; }

// ---- stdio
FILE*sim_stdin,*sim_stdout,*sim_stderr;
static std::map<FILE*,int> fnos;
static ssize_t ck_w(void*c,const char*b,size_t n){ if(!W||!W->running) return n; return do_write((int)(intptr_t)c,b,n,0,false); }
static ssize_t ck_we(void*,const char*b,size_t n){ if(!W||!W->running) return n; Ofd*o=getfd(2); if(!o) return 0; if(o->kind!=3) return do_write(2,b,n,0,false); if(W->brkerr){ errno=EIO; return 0; } W->scan(2,b,n,"the log"); if(W->verbose) W->logbuf.append(b,n); return n; }
static ssize_t ck_r(void*c,char*b,size_t n){ if(!W||!W->running) return 0; return do_read((int)(intptr_t)c,b,n,0,false); }
static int ck_c(void*c){ if(!W||!W->running) return 0; int fd=(int)(intptr_t)c; return fd>2?sim_close(fd):0; }
static int ck_s(void*c,off64_t*o,int wh){ if(!W||!W->running) return -1; off_t r=sim_lseek((int)(intptr_t)c,*o,wh); if(r<0) return -1; *o=r; return 0; }
static FILE*mkfile(int fd,const char*mode){ cookie_io_functions_t io={ck_r,fd==2?ck_we:ck_w,fd>2?ck_s:nullptr,ck_c}; FILE*f=fopencookie((void*)(intptr_t)fd,mode,io); if(f) fnos[f]=fd; return f; }
FILE*sim_fdopen(int fd,const char*m){ if(!getfd(fd)) return nullptr; if(alloc_fails()) return nullptr; return mkfile(fd,m); }
FILE*sim_fopen(const char*p,const char*m){ int fl= m[0]=='r'?(strchr(m,'+')?O_RDWR:O_RDONLY): (strchr(m,'+')?O_RDWR:O_WRONLY)|O_CREAT|(m[0]=='w'?O_TRUNC:O_APPEND); if(strchr(m,'x')) fl|=O_EXCL; int fd=do_open(p,fl,0666); if(fd<0) return nullptr; return sim_fdopen(fd,m); }
int sim_fileno(FILE*f){ auto it=fnos.find(f); if(it==fnos.end()){ errno=EBADF; return -1; } return it->second; }
int sim_printf(const char*f,...){ va_list a; va_start(a,f); int r=vfprintf(sim_stdout,f,a); va_end(a); return r; }
int sim_printf_chk(int,const char*f,...){ va_list a; va_start(a,f); int r=vfprintf(sim_stdout,f,a); va_end(a); return r; }
int sim_vprintf(const char*f,va_list a){ return vfprintf(sim_stdout,f,a); }
int sim_puts(const char*s){ if(fputs(s,sim_stdout)<0) return -1; return fputc('\n',sim_stdout)<0?-1:0; }
int sim_putchar(int c){ return fputc(c,sim_stdout); }
int sim_getchar(void){ return fgetc(sim_stdin); }
void sim_perror(const char*s){ fprintf(sim_stderr,"%s: %s\n",s,strerror(errno)); }
ssize_t sim_getdelim(char**lp,size_t*n,int d,FILE*f){ size_t k=0; int c; while((c=fgetc(f))!=EOF){ if(k+2>*n||!*lp){ size_t m=*lp&&*n?*n*2:120; if(m<k+2) m=k+2; char*q=(char*)sim_realloc(*lp,m); if(!q) return -1; *lp=q; *n=m; } (*lp)[k++]=(char)c; if(c==d) break; } if(!k) return -1; (*lp)[k]=0; return k; }
ssize_t sim_getline(char**lp,size_t*n,FILE*f){ return sim_getdelim(lp,n,'\n',f); }

// ---- time
static void advance(u64 ns){ W->now+=ns; if(W->timecap&&W->now-W->incstart>W->timecap){ W->tr("simulated time limit exceeded"); W->die(OUT_HANG); } }
int sim_clock_gettime(clockid_t c,struct timespec*ts){ W->enter(O_CLOCK,0); u64 t=W->now+1000000000ull*12345; if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE){ t+=1700000000ull*1000000000ull; if(Fault*f=W->decide(O_CLOCK,0)) t-=(f->arg%100000)*1000000000ull; } ts->tv_sec=t/1000000000; ts->tv_nsec=t%1000000000; return 0; }
time_t sim_time(time_t*p){ struct timespec ts; sim_clock_gettime(CLOCK_REALTIME,&ts); if(p)*p=ts.tv_sec; return ts.tv_sec; }
int sim_gettimeofday(struct timeval*tv,void*){ struct timespec ts; sim_clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
static void dosleep(u64 ns){ W->enter(O_SLEEP,0); W->tr("sleep %.3f s",ns/1e9); W->sleeps.push_back(ns); advance(ns); }
int sim_usleep(useconds_t u){ dosleep((u64)u*1000); return 0; }
unsigned sim_sleep(unsigned s){ dosleep((u64)s*1000000000ull); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*){ if(t->tv_nsec<0||t->tv_nsec>999999999||t->tv_sec<0){ errno=EINVAL; return -1; } dosleep((u64)t->tv_sec*1000000000ull+t->tv_nsec); return 0; }
int sim_clock_nanosleep(clockid_t,int fl,const struct timespec*t,struct timespec*){ u64 v=(u64)t->tv_sec*1000000000ull+t->tv_nsec; if(fl&TIMER_ABSTIME){ u64 n=W->now+1000000000ull*12345; v=v>n?v-n:0; } dosleep(v); return 0; }
int sim_poll(struct pollfd*,nfds_t n,int ms){ if(ms<0){ W->die(OUT_HANG); } dosleep((u64)ms*1000000ull); return n?0:0; }

// ---- process
void sim__exit(int c){ W->exitcode=c; W->die(OUT_EXIT); __builtin_unreachable(); }
void sim__Exit(int c){ sim__exit(c); }
void sim_exit(int c){ auto a=W->atex; W->atex.clear(); for(size_t i=a.size();i-->0;) a[i](); fflush(sim_stdout); sim__exit(c); }
void sim_quick_exit(int c){ sim__exit(c); }
void sim_abort(void){ W->tr("abort()"); W->die(OUT_ABORT); __builtin_unreachable(); }
void sim___assert_fail(const char*e,const char*f,unsigned l,const char*){ W->tr("assertion '%s' failed at %s:%u",e,f,l); W->die(OUT_ABORT); __builtin_unreachable(); }
int sim_atexit(void(*f)()){ W->atex.push_back(f); return 0; }
int sim_raise(int s){ if(s==SIGABRT||s==SIGSEGV||s==SIGKILL||s==SIGTERM) W->die(OUT_ABORT); return 0; }
int sim_kill(pid_t,int s){ return sim_raise(s); }
pid_t sim_getpid(void){ return W->samepid?W->pid:W->pid+W->cur; }
pid_t sim_gettid(void){ return sim_getpid(); }
uid_t sim_getuid(void){ return W->user?1000:0; }
uid_t sim_geteuid(void){ return W->user?1000:0; }
typedef void(*shandler)(int);
shandler sim_signal(int,shandler){ return SIG_DFL; }
int sim_sigaction(int,const struct sigaction*,struct sigaction*o){ if(o) memset(o,0,sizeof*o); return 0; }
int sim_sigprocmask(int,const sigset_t*,sigset_t*){ return 0; }
char*sim_getenv(const char*n){ auto it=W->env.find(n); return it==W->env.end()?nullptr:(char*)it->second.c_str(); }
char*sim_secure_getenv(const char*n){ return sim_getenv(n); }
int sim_isatty(int fd){ Ofd*o=getfd(fd); if(!o) return 0; if(o->kind==3&&(fd==2?W->tty==1||W->tty==3:W->outtty())) return 1; errno=ENOTTY; return 0; }
static u64 rctr;
ssize_t sim_getrandom(void*b,size_t n,unsigned){ Rng r(W->cur*77+rctr++); for(size_t i=0;i<n;i++) ((u8*)b)[i]=(u8)r.next(); return n; }
int sim_rand(void){ Rng r(W->cur*77+rctr++); return (int)(r.next()&0x7fffffff); }
long sim_random(void){ return sim_rand(); }
void sim_srand(unsigned){} void sim_srandom(unsigned){}
int sim_system(const char*c){ contain("ran a command '%s'",c?c:""); return -1; }
pid_t sim_fork(void){ contain("forked%s",""); errno=EAGAIN; return -1; }
int sim_execve(const char*p,char*const*,char*const*){ contain("executed '%s'",p); errno=EPERM; return -1; }
int sim_execvp(const char*p,char*const*){ contain("executed '%s'",p); errno=EPERM; return -1; }
FILE*sim_popen(const char*p,const char*){ contain("ran a command '%s'",p); return nullptr; }

// ---- AF_ALG hash sockets
int sim_socket(int d,int t,int p){ W->enter(O_SOCK,0); if(Fault*f=W->decide(O_SOCK,0)) if(errfault(f,nullptr)) return -1; if(d!=AF_ALG){ contain("opened a network socket%s",""); errno=EAFNOSUPPORT; return -1; } (void)t;(void)p; auto o=std::make_shared<Ofd>(); o->kind=1; return newfd(o); }
int sim_bind(int fd,const struct sockaddr*sa,socklen_t l){ Ofd*o=getfd(fd); if(!o) return -1; W->enter(O_SOCK,1); if(Fault*f=W->decide(O_SOCK,1)) if(errfault(f,nullptr)) return -1; if(o->kind!=1||l<sizeof(struct sockaddr_alg)){ errno=EINVAL; return -1; } auto*a=(const struct sockaddr_alg*)sa; if(strcmp((const char*)a->salg_type,"hash")||strncmp((const char*)a->salg_name,"sha256",6)){ errno=ENOENT; return -1; } o->bound=true; return 0; }
int sim_accept4(int fd,struct sockaddr*,socklen_t*,int){ Ofd*o=getfd(fd); if(!o) return -1; W->enter(O_SOCK,2); if(Fault*f=W->decide(O_SOCK,2)) if(errfault(f,nullptr)) return -1; if(o->kind!=1||!o->bound){ errno=EINVAL; return -1; } auto n=std::make_shared<Ofd>(); n->kind=2; return newfd(n); }
int sim_accept(int fd,struct sockaddr*a,socklen_t*l){ return sim_accept4(fd,a,l,0); }
int sim_connect(int,const struct sockaddr*,socklen_t){ errno=ENETUNREACH; return -1; }
ssize_t sim_send(int fd,const void*b,size_t n,int fl){
	Ofd*o=getfd(fd); if(!o) return -1; W->enter(O_SEND,0); Fault*f=W->decide(O_SEND,0);
	if(o->kind==6){ o->fin=true; W->scan(53,b,n,"a request"); return n; }
	if(o->kind!=2){ errno=ENOTSOCK; return -1; }
	if(f&&errfault(f,nullptr)) return -1;
	if(f&&f->kind==F_SHORT&&n>1) n=shortlen(n,f->arg);
	if(o->fin){ o->acc.clear(); o->fin=false; }
	o->acc.insert(o->acc.end(),(const u8*)b,(const u8*)b+n);
	W->ev(n,20,0);
	if(!(fl&MSG_MORE)) o->bound=true; else o->bound=false;
	return n; }
ssize_t sim_sendto(int fd,const void*b,size_t n,int fl,const struct sockaddr*,socklen_t){ return sim_send(fd,b,n,fl); }
ssize_t sim_sendmsg(int fd,const struct msghdr*m,int fl){ ssize_t t=0; for(size_t i=0;i<m->msg_iovlen;i++){ ssize_t r=sim_send(fd,m->msg_iov[i].iov_base,m->msg_iov[i].iov_len,fl); if(r<0) return t?t:r; t+=r; if((size_t)r<m->msg_iov[i].iov_len) break; } return t; }
ssize_t sim_recv(int fd,void*b,size_t n,int){
	Ofd*o=getfd(fd); if(!o) return -1; W->enter(O_RECV,0); Fault*f=W->decide(O_RECV,0);
	if(o->kind==6){ static const char bad[]="HTTP/1.1 400 Bad Request\r\nConnect"; o->fin=true; n=std::min<size_t>(n,32); memcpy(b,bad,n); return n; }
	if(o->kind!=2){ errno=ENOTSOCK; return -1; }
	if(f&&errfault(f,nullptr)) return -1;
	u8 d[32]; SHA256(o->acc.data(),o->acc.size(),d); 
	size_t m=n<32?n:32; if(f&&f->kind==F_SHORT) m=f->arg%32; if(f&&f->kind==F_FLIP) d[f->arg%32]^=1;
	memcpy(b,d,m); o->acc.clear(); o->fin=true; W->ev(m,21,0); return m; }
ssize_t sim_recvfrom(int fd,void*b,size_t n,int fl,struct sockaddr*,socklen_t*){ return sim_recv(fd,b,n,fl); }
ssize_t sim_recvmsg(int fd,struct msghdr*m,int fl){ if(!m->msg_iovlen) return 0; return sim_recv(fd,m->msg_iov[0].iov_base,m->msg_iov[0].iov_len,fl); }
int sim_setsockopt(int,int,int,const void*,socklen_t){ return 0; }
int sim_getsockopt(int,int,int,void*,socklen_t*){ errno=ENOPROTOOPT; return -1; }
int sim_shutdown(int,int){ return 0; }

// ---- zstd / libcrypto objects: real code, creation can fail, leftovers of a killed process are released
ZSTD_DStream*sim_ZSTD_createDStream(void){ if(alloc_fails()) return nullptr; auto*z=ZSTD_createDStream(); W->zs.push_back(z); if(W->zs.size()>W->zpeak) W->zpeak=W->zs.size(); return z; }
size_t sim_ZSTD_freeDStream(ZSTD_DStream*z){ if(!z) return 0; for(size_t i=0;i<W->zs.size();i++) if(W->zs[i]==z){ W->zs.erase(W->zs.begin()+i); return ZSTD_freeDStream(z); } heap_bad("decompression context released twice"); return 0; }
ZSTD_DCtx*sim_ZSTD_createDCtx(void){ return (ZSTD_DCtx*)sim_ZSTD_createDStream(); }
size_t sim_ZSTD_freeDCtx(ZSTD_DCtx*z){ return sim_ZSTD_freeDStream((ZSTD_DStream*)z); }
EVP_CIPHER_CTX*sim_EVP_CIPHER_CTX_new(void){ if(alloc_fails()) return nullptr; auto*e=EVP_CIPHER_CTX_new(); W->evs.push_back(e); if(W->evs.size()>W->epeak) W->epeak=W->evs.size(); return e; }
void sim_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX*c){ if(!c) return; for(size_t i=0;i<W->evs.size();i++) if(W->evs[i]==c){ W->evs.erase(W->evs.begin()+i); EVP_CIPHER_CTX_free(c); return; } heap_bad("cipher context released twice"); }
static bool cryptfail(int r){ Fault*f=W->decide(O_CRYPT,r); return f&&f->kind==F_EIO; }
int sim_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX*c){ if(cryptfail(1)) return 0; return EVP_CIPHER_CTX_reset(c); }
int sim_EVP_CipherInit(EVP_CIPHER_CTX*c,const EVP_CIPHER*t,const unsigned char*k,const unsigned char*iv,int e){ if(cryptfail(2)) return 0; return EVP_CipherInit(c,t,k,iv,e); }
int sim_EVP_CipherInit_ex(EVP_CIPHER_CTX*c,const EVP_CIPHER*t,ENGINE*g,const unsigned char*k,const unsigned char*iv,int e){ if(cryptfail(2)) return 0; return EVP_CipherInit_ex(c,t,g,k,iv,e); }
int sim_EVP_EncryptInit(EVP_CIPHER_CTX*c,const EVP_CIPHER*t,const unsigned char*k,const unsigned char*iv){ if(cryptfail(2)) return 0; return EVP_EncryptInit(c,t,k,iv); }
int sim_EVP_EncryptInit_ex(EVP_CIPHER_CTX*c,const EVP_CIPHER*t,ENGINE*g,const unsigned char*k,const unsigned char*iv){ if(cryptfail(2)) return 0; return EVP_EncryptInit_ex(c,t,g,k,iv); }
int sim_EVP_Cipher(EVP_CIPHER_CTX*c,unsigned char*o,const unsigned char*i,unsigned int n){ if(cryptfail(0)) return (W->ops&1)?0:-1; /* both are documented failures */ return EVP_Cipher(c,o,i,n); }
int sim_EVP_CipherUpdate(EVP_CIPHER_CTX*c,unsigned char*o,int*ol,const unsigned char*i,int n){ if(cryptfail(0)) return 0; return EVP_CipherUpdate(c,o,ol,i,n); }
int sim_EVP_EncryptUpdate(EVP_CIPHER_CTX*c,unsigned char*o,int*ol,const unsigned char*i,int n){ if(cryptfail(0)) return 0; return EVP_EncryptUpdate(c,o,ol,i,n); }
unsigned char*sim_SHA256(const unsigned char*d,size_t n,unsigned char*md){ if(cryptfail(3)) return nullptr; return SHA256(d,n,md); }
}
void curlsim_cleanup();

// ------------------------------------------------------------------ processes
extern "C" { int csn_main(int,char**); int csntool_main(int,char**); int patchdd_main(int,char**); }
#define SECS(p) extern "C" u8 __start_##p##_data[] __attribute__((weak)),__stop_##p##_data[] __attribute__((weak)),__start_##p##_bss[] __attribute__((weak)),__stop_##p##_bss[] __attribute__((weak));
SECS(m0) SECS(m1) SECS(m2)
static void rawcopy(u8*d,const u8*s,size_t n){ __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
struct Snap { u8*p; size_t n; u8*copy; };
static std::vector<Snap> snaps[3]; static bool snapped;
static void snap1(int m,u8*a,u8*b){ if(!a||b<=a) return; Snap s{a,(size_t)(b-a),(u8*)mmap(nullptr,b-a,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0)}; rawcopy(s.copy,a,s.n); snaps[m].push_back(s); }
static void snapshot(){ if(snapped) return; snapped=true;
	snap1(0,__start_m0_data,__stop_m0_data); snap1(0,__start_m0_bss,__stop_m0_bss);
	snap1(1,__start_m1_data,__stop_m1_data); snap1(1,__start_m1_bss,__stop_m1_bss);
	snap1(2,__start_m2_data,__stop_m2_data); snap1(2,__start_m2_bss,__stop_m2_bss); }
volatile u64 g_progress; static u64 seenprogress; static int periods; // what the process asked the world for so far
static void onsig(int s){
	if(s==SIGVTALRM&&W&&W->running&&g_progress!=seenprogress&&++periods<12){ seenprogress=g_progress; return; } // slow, but not stuck
	if(W&&W->running){ W->running=false; W->sig=s; W->outcome= s==SIGVTALRM?OUT_HANG:OUT_SIGNAL; siglongjmp(W->jb,1); }
	_exit(99);
}
volatile int g_sigs; // real signals caught so far: the worker is replaced after one
static void setup_sigs(){
	static bool done; if(done) return; done=true;
	stack_t ss; ss.ss_sp=malloc(262144); ss.ss_size=262144; ss.ss_flags=0; sigaltstack(&ss,nullptr);
	struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
	int l[]={SIGVTALRM,
#ifndef SIM_ASAN
	SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,
#endif
	}; for(int s:l) sigaction(s,&sa,nullptr);
}
#ifdef SIM_ASAN
#define HANGSECS 15
#else
#define HANGSECS 5
#endif
__attribute__((noinline)) static void dirty_stack(int fill,bool big){ if(big){ u8 b[2400000]; memset(b,fill,sizeof b); asm volatile(""::"r"(b):"memory"); } else { u8 b[400000]; memset(b,fill,sizeof b); asm volatile(""::"r"(b):"memory"); } }
static int call_main(int tool,int argc,char**argv){ return tool==TOOL_CSN?csn_main(argc,argv): tool==TOOL_CRYPT?csntool_main(argc,argv):patchdd_main(argc,argv); }

ProcResult run_process(World&w,int tool,const std::vector<Str>&argv)
{
	snapshot(); setup_sigs();
	W=&w;
	for(auto&s:snaps[tool]) rawcopy(s.p,s.copy,s.n);
	w.fds.clear(); for(int i=0;i<3;i++){ auto o=std::make_shared<Ofd>(); o->kind=3; o->stdno=i; if(w.closed>>i&1) o=nullptr; w.fds.push_back(o); }
	w.ops=0; w.occ.clear(); w.fired.clear(); w.twrites.clear(); w.http.clear(); w.contain.clear(); w.oplog.clear();
	w.target_touched=w.target_written=false; w.live=w.peak=w.nalloc=0; w.live_at_req.clear(); w.fd_peak=3; w.heapbad=false; w.heapmsg.clear();
	w.zs.clear(); w.evs.clear(); w.atex.clear(); w.sleeps.clear(); w.stdin_pos=0; w.stdout_data.clear(); w.readbytes=0; w.incstart=w.now; w.outcome=0; w.sig=0; w.exitcode=0;
	w.zpeak=w.epeak=w.cpeak=w.ccur=0; w.wb_failed=false; w.logbuf.clear(); w.maxbody=0; w.evhash=1469598103934665603ull; w.fragctr=0; w.leak.clear(); w.leaktail.clear(); w.outev.clear(); rctr=0; fnos.clear();
	for(auto&d:w.dir){ d.second->modified=false; d.second->dead=false; d.second->lastend=~0ull; }
	std::vector<Bytes> store; std::vector<char*> av;
	for(auto&s:argv){ store.emplace_back(s.begin(),s.end()); store.back().push_back(0); } for(auto&s:store) av.push_back((char*)s.data()); av.push_back(nullptr);
	optind=0; opterr=0; optarg=nullptr;
	sim_stdin=mkfile(0,"r"); sim_stdout=mkfile(1,"w"); sim_stderr=mkfile(2,"w"); setvbuf(sim_stderr,nullptr,_IONBF,0); if(w.outtty()) setvbuf(sim_stdout,nullptr,_IOLBF,512);
	seenprogress=g_progress; periods=0; long hs=w.hangsecs?w.hangsecs:HANGSECS; struct itimerval tv={{hs,0},{hs,0}},off={{0,0},{0,0}};
	setitimer(ITIMER_VIRTUAL,&tv,nullptr);
	w.running=true;
	if(sigsetjmp(w.jb,1)==0){
		if(w.stackfill>=0) dirty_stack(w.stackfill,tool==TOOL_PATCHDD);
		int r=call_main(tool,(int)argv.size(),av.data());
		sim_exit(r);
	}
	setitimer(ITIMER_VIRTUAL,&off,nullptr);
	w.running=false; w.crash_at=0;
	if(w.sig) g_sigs++;
	ProcResult r; r.outcome=w.outcome; r.code=w.exitcode&255; r.sig=w.sig; r.ops=w.ops; r.dt=w.now-w.incstart; 
	if(!w.sig) for(auto&h:heap) if(!canary_ok(h.first,h.second.n)) heap_bad("write past the end of a heap block");
	r.fired=w.fired; r.tw=w.twrites; r.http=w.http; r.contain=w.contain; r.oplog=w.oplog; r.peak=w.peak; r.live_at_req=w.live_at_req; r.fd_peak=w.fd_peak; r.heapmsg=w.heapmsg; r.heapbad=w.heapbad; r.sleeps=w.sleeps; r.target_written=w.target_written; r.out=w.stdout_data;
	r.zpeak=w.zpeak; r.epeak=w.epeak; r.cpeak=w.cpeak; r.wb_failed=w.wb_failed; r.log=w.logbuf; r.maxbody=w.maxbody; r.leak=w.leak; r.outev=w.outev;
	u64 tail[3]={(u64)w.outcome,(u64)r.code,w.ops}; r.hash=fnv(w.evhash,tail,sizeof tail);
	if(w.sig==SIGVTALRM){ r.cpuhang=true; r.hash=0x4848; } // stopped by the CPU time it used: when exactly is not repeatable
	// release what the process left behind
	bool clean=w.outcome==OUT_EXIT;
	if(clean){ fclose(sim_stdin); fclose(sim_stdout); fclose(sim_stderr); }
	for(auto&h:heap) free(h.first); heap.clear();
	for(auto z:w.zs) ZSTD_freeDStream((ZSTD_DStream*)z); w.zs.clear();
	for(auto e:w.evs) EVP_CIPHER_CTX_free((EVP_CIPHER_CTX*)e); w.evs.clear();
	for(auto&m:maps) munmap(m.first,(m.second.len+4095)/4096*4096); maps.clear();
	curlsim_cleanup();
	w.fds.clear();
	W->tr("process ended: outcome %d code %d%s",r.outcome,r.code,r.heapbad?" (heap damaged)":"");
	return r;
}

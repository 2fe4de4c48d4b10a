// Seeded generation of plans: one integer decides the configuration, the inputs, the fault rates of every
// process run, and where the runs are interrupted. Which mixes are preferred depends on the property.
#include "sim.hpp"
#include <stdlib.h>
#include <stdio.h>
#include <algorithm>

struct Prof {
	int cdc=75, big=3, manychunks=0, repeats=30, emptyimg=2;
	int nlocal=45, nhttp=75, side=25, tstore=25, enc=35, fullserver=65, localfirst=55, alias=3, missing=2, wrongkey=4, missrate=35, exactlocal=20;
	int muts=0, casync=40, kcapi=12, tty=10, prefix=45, blk=60, small=3, tmissing=2, texact=6;
	int fshort=25, fio=8, fseed=12, frot=12, ftflip=5, fwb=5, ffsync=5, ftrans=20, fhard=10, fstatus=12, fnotfound=12, fbody=25, fok=25, falloc=0, fkcapi=0, fcrypt=0, fcfg=0, fclose=0, fdead=5, findex=4, fside=6, fkey=3, fclock=5, fendless=3, fdrip=3, fneutral=0, sidebig=0, near=0;
	int crash=20, power=40, maxinc=3; bool lasthealthy=false; int pair=0; int frag=60; int burst=25; int longburst=6; bool faultsinall=false;
	int big256=2, pad=4, hole=0, bigscan=0, ddhole=0, forever=2, late=1; // chunks as long as the buffer; long paths; huge images (in 10000); failures that never stop
	int samebase=8; int frescan=3; int bad=0, fopen=0; // percent of runs with an unusable command line; with a file that cannot be opened
	int noneallowed=12; // percent of runs without any fault
};

static u32 loglen(Rng&r,u32 lo,u32 hi){ double a=__builtin_log((double)lo),b=__builtin_log((double)hi); double x=a+(b-a)*(r.below(1000001)/1e6); u32 v=(u32)__builtin_exp(x); return v<lo?lo:v>hi?hi:v; }

static void gen_params(Rng&r,const Prof&f,Plan&p,bool&big)
{
	big=r.pct(f.big);
	if(big){ if(r.pct(70)) p.cp={16384,65536,262144}; else p.cp={4096,16384,65536}; return; }
	switch(r.below(12)){
	case 0: p.cp={48,200,800}; break; case 1: p.cp={1,300,1000}; break; case 2: p.cp={64,100,120}; break; case 3: p.cp={100,101,102}; break;
	case 4: p.cp={256,1024,4096}; break; case 5: p.cp={64,512,513}; break; case 6: p.cp={47,150,4000}; break; case 7: p.cp={0,64,96}; break;
	default: p.cp={64,256,1024};
	}
	if(r.pct(6)){ u32 a=(u32)r.range(0,400),b=a+1+(u32)r.below(900),c=b+1+(u32)r.below(3000); p.cp={a,b,c}; if(c<48) p.cp.max=c+48; if(p.cp.avg<8) p.cp={a+8,b+8,c+60}; }
}
static Seg gen_seg(Rng&r,u32 lo,u32 hi)
{
	Seg s; int k=(int)r.below(100); s.kind=k<58?SEG_RAND:k<75?SEG_TEXT:k<90?SEG_ZERO:SEG_DENSE; s.seed=r.next()%100000; s.len=loglen(r,lo,hi); return s;
}
static std::vector<Seg> mutate_segs(Rng&r,const std::vector<Seg>&in,u32 lo,u32 hi)
{
	std::vector<Seg> v=in; int n=(int)r.range(1,4);
	while(n--){
		switch(r.below(6)){
		case 0: if(v.size()) v.erase(v.begin()+r.below(v.size())); break;
		case 1: v.insert(v.begin()+r.below(v.size()+1),gen_seg(r,lo,hi)); break;
		case 2: if(v.size()) v[r.below(v.size())]=gen_seg(r,lo,hi); break;
		case 3: if(v.size()>1) std::swap(v[r.below(v.size())],v[r.below(v.size())]); break;
		case 4: if(v.size()) { auto&s=v[r.below(v.size())]; s.len=s.len>2?1+(u32)r.below(s.len-1):s.len; } break;
		case 5: if(v.size()) v.insert(v.begin()+r.below(v.size()+1),Seg(v[r.below(v.size())])); break;
		}
	}
	return v;
}
static Mut gen_mut(Rng&r){ Mut m; m.kind=(int)r.range(1,MUT_MAX-1); m.a=r.pct(40)?r.below(300):r.below(100000); m.b=r.next()>>r.below(60); return m; }

static u32 pickppm(Rng&r){ return r.pick<u32>({500,3000,3000,20000,20000,100000,300000}); }
struct RB { Rng&r; std::vector<Rate>&v;
	// mostly: a rate over the whole run; sometimes confined to a window, sometimes only a few times
	void add(int op,int role,int kind,u32 ppm,u64 argmod=1u<<20,u64 argadd=0,u32 span=400){
		Rate x{}; x.op=op; x.role=role; x.kind=kind; x.ppm=ppm; x.from=0; x.to=~0u; x.max=0; x.argmod=argmod; x.argadd=argadd;
		if(kind==F_EINTR&&x.ppm>700000) x.ppm=700000; // signals do not arrive for ever
		int w=(int)r.below(100);
		if(w<25){ x.from=(u32)r.below(span); x.to=x.from+(u32)r.below(1+span/8); if(r.pct(60)) x.ppm=1000000; }
		if(r.pct(45)) x.max=(u32)r.range(1,3);
		v.push_back(x); }
	void at(int op,int role,int kind,u32 from,u32 cnt,u64 argmod=1u<<20,u64 argadd=0){ Rate x{}; x.op=op; x.role=role; x.kind=kind; x.ppm=1000000; x.from=from; x.to=from+cnt-1; x.max=cnt; x.argmod=argmod; x.argadd=argadd; v.push_back(x); }
};
static void benign(RB&b,bool stdio)
{
	u32 ppm=b.r.pick<u32>({10000,100000,300000,700000,900000}); bool s=b.r.pct(85),e=!s||b.r.pct(75);
	int role= b.r.pct(60)?255 : b.r.pick<int>({R_INDEX,R_TARGET,R_KEY,R_SEED0,R_SIDE0,R_CHUNKIN,R_OUT,R_SRC});
	u64 am=b.r.pick<u64>({1,3,50,1u<<20});
	if(s){ b.v.push_back(Rate{O_READ,role,F_SHORT,ppm,0,~0u,0,am,0}); b.v.push_back(Rate{O_WRITE,role,F_SHORT,ppm,0,~0u,0,am,0}); }
	if(e){ if(ppm>700000) ppm=700000; for(int op:{O_READ,O_WRITE}) { if(role!=255||stdio) b.v.push_back(Rate{op,role,F_EINTR,ppm,0,~0u,0,0,0}); else for(int q=0;q<R_STD;q++) b.v.push_back(Rate{op,q,F_EINTR,ppm,0,~0u,0,0,0}); } }
}
static const int TRANS[]={H_REFUSED,H_DNS,H_CTIMEOUT,H_STALL};
static const int HARD[]={H_RESET,H_PARTIAL,H_EMPTYREPLY,H_TLS,H_REDIRLOOP};
static const int BODY[]={H_BODYFLIP,H_BODYOTHER,H_BODYTRUNC,H_BODYGARBAGE,H_BODYRAW,H_BODYEMPTY,H_BODYBOMB,H_BODYTRAIL,H_BODYCROSS,H_BODYMULTI,H_BODYFLIP,H_BODYOTHER,H_BODYTRUNC,H_BODYCROSS};
#define ARR(a) a[r.below(sizeof a/sizeof*a)]
static u64 statusarg(Rng&r,bool err){ // index into STCODES of the simulated servers: 0..12 are errors, the rest is odd
	return (err? r.below(13) : 13+r.below(6)); }

static void net_faults(Rng&r,const Prof&f,RB&b,int s)
{
	if(r.pct(f.fneutral)){ // failures with answers in between that are neither failures nor successes
		u32 from=(u32)r.below(8),to=from+(u32)r.range(12,40); u32 pp=r.pick<u32>({60000,150000,300000,500000});
		for(int k:{(int)H_BODYRAW,(int)H_BODYEMPTY,(int)H_NOTFOUND}) if(r.pct(60)) b.v.push_back(Rate{O_HTTP,s,k,pp,from,to,0,1u<<20,0});
		b.v.push_back(Rate{O_HTTP,s,H_STATUS,1000000,from,to,0,0,statusarg(r,true)+64*r.below(3)});
	}
	if(r.pct(f.ftrans)){
		int n=(int)r.range(1,3); for(int i=0;i<n;i++){
			int k=ARR(TRANS);
			if(r.pct(f.longburst)) b.at(O_HTTP,s,k,(u32)r.below(20),(u32)r.range(95,125));
			else if(r.pct(f.burst)) b.at(O_HTTP,s,k,(u32)r.below(20),(u32)r.range(1,r.pct(30)?30:11));
			else b.add(O_HTTP,s,k,r.pick<u32>({20000,100000,300000,600000}),1u<<20,0,30);
		}
	}
	if(r.pct(f.late)) b.at(O_HTTP,s,H_STALL,(u32)r.below(8),(u32)r.range(2,9),0,1); // most of an answer, again and again
	if(r.pct(f.forever)){ if(r.pct(35)) b.at(O_HTTP,s,H_STALL,0,1000000,0,r.pct(60)?1:5); else b.at(O_HTTP,s,r.pct(60)?H_STALL:ARR(TRANS),r.pct(70)?0:(u32)r.below(12),1000000); }
	if(r.pct(f.fstatus)){
		bool err=r.pct(80);
		if(r.pct(f.burst)) b.at(O_HTTP,s,H_STATUS,(u32)r.below(15),(u32)r.range(1,16),0,statusarg(r,err)+64*r.below(3));
		else { int n=(int)r.range(1,3); while(n--) b.add(O_HTTP,s,H_STATUS,r.pick<u32>({20000,100000,400000,900000}),0,statusarg(r,err)+64*r.below(3),30); }
	}
	if(r.pct(f.fnotfound)) b.add(O_HTTP,s,H_NOTFOUND,r.pick<u32>({30000,200000,500000}),64,0,30);
	if(r.pct(f.fbody)){ int n=(int)r.range(1,4); while(n--) b.add(O_HTTP,s,ARR(BODY),r.pick<u32>({20000,100000,400000,1000000}),1u<<24,0,30); }
	if(r.pct(f.fbody/4)) b.at(O_HTTP,s,r.pick<int>({H_BODYGARBAGE,H_BODYEMPTY,H_BODYRAW,H_BODYGARBAGE,H_BODYCROSS}),(u32)r.below(6),(u32)r.range(9,16),1u<<24);
	if(r.pct(f.fok)){ b.add(O_HTTP,s,r.pct(60)?H_PAUSE:H_REDIRECT,r.pick<u32>({50000,300000,1000000}),1u<<20,0,30); }
	if(r.pct(f.fhard)) b.add(O_HTTP,s,ARR(HARD),r.pick<u32>({10000,60000,200000}),1u<<20,0,30);
	if(r.pct(f.fendless)) b.at(O_HTTP,s,H_BODYENDLESS,(u32)r.below(12),1);
	if(r.pct(f.fdrip)) b.at(O_HTTP,s,H_DRIP,(u32)r.below(12),(u32)r.range(1,12));
}
static int iokind(Rng&r,const Prof&f){ return r.pct(f.fdead)?F_DEAD:F_EIO; }
static void file_faults(Rng&r,const Prof&f,RB&b,const Plan&p)
{
	if(r.pct(f.fshort)) benign(b,false);
	for(size_t i=0;i<p.locals.size();i++){
		int role=R_SEED0+(int)i;
		if(r.pct(f.fseed)){ b.add(O_READ,role,r.pct(20)?F_DEAD:F_EIO,pickppm(r),1u<<20,0,200); }
		if(r.pct(f.frot)) b.add(O_READ,role,r.pct(60)?F_ROT:F_FLIP,r.pick<u32>({3000,20000,100000,300000}),1ull<<40,0,200);
		if(r.pct(f.frot/4)) b.v.push_back(Rate{O_READ,role,F_FLIP,1000000,0,~0u,0,1ull<<32,1ull<<40}); // what is read anywhere but in sequence is wrong
		if(p.locals[i].side&&r.pct(f.frescan)) b.at(p.locals[i].blk&&r.pct(60)?O_IOCTL:O_STAT,role,F_EIO,(u32)r.below(2)*r.below(2),1); // what is needed for another scan
		if(p.locals[i].side&&p.locals[i].side!=6&&r.pct(f.fside)) b.add(r.pick<int>({O_READ,O_READ,O_OPEN,O_STAT,O_SEEK,O_CLOSE}),R_SIDE0+(int)i,F_EIO,r.pick<u32>({30000,200000,1000000}),1,0,30);
	}
	if(r.pct(f.fio)) b.add(r.pick<int>({O_READ,O_WRITE,O_WRITE}),R_TARGET,r.pct(30)?F_ENOSPC:iokind(r,f),pickppm(r),1,0,100);
	if(r.pct(f.ftflip)) b.add(O_READ,R_TARGET,F_FLIP,r.pick<u32>({20000,100000,400000}),1ull<<40,0,60);
	if(r.pct(f.fwb)) b.add(O_WRITE,R_TARGET,F_WB,r.pick<u32>({20000,100000,1000000}),1,0,60);
	if(r.pct(f.ffsync)) b.add(O_DOSYNC,R_TARGET,r.pct(20)?F_ENOSPC:F_EIO,1000000,1000,0,2);
	if(r.pct(f.findex)) b.add(r.pick<int>({O_READ,O_READ,O_OPEN,O_STAT,O_SEEK}),R_INDEX,iokind(r,f),r.pick<u32>({30000,200000,1000000}),1,0,40);
	if(r.pct(f.fopen)) b.at(O_OPEN,r.pick<int>({R_INDEX,R_TARGET,R_KEY,R_SEED0,R_SEED0,R_SEED0+1}),r.pick<int>({F_EIO,F_EMFILE,F_NULL}),(u32)r.below(2),1);
	if(r.pct(f.fkey)) b.add(r.pick<int>({O_READ,O_OPEN,O_STAT}),R_KEY,F_EIO,r.pick<u32>({300000,1000000}),1,0,3);
	if(r.pct(f.fclose)) b.add(r.pick<int>({O_CLOSE,O_OPEN,O_STAT,O_SEEK,O_IOCTL,O_META,O_READ,O_WRITE}),255,r.pick<int>({F_EIO,F_EMFILE,F_EINTR,F_ENOSPC,F_NULL}),r.pick<u32>({10000,100000,1000000}),1,0,10);
	if(r.pct(f.fclock)) b.add(O_CLOCK,0,F_EIO,500000,100000,0,30);
	if(r.pct(f.falloc)){ if(r.pct(75)) b.at(O_ALLOC,0,F_NULL,r.pct(60)?(u32)r.below(14):(u32)r.below(60),r.pct(75)?1:(u32)r.range(2,50)); else b.add(O_ALLOC,0,F_NULL,pickppm(r),1,0,60); }
	if(r.pct(f.fkcapi)&&p.kcapi){
		int n=(int)r.range(1,3); while(n--){ int op=r.pick<int>({O_SEND,O_SEND,O_RECV}); int k= r.pick<int>({F_SHORT,F_SHORT,F_EIO,F_EINTR,F_NULL}); u32 span=50; b.add(op,0,k,r.pick<u32>({10000,50000,300000,1000000}),1u<<18,0,span); }
		if(r.pct(12)) b.v.push_back(Rate{O_RECV,0,F_SHORT,1000000,0,~0u,0,r.pct(60)?1u:32u,0}); // the kernel never delivers a hash
		if(r.pct(8)) b.at(O_SOCK,(int)r.below(3),F_EIO,0,1);
	}
	if(r.pct(f.fcrypt)) b.add(O_CRYPT,r.pick<int>({0,0,0,1,2,3}),F_EIO,r.pick<u32>({10000,100000,1000000}),1,0,20);
	if(r.pct(f.fcfg)) b.add(O_CURLCFG,r.pick<int>({0,0,1,2}),F_EIO,r.pick<u32>({20000,200000,1000000}),1,0,40);
}
static void place_crash(Rng&r,const Prof&f,Plan&p,size_t k)
{
	// a dry run tells where the interesting instants are
	Plan q=p; q.incs.resize(k+1); q.pair=0; RunResult d=run_plan(q);
	if(d.inc_ops.size()<=k) return; u64 n=d.inc_ops[k]; auto&lg=d.oplogs[k]; u64 at;
	if(lg.size()&&r.pct(70)){ // prefer writes and syncs over requests
		std::vector<u64> w; for(auto&x:lg) if(x.second!=O_HTTP) w.push_back(x.first);
		u64 base= w.size()&&r.pct(75)? w[r.below(w.size())] : lg[r.below(lg.size())].first; if(w.size()&&r.pct(12)) base=w[w.size()-1-r.below(std::min<size_t>(3,w.size()))];
		at=base+(r.pct(60)?0:r.below(3));
	} else at=1+r.below(n+1);
	auto&c=p.incs[k].crash; c.kind=r.pct(f.power)?2:1; c.at=at; c.mode=(int)r.below(6); c.seed=r.next()%1000000;
}
static u32 gen_pad(Rng&r){ return r.pct(35)?(u32)r.range(2,140): r.pct(50)?(u32)r.range(90,600): r.pct(70)?(u32)r.range(600,3000):(u32)r.range(3000,3900); }
static void gen_csn(Rng&r,const Prof&f,Plan&p,bool thorough)
{
	bool big; p.tool=TOOL_CSN; gen_params(r,f,p,big); p.cdc=r.pct(f.cdc);
	u32 lo=1,hi=big?(p.cp.avg*5):6000; if(thorough&&!big&&r.pct(20)) hi=24000;
	int ns=(int)r.range(1,big?6:11); if(f.manychunks&&r.pct(f.manychunks)&&!big){ ns=(int)r.range(30,70); hi=5000; lo=300; p.cp={64,256,1024}; }
	if(!p.cdc){ ns=(int)r.range(1,r.pct(40)?8:40); hi=big?262144:3000; if(f.manychunks&&r.pct(f.manychunks)) { ns=(int)r.range(80,400); hi=600; lo=100; } }
	for(int i=0;i<ns;i++){ if(p.segs.size()&&r.pct(f.repeats)) p.segs.push_back(r.pct(50)?p.segs.back():p.segs[r.below(p.segs.size())]); else p.segs.push_back(gen_seg(r,lo,hi)); if(!p.cdc&&p.segs.back().kind==SEG_DENSE) p.segs.back().kind=SEG_RAND; if(!p.cdc&&r.pct(f.big256)&&(big||r.pct(20))) p.segs.back().len=262144; }
	if(!p.cdc&&r.pct(f.big256)){ int n=(int)r.range(2,4); p.segs.resize(std::min<size_t>(p.segs.size(),8)); while(n--) p.segs.insert(p.segs.begin()+r.below(p.segs.size()+1),Seg{SEG_RAND,r.next()%100000,262144}); }
	if(r.pct(f.emptyimg)) p.segs.clear();
	if(r.pct(f.muts)){ int n=(int)r.range(1,r.pct(70)?1:3); while(n--) p.muts.push_back(gen_mut(r)); }
	// target
	p.tblk=r.pct(f.blk); p.tmissing=r.pct(f.tmissing); p.tsmall=r.pct(f.small);
	int ti=(int)r.below(5); if(ti==1) p.tinit=mutate_segs(r,p.segs,lo,hi); else if(ti==2) for(int i=0;i<3;i++) p.tinit.push_back(gen_seg(r,lo,hi)); else if(ti==3) p.tinit={Seg{SEG_ZERO,0,(u32)r.below(40000)}};
	if(r.pct(f.texact)){ p.tinit=p.segs; p.tprefix=100000; }
	else if(r.pct(f.prefix)) p.tprefix=(u32)r.range(1,r.pct(60)?12:60);
	for(auto&m:p.muts) if(m.kind==MUT_BIGLEN&&r.pct(60)) p.textra=300000+(u32)r.below(600000);
	if(r.pct(25)) p.tpartial=(u32)r.range(1,1500);
	if(!p.textra&&r.pct(p.tblk?60:20)) p.textra=(u32)r.below(6000);
	if(r.pct(f.pad)) p.tpad=gen_pad(r);
	if(r.pct(10)){ int n=(int)r.range(1,3); while(n--) p.tflips.push_back({(u32)r.next(),(u32)r.next()}); }
	// sources
	int nl= r.pct(f.nlocal)? (int)r.range(1,r.pct(70)?1:3):0;
	for(int i=0;i<nl;i++){
		LocalSrc l; l.blk=r.pct(40); int k=(int)r.below(100);
		if(k<f.exactlocal) l.segs=p.segs; else if(k<75) l.segs=mutate_segs(r,p.segs,lo,hi); else if(k<90) { int n=(int)r.range(1,4); while(n--) l.segs.push_back(gen_seg(r,lo,hi)); } else if(k<95) l.segs={Seg{SEG_RAND,r.below(1000),(u32)r.below(60)}};
		if(r.pct(20)){ int n=(int)r.range(1,3); while(n--) l.flips.push_back({(u32)r.next(),(u32)r.next()}); }
		l.alias=r.pct(f.alias); l.missing=r.pct(f.missing);
		if(r.pct(f.side)){ l.side=r.pick<int>({1,1,1,2,2,2,3,4,6,6,7,8}); if(l.side==2||l.side==8) l.sidesegs=r.pct(70)?mutate_segs(r,r.pct(50)?l.segs:p.segs,lo,hi):p.segs; if(r.pct(25)&&l.side!=6){ int n=(int)r.range(1,2); while(n--) l.sidemuts.push_back(gen_mut(r)); }
			if(r.pct(f.sidebig)){ l.side=1; l.segs=p.segs; Mut m; m.kind=MUT_BIGLEN; m.a=r.below(300); m.b=r.next(); l.sidemuts={m}; l.segs.push_back(Seg{SEG_ZERO,0,300000+(u32)r.below(700000)}); } }
		if(r.pct(f.pad)) l.pad=gen_pad(r);
		p.locals.push_back(l);
	}
	int nh= r.pct(f.nhttp)? (int)r.range(1,r.pct(55)?1:3):0; if(!nl&&!nh) nh=1;
	int full= nh&&r.pct(f.fullserver)?(int)r.below(nh):-1;
	for(int i=0;i<nh;i++){
		HttpSrc h; h.enc=r.pct(f.enc); h.keyspec=(int)r.below(3); h.key=r.next()%1000; h.slash=r.pct(30); h.https=r.pct(40); h.missseed=r.next(); if(i!=full&&r.pct(f.missrate)) h.missp=r.pick<u32>({5,30,70,100}); h.zlevel=r.pick<int>({1,3,3,9,19,-5}); if(big&&h.zlevel>9) h.zlevel=3; h.zflags=(int)r.below(8); h.wrongkey=h.enc&&i!=full&&r.pct(f.wrongkey);
		if(r.pct(f.pad)) h.pad=gen_pad(r);
		if(i&&r.pct(f.samebase)){ int j=(int)r.below(i); bool used=p.https[j].same!=0; for(auto&o:p.https) if(o.same==j+1) used=true; if(!used){ h.same=j+1; h.enc=!p.https[j].enc; if(!h.enc) h.wrongkey=false; } }
		p.https.push_back(h);
	}
	for(int i=0;i<nl;i++) p.order.push_back({0,i}); for(int i=0;i<nh;i++) p.order.push_back({1,i});
	for(size_t i=p.order.size();i>1;i--) if(!(r.pct(f.localfirst))) std::swap(p.order[i-1],p.order[r.below(i)]);
	if(r.pct(f.tstore)) p.order.insert(p.order.begin()+(r.pct(65)?0:r.below(p.order.size()+1)),StoreRef{2,0});
	if(r.pct(3)) p.order.push_back(p.order[r.below(p.order.size())].type==2?StoreRef{2,0}:StoreRef{2,0});
	if(p.order.empty()) p.order.push_back({2,0});
	if(f.near&&r.pct(f.near)){ Mut m; m.kind=r.pct(65)?MUT_NEARID:MUT_NEARREP; m.a=r.below(300); m.b=r.next(); p.muts={m}; p.hole=0;
		for(auto&l:p.locals) if(r.pct(60)){ l.segs=p.segs; l.flips.clear(); l.side=r.pct(80)?6:1; l.sidemuts=p.muts; l.sidesegs.clear(); l.missing=false; }
		if(r.pct(55)){ p.tprefix=100000; p.tmissing=p.tsmall=false; } else if(r.pct(50)) p.tprefix=(u32)m.a+1;
	}
	// environment
	p.casync=r.pct(f.casync); p.optstyle=(int)r.below(4)+(r.pct(40)?4*(int)r.below(64):0); p.kcapi=r.pct(f.kcapi)?(r.pct(3)?2+(int)r.below(3):1):0; p.tty=r.pct(f.tty)?(r.pct(70)?1:2+(int)r.below(2)):0; p.loglevel=r.pct(80)?0:(int)r.below(8); if(f.enc==100) p.loglevel=r.pct(60)?1:(int)r.below(8);
	p.frag=r.pct(f.frag)?(int)r.below(10):0; p.fragseed=r.next()%100000; p.latseed=r.next()%100000;
	p.pair=f.pair; if(r.pct(f.bad)){ p.bad=r.pick<int>({1,1,1,1,3,3,4,5,6,7,8}); p.badarg=r.next()%1000000; if(p.bad==8) p.casync=true; if(p.bad==6&&p.tmissing) p.bad=7; }
	// runs
	int ni=1+(f.maxinc>1&&r.pct(f.crash+15)?(int)r.range(1,f.maxinc-1):0);
	if(f.lasthealthy&&ni<2) ni=2;
	bool quiet=r.pct(f.noneallowed);
	int immune= full>=0&&r.pct(60)? full : -1;
	for(int k=0;k<ni;k++){
		Inc inc; bool last=k==ni-1; inc.healthy=last&&f.lasthealthy;
		if(!inc.healthy&&!quiet){
			RB b{r,inc.rates}; file_faults(r,f,b,p);
			for(int s=0;s<nh;s++) if(s!=immune) net_faults(r,f,b,s); else if(r.pct(f.fok)) b.add(O_HTTP,s,r.pct(60)?H_PAUSE:H_REDIRECT,r.pick<u32>({50000,300000}),1u<<20,0,30);
			if(nh>0&&r.pct(5)&&immune<0) net_faults(r,f,b,255);
		}
		p.incs.push_back(inc);
		if(!inc.healthy&&f.maxinc>1&&r.pct(f.crash)) place_crash(r,f,p,k);
		else if(r.pct(f.power/3)&&!p.pair){ auto&c=p.incs[k].crash; c.kind=2; c.at=1ull<<40; c.mode=(int)r.below(6); c.seed=r.next()%1000000; } // power loss some time after the end
	}
}
bool is_bigscan(const Plan&p){ for(auto&l:p.locals) if(l.hole>=1ull<<31&&!l.side) return true; return false; }
bool no_huge(){
#ifdef SIM_ASAN
	return true;
#else
	return false;
#endif
}
// an image of more than 4 GiB, most of which is one run of zeros that nobody stores
static void gen_huge(Rng&r,const Prof&f,Plan&p,int resume)
{
	p.tool=TOOL_CSN; p.cdc=false; p.cp={16384,65536,262144}; p.tblk=true;
	p.hole=(r.pct(60)?1ull<<32:r.pct(60)?1ull<<31:3ull<<30)-(r.pct(70)?0:262144ull*r.range(1,2)); int na=(int)r.range(1,4),nb=(int)r.range(2,6);
	for(int i=0;i<na+nb;i++){ if(i&&r.pct(35)) p.segs.push_back(p.segs[r.below(p.segs.size())]); else p.segs.push_back({r.pct(70)?SEG_RAND:SEG_TEXT,r.next()%100000,loglen(r,100,60000)}); }
	p.holeat=na; if(r.pct(resume)) p.tprefix=100000; else if(r.pct(25)) p.tprefix=(u32)r.range(1,na);
	if(r.pct(50)) p.textra=(u32)r.below(6000);
	if(r.pct(55)){ LocalSrc l; l.blk=r.pct(50); l.side=1; l.hole=p.hole; size_t n=p.segs.size(); for(size_t i=0;i<n;i++) if(r.pct(70)||!i) l.segs.push_back(p.segs[r.below(n)]); l.holeat=(u32)r.below(l.segs.size()+1); p.locals.push_back(l); p.order.push_back({0,0}); }
	if(r.pct(60)) p.order.insert(p.order.begin()+r.below(p.order.size()+1),StoreRef{2,0});
	HttpSrc h; h.enc=r.pct(35); h.key=r.next()%1000; h.zlevel=1; h.zflags=(int)r.below(8); p.https.push_back(h); p.order.push_back({1,0});
	p.casync=r.pct(f.casync); p.optstyle=(int)r.below(4); p.frag=r.pct(30)?(int)r.below(10):0; p.fragseed=r.next()%100000; p.latseed=r.next()%100000; p.tty=r.pct(20);
	Inc inc; RB b{r,inc.rates}; if(r.pct(35)) benign(b,false); if(r.pct(30)) b.add(O_HTTP,0,r.pct(60)?H_PAUSE:H_REDIRECT,300000,1u<<20,0,30); if(r.pct(20)) b.at(O_HTTP,0,H_REFUSED,(u32)r.below(4),(u32)r.range(1,5)); p.incs.push_back(inc);
	if(r.pct(25)) { p.incs[0].crash={1,1+r.below(30000),0,r.next()%1000}; p.incs.push_back(Inc{}); }
}
// a local source of more than 4 GiB that has to be chunked
static void gen_bigscan(Rng&r,const Prof&f,Plan&p)
{
	p.tool=TOOL_CSN; p.cdc=true; p.cp=r.pct(70)?CParams{16384,65536,262144}:CParams{8192,32768,131072}; p.tblk=r.pct(50);
	int n=(int)r.range(2,4); for(int i=0;i<n;i++) p.segs.push_back({r.pct(80)?SEG_RAND:SEG_TEXT,r.next()%100000,(u32)r.range(200000,500000)});
	LocalSrc l; l.blk=r.pct(50); l.hole=(1ull<<32)-(r.pct(50)?0:262144ull*r.below(4)); l.segs.push_back({SEG_RAND,r.next()%100000,loglen(r,100,200000)}); for(auto&s:p.segs) if(r.pct(85)) l.segs.push_back(s); l.holeat=(u32)r.below(2); p.locals.push_back(l); p.order.push_back({0,0});
	HttpSrc h; h.enc=r.pct(35); h.key=r.next()%1000; h.zlevel=1; h.zflags=(int)r.below(8); p.https.push_back(h); p.order.push_back({1,0});
	p.casync=r.pct(f.casync); p.optstyle=(int)r.below(4); p.frag=0; p.fragseed=r.next()%100000; p.latseed=r.next()%100000; p.incs.push_back(Inc{});
}
static void tool_rates(Rng&r,Plan&p,Inc&inc,bool dd,const Prof&f)
{
	RB b{r,inc.rates};
	if(r.pct(35)) benign(b,!dd&&p.tkind!=2&&p.tkind!=4);
	if(r.pct(30)){ int n=(int)r.range(1,2); while(n--) b.add(r.pick<int>({O_READ,O_WRITE,O_WRITE,O_OPEN,O_CLOSE,O_STAT,O_DOSYNC,O_META,O_IOCTL}),255,r.pick<int>({F_EIO,F_ENOSPC,F_EIO,F_EMFILE,F_DEAD}),r.pick<u32>({5000,50000,300000,1000000}),1000,0,12); }
	if(r.pct(12)) b.add(O_WRITE,dd?R_TARGET:R_OUT,F_WB,r.pick<u32>({20000,300000,1000000}),1,0,10);
	if(r.pct(8)) b.add(O_DOSYNC,255,F_EIO,1000000,1000,0,3);
	if(!dd&&r.pct(12)) b.add(O_CRYPT,r.pick<int>({0,0,1,2}),F_EIO,r.pick<u32>({10000,100000,1000000}),1,0,12);
	if(r.pct(8)) b.at(O_ALLOC,0,F_NULL,(u32)r.below(8),1);
	if(!dd&&r.pct(12)) b.add(r.pick<int>({O_META,O_META,O_DOSYNC,O_WRITE,O_OPEN,O_READ}),255,F_APPEAR,r.pick<u32>({30000,200000,1000000}),1u<<16,0,12);
	if(dd&&r.pct(10)) b.add(O_CLOCK,0,F_EIO,500000,100000,0,30);
}
static void tool_incs(Rng&r,Plan&p,const Prof&f,bool dd)
{
	int ni=r.pct(60)?(int)r.range(2,3):1; bool quiet=r.pct(12);
	for(int k=0;k<ni;k++){
		Inc inc; inc.healthy=k==ni-1&&ni>1; if(!inc.healthy&&!quiet) tool_rates(r,p,inc,dd,f);
		p.incs.push_back(inc);
		if(!inc.healthy&&r.pct(50)) place_crash(r,f,p,k); else if(r.pct(20)){ auto&c=p.incs[k].crash; c.kind=2; c.at=1ull<<40; c.mode=(int)r.below(6); c.seed=r.next()%1000000; }
	}
}
static void gen_crypt(Rng&r,const Prof&f,Plan&p,bool thorough,bool many)
{
	p.tool=TOOL_CRYPT; p.tkind=r.pick<int>({0,0,1,1,2,2,2,3}); if(r.pct(6)) p.tkind=4; p.tkey=r.next()%1000; p.tkeyspec=r.pct(90)?(int)r.below(3):3+(int)r.below(8); p.targs=(r.pct(10)?1:0)|(r.pct(20)?2:0)|(r.pct(4)?4:0); p.argseed=r.next(); p.user=r.pct(50); p.samepid=r.pct(50);
	if(many) p.tkind=2; bool fat=many&&r.pct(60);
	int nf= p.tkind==2? fat?(int)r.range(40,60): (int)r.range(1,many?60:6):1; 
	for(int i=0;i<nf;i++){
		ToolFile t; t.seed=r.next()%1000000*100+i; t.len= r.pct(5)?0: loglen(r,1,many?2000:r.pct(10)?200000:30000); if(fat) t.len=(u32)r.range(5000,20000); if(r.pct(f.pad)) t.pad=gen_pad(r); if(r.pct(15)) t.len=r.pick<u32>({1,63,64,65,4095,4096,4097,16384,65536,65537,8192,1024,32768}); t.encrypted=r.pct(35); t.dir=r.pct(65)?0:1+(int)r.below(2);
		t.pre= r.pct(70)?0: r.pct(60)?1: r.pct(50)?2: r.pct(60)?3:4; if(p.tkind==0&&t.pre==4&&r.pct(50)) t.pre=0; if(many&&t.pre>2&&r.pct(90)) t.pre=0;
		p.files.push_back(t);
	}
	if(p.targs&4&&r.pct(50)) p.targs&=~4;
	tool_incs(r,p,f,false);
}
// sizes of devices are round
static void dd_align(Rng&r,Plan&p){ if(!p.hole||r.pct(50)) return; u64 n=0; for(auto&s:p.segs) n+=s.len; u64 a=r.pct(30)?1ull<<32:1<<20, t=(n+p.hole+a/2)/a*a; if(a>1<<20&&p.hole<1ull<<31) t=(n+p.hole+(1<<20)-1)>>20<<20; if(t>n+(1<<20)) p.hole=t-n; }
static void gen_dd(Rng&r,const Prof&f,Plan&p,bool thorough)
{
	p.tool=TOOL_PATCHDD; int ns=(int)r.range(0,4); u32 hi=r.pct(20)?3000000/(ns+1):r.pct(40)?200000:6000; if(hi<10) hi=10;
	for(int i=0;i<ns;i++){ Seg s=gen_seg(r,1,hi); if(s.kind==SEG_DENSE) s.kind=SEG_RAND; p.segs.push_back(s); }
	if(r.pct(30)&&p.segs.size()) p.segs.back().len=r.pick<u32>({1,511,512,4096,65536,1<<20,(1<<20)-1,(1<<20)+1,131072});
	p.srcblk=r.pct(40); p.tblk=r.pct(50); p.tmissing=r.pct(4); p.tsmall=r.pct(8);
	int k=(int)r.below(4); if(k==0){ p.tprefix=0xffffffff; } else if(k==1){ p.tprefix=(u32)r.below(100000); for(int i=0;i<2;i++) p.tinit.push_back(gen_seg(r,1,hi)); } else if(k==2) { p.tinit={Seg{SEG_ZERO,0,hi}}; } else p.tprefix=0xffffffff;
	for(auto&s:p.tinit) if(s.kind==SEG_DENSE) s.kind=SEG_RAND;
	if(k==3||r.pct(20)){ int n=(int)r.range(1,4); while(n--) p.tflips.push_back({(u32)r.next(),(u32)r.next()}); }
	if(r.pct(50)) p.textra=(u32)r.below(5000);
	if(r.pct(5)) { p.tkind=4; p.argseed=r.next(); }
	p.tty=r.pct(15);
	if(f.hole&&r.below(10000)<(u64)f.hole&&!no_huge()&&p.segs.size()&&p.tkind!=4){ p.hole=(r.pct(50)?1ull<<31:1ull<<32)+4096*r.below(3); p.holeat=(u32)r.below(p.segs.size()+1); for(auto&s:p.segs) s.len=std::min<u32>(s.len,400000); p.incs.push_back(Inc{}); if(r.pct(50)){ RB b{r,p.incs[0].rates}; benign(b,false); } dd_align(r,p); return; }
	if(r.pct(f.ddhole)&&!no_huge()&&p.segs.size()&&p.tkind!=4&&!p.tsmall){ p.hole=r.pick<u64>({1ull<<24,3ull<<23,3ull<<24,1ull<<26,1ull<<27})+4096*r.below(3); p.holeat=(u32)r.below(p.segs.size()+1); for(auto&s:p.segs) s.len=std::min<u32>(s.len,400000); }
	dd_align(r,p); tool_incs(r,p,f,true);
}
static Prof prof_for(const Str&prop,Rng&r)
{
	Prof f; int n=atoi(prop.c_str()+1);
	auto nonet=[&]{ f.ftrans=f.fhard=f.fstatus=f.fnotfound=f.fbody=f.fok=f.fendless=f.fdrip=0; };
	auto nofile=[&]{ f.fio=f.fseed=f.frot=f.ftflip=f.fwb=f.ffsync=f.findex=f.fside=f.fkey=f.fdead=f.fclose=0; };
	switch(n){
	case 1: f.near=8; f.big256=6; f.hole=12; f.muts=20; f.frot=30; f.ftflip=15; f.fbody=50; f.nlocal=60; f.tstore=40; f.side=40; f.fkcapi=10; f.falloc=5; f.fcrypt=3; f.exactlocal=30; f.crash=15; break;
	case 2: f.near=5; f.hole=12; f.muts=15; f.frot=30; f.ftflip=12; f.fbody=45; f.nlocal=60; f.tstore=35; f.side=40; f.crash=35; f.fio=15; f.fshort=40; f.ftrans=30; break;
	case 3: f.muts=10; f.tmissing=12; f.falloc=8; f.fio=15; f.side=40; f.nlocal=70; f.alias=6; f.crash=25; f.fclose=10; break;
	case 4: f.ffsync=25; f.fwb=25; f.prefix=60; f.texact=20; f.crash=35; f.power=65; f.maxinc=4; f.fbody=10; f.fshort=20; break;
	case 5: f.crash=75; f.power=60; f.maxinc=4; f.lasthealthy=true; f.fullserver=90; f.fwb=12; f.ffsync=12; f.falloc=8; f.fio=15; f.tstore=35; f.fkcapi=5; f.tmissing=0; f.small=0; f.missing=0; f.wrongkey=2; f.frag=35; break;
	case 6: f.hole=16; f.crash=75; f.power=25; f.maxinc=4; f.prefix=70; f.texact=10; f.fullserver=85; f.fbody=15; f.blk=50; f.manychunks=4; break;
	case 7: f.pair=2; f.fshort=100; f.noneallowed=0; nofile(); f.crash=0; f.maxinc=2; f.falloc=0; f.nlocal=65; f.enc=45; f.side=35; f.kcapi=20; f.frot=0; f.longburst=2; f.fendless=0; if(r.pct(30)) nonet(); break;
	case 8: f.pad=10; f.fok=60; f.frag=95; f.nlocal=20; f.nhttp=100; f.enc=55; nofile(); f.fshort=10; f.fbody=10; f.fhard=f.fstatus=3; f.ftrans=8; f.crash=5; f.big=10; f.fullserver=90; f.missrate=20; f.wrongkey=1; f.prefix=15; break;
	case 9: f.big256=5; f.late=12; f.ftrans=95; f.burst=45; f.longburst=3; f.nhttp=100; f.nlocal=20; f.fhard=3; f.fstatus=8; f.fbody=8; f.enc=45; f.crash=5; f.noneallowed=2; nofile(); f.fshort=10; f.prefix=20; f.fullserver=90; break;
	case 10: f.nlocal=70; f.nhttp=95; f.fullserver=85; f.fseed=40; f.frot=35; f.fhard=25; f.fstatus=30; f.ftrans=25; f.fbody=40; f.longburst=12; f.ftflip=12; f.tstore=35; f.side=35; f.fside=20; f.fio=0; f.findex=0; f.fkcapi=8; f.crash=5; f.localfirst=35; f.noneallowed=3; break;
	case 11: f.nhttp=100; f.nlocal=20; f.ftrans=60; f.longburst=55; f.fstatus=75; f.burst=70; f.fnotfound=30; f.fbody=20; f.noneallowed=2; nofile(); f.fshort=3; f.manychunks=35; f.crash=4; f.prefix=10; f.fullserver=70; f.tstore=10; f.missrate=30; f.fhard=5; f.frag=20; f.fneutral=25; break;
	case 12: f.hole=4; f.forever=18; f.kcapi=35; f.fendless=15; f.fdrip=20; f.ftrans=45; f.longburst=15; f.fhard=20; f.fbody=35; f.fio=15; f.fseed=20; f.muts=12; f.falloc=5; f.side=35; f.fkcapi=40; f.fdead=20; break;
	case 13: f.hole=14; f.nlocal=80; f.nhttp=95; f.tstore=50; f.repeats=50; f.missrate=55; f.fnotfound=25; f.fbody=15; f.longburst=2; f.exactlocal=10; f.localfirst=45; f.frot=6; f.fseed=6; f.crash=10; f.fshort=15; f.fhard=5; f.fstatus=10; break;
	case 14: f.near=5; f.hole=14; f.sidebig=5; f.nlocal=100; f.side=95; f.fside=25; f.frot=20; f.fullserver=95; f.fseed=8; f.nhttp=95; f.fio=2; f.findex=2; f.crash=8; f.fshort=15; f.localfirst=75; f.fbody=10; f.exactlocal=15; f.ftrans=8; break;
	case 15: f.bigscan=15; f.nlocal=100; f.side=8; f.localfirst=100; f.tstore=8; f.fshort=60; f.frot=2; f.fseed=2; f.cdc=92; f.exactlocal=25; f.big=10; f.fio=1; f.findex=1; f.crash=3; f.fbody=5; f.ftrans=5; f.prefix=20; f.noneallowed=15; break;
	case 16: f.near=14; f.muts=92; f.nlocal=50; f.tstore=25; f.fbody=10; f.crash=6; f.fshort=15; f.noneallowed=60; f.prefix=35; f.findex=3; break;
	case 17: f.near=3; f.bad=4; f.frescan=10; f.pad=12; f.sidebig=8; f.muts=40; f.falloc=35; f.fcrypt=12; f.fcfg=12; f.fclose=35; f.fio=20; f.fseed=20; f.fside=20; f.fkey=10; f.findex=12; f.fkcapi=25; f.kcapi=25; f.side=45; f.nlocal=65; f.fbody=50; f.tstore=35; f.missing=6; f.tmissing=4; f.small=8; break;
	case 18: f.pair=3; f.kcapi=100; f.fkcapi=95; f.noneallowed=2; f.crash=0; f.maxinc=2; nofile(); f.fshort=10; f.fbody=45; f.nlocal=60; f.side=45; f.prefix=60; f.tstore=30; f.longburst=1; f.frot=0; f.fendless=0; break;
	case 20: f.hole=12; f.ddhole=2; break;
	case 21: f.pair=1; f.crash=0; f.maxinc=2; f.muts=6; f.fshort=30; f.nlocal=65; f.nhttp=85; f.tstore=35; f.side=30; f.localfirst=25; f.small=4; f.fendless=1; break;
	case 23: f.bad=75; f.fopen=r.pct(60)?90:0; f.kcapi=20; f.missing=8; f.tmissing=5; f.muts=6; f.enc=60; f.nlocal=65; f.nhttp=85; f.tstore=40; f.crash=0; f.maxinc=2; f.fullserver=90; nofile(); nonet(); f.frot=0; f.fclock=0; f.hole=0; break;
	case 24: f.bad=12; f.enc=100; f.nhttp=100; f.wrongkey=12; f.falloc=20; f.fcrypt=12; f.fcfg=20; f.fkey=15; f.fclose=15; f.nlocal=30; f.fhard=25; f.fbody=45; f.ftrans=35; f.pad=8; f.crash=3; f.tstore=25; f.missing=6; f.side=15; break;
	case 25: f.pair=4; f.crash=0; f.maxinc=2; f.fio=8; f.ffsync=4; f.nlocal=65; f.enc=45; f.side=40; f.muts=10; f.fbody=50; f.frag=70; f.kcapi=15; f.tstore=40; f.prefix=60; f.fclock=0; f.fendless=2; f.fcrypt=0; f.fcfg=0; break;
	case 26: f.hole=3; f.ddhole=12; f.tty=88; f.prefix=50; f.big=2; f.texact=10; f.fbody=15; f.crash=10; f.fshort=40; f.repeats=45; f.manychunks=8; f.fseed=6; f.frot=8; break;
	case 22: f.sidebig=4; f.manychunks=60; f.nhttp=100; f.fullserver=85; f.nlocal=35; f.ftrans=25; f.fbody=35; f.fendless=12; f.crash=0; f.maxinc=1; f.prefix=8; f.frag=50; f.noneallowed=15; f.tstore=25; f.longburst=8; f.fhard=2; f.fkcapi=5; break;
	}
	return f;
}
static Plan gen_all(const Str&prop,u64 seed,bool thorough)
{
	Rng r(seed); Plan p; p.seed=seed; int n=atoi(prop.c_str()+1); Prof f=prof_for(prop,r);
	if(thorough&&r.pct(30)) f.big=std::min(100,f.big*3);
	if(n==19){ f.power=50; gen_crypt(r,f,p,thorough,r.pct(6)); }
	else if(n==20){ f.power=50; gen_dd(r,f,p,thorough); }
	else if(n==17&&r.pct(18)){ if(r.pct(25)) { p.tkind=4; } int tk=p.tkind; gen_crypt(r,f,p,thorough,r.pct(6)); if(tk==4) p.tkind=4; }
	else if(n==17&&r.pct(15)) gen_dd(r,f,p,thorough);
	else if(n==22&&r.pct(12)) gen_crypt(r,f,p,thorough,true);
	else if(n==22&&r.pct(5)) gen_dd(r,f,p,thorough);
	else if(n==23&&r.pct(18)){ gen_crypt(r,f,p,thorough,false); p.tkind=(int)r.below(3); if(p.tkind<2) p.files.resize(1); p.bad=(int)r.range(1,5); p.badarg=r.next()%1000000; for(auto&i:p.incs){ i.rates.clear(); i.crash=Crash(); } }
	else if(n==23&&r.pct(12)){ gen_dd(r,f,p,thorough); p.tkind=0; p.bad=r.pct(80)?(int)r.range(1,5):0; p.badarg=r.next()%1000000; for(auto&i:p.incs){ i.rates.clear(); i.crash=Crash(); } }
	else if(n==24&&r.pct(20)) gen_crypt(r,f,p,thorough,false);
	else if(n==26&&r.pct(20)){ gen_dd(r,f,p,thorough); p.tty=r.pct(80)?1+(int)r.below(3):0; }
	else if(n==12&&r.pct(5)) gen_crypt(r,f,p,thorough,false);
	else if(n==12&&r.pct(5)) gen_dd(r,f,p,thorough);
	else if(f.bigscan&&r.below(100000)<(u64)f.bigscan&&!no_huge()) gen_bigscan(r,f,p);
	else if(f.hole&&r.below(10000)<(u64)f.hole&&!no_huge()) gen_huge(r,f,p,n==6?45:6);
	else gen_csn(r,f,p,thorough);
	{ Rng c(seed^0xc105ed); if(p.pair!=4&&c.pct(n==2||n==3||n==19||n==20?5:2)) p.closed=1+(int)c.below(7); } // started without some of the standard descriptors
	if(p.hole) for(auto&i:p.incs) for(auto&x:i.rates) if((!x.max||x.max>100000)&&x.kind!=F_ROT) x.max=100000; // many of them in gigabytes would only take time
	return p;
}
// Invariants that every run must satisfy are also checked on a share of the runs made for other properties.
Plan gen_plan(const Str&prop,u64 seed,bool thorough)
{
	static const int mixed[]={1,2,3,4,6,12,13,16,17,22}; static const int from[]={1,2,3,4,5,6,8,9,10,11,12,13,14,15,16,17,22};
	int n=atoi(prop.c_str()+1); bool mix=false; for(int m:mixed) if(m==n) mix=true;
	Rng r(seed^0x313131);
	if(mix&&r.pct(25)){ char b[8]; snprintf(b,sizeof b,"C%02d",ARR(from)); return gen_all(b,seed,thorough); }
	return gen_all(prop,seed,thorough);
}

u64 kinds_for(const Str&prop)
{
	switch(atoi(prop.c_str()+1)){
	case 1: return kb(K_WRONG_IMAGE);
	case 2: return kb(K_BAD_WRITE);
	case 3: return kb(K_CONTAIN);
	case 4: return kb(K_NOT_DURABLE);
	case 5: return kb(K_RERUN);
	case 6: return kb(K_PREFIX_FETCH)|kb(K_PREFIX_WRITE)|kb(K_PREFIX_SHRINK);
	case 7: return kb(K_EQUIV)|kb(K_MUST_SUCCEED);
	case 8: return kb(K_MUST_SUCCEED)|kb(K_URL)|kb(K_REJECTED_GOOD)|kb(K_WRONG_IMAGE);
	case 9: return kb(K_RETRY)|kb(K_BACKOFF)|kb(K_MUST_SUCCEED);
	case 10: return kb(K_MUST_SUCCEED)|kb(K_ORDER);
	case 11: return kb(K_DISABLE)|kb(K_MUST_SUCCEED)|kb(K_ORDER);
	case 12: return kb(K_HANG);
	case 13: return kb(K_ORDER)|kb(K_ECONOMY);
	case 14: return kb(K_MUST_SUCCEED)|kb(K_WRONG_IMAGE)|kb(K_ORDER);
	case 15: return kb(K_ORDER)|kb(K_ECONOMY);
	case 16: return kb(K_INDEX_ACCEPTED)|kb(K_TARGET_TOUCHED)|kb(K_WRONG_IMAGE);
	case 17: return kb(K_CRASH)|kb(K_MEM);
	case 18: return kb(K_EQUIV)|kb(K_MUST_SUCCEED)|kb(K_WRONG_IMAGE);
	case 19: return kb(K_HANG)|kb(K_TOOL_PARTIAL)|kb(K_TOOL_WRONG)|kb(K_TOOL_OVERWRITE);
	case 20: return kb(K_DD_WRONG)|kb(K_DD_WRITE)|kb(K_HANG);
	case 21: return kb(K_EQUIV);
	case 23: return kb(K_SETUP);
	case 24: return kb(K_LEAK);
	case 25: return kb(K_INPUTS);
	case 26: return kb(K_PROGRESS);
	case 22: return kb(K_MEMORY_BOUND)|kb(K_FD_BOUND);
	}
	return 0;
}

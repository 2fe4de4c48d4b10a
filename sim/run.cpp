// Executes a plan (a history of process runs over one simulated world) and judges it.
#include "sim.hpp"
#include <algorithm>
#include <stdio.h>
#include <stdarg.h>

const char*KN[]={"wrong-image","bad-write","outside-effect","not-durable","must-succeed","prefix-fetched","prefix-rewritten","prefix-shrunk","needless-download","store-order","retry","backoff","store-disable","hang","crash","heap","index-accepted","target-touched","memory-bound","fd-bound","url","not-equivalent","partial-output","wrong-output","overwrite","wrong-copy","dd-write","outside","rejected-good-chunk","rerun-failed","key-leaked","setup-error-ignored","inputs-do-not-decide","progress"};
static const u32 MAXCHUNK=256*1024;

static Str sf(const char*f,...){ char b[500]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static void key_bytes(u64 k,u8 out[32]){ Rng r(k^0x6b6579); for(int i=0;i<32;i++) out[i]=(u8)r.next(); }

void apply_muts(Bytes&b,const std::vector<Mut>&muts)
{
	auto put=[&](size_t o,u64 v){ for(int i=0;i<8;i++) if(o+i<b.size()) b[o+i]=(u8)(v>>(8*i)); };
	auto get=[&](size_t o){ u64 v=0; for(int i=7;i>=0;i--) v=v<<8|(o+i<b.size()?b[o+i]:0); return v; };
	auto nearly=[&](u8*id,u64 v){ u64 w=v>>3; int z=-1; for(int i=30;i>=0;i--) if(!id[i]) z=i; // z: the first zero byte
		switch(v%8){ case 0: case 1: id[31]^=(u8)(1+w%255); break; case 2: id[31-w%4]^=(u8)(1+(w>>8)%255); break; case 3: if(z>=0){ id[z+1+w%(31-z)]^=(u8)(1+(w>>8)%255); break; } id[w%32]^=(u8)(1+(w>>8)%255); break;
		case 4: id[w%32]^=(u8)(1<<((w>>8)%8)); break; case 5: for(int i=16;i<32;i++) id[i]=(u8)(id[i]*31+7+w); id[31]^=id[31]?0x11:1; break; case 6: for(int i=8;i<32;i++) id[i]=(u8)~id[i]; break; case 7: id[0]^=(u8)(1+w%255); break; } };
	for(auto&m:muts){
		size_t n=b.size(); size_t cnt=n>=104?(n-104)/40:0; size_t k=cnt?m.a%cnt:0, eo=64+k*40;
		switch(m.kind){
		case MUT_TRUNC: b.resize(n?m.a%n:0); break;
		case MUT_APPEND: { Rng r(m.b); size_t c=1+m.a%90; if(m.b%4==0) c=40; for(size_t i=0;i<c;i++) b.push_back(m.b%3?(u8)r.next():0); break; }
		case MUT_BYTE: if(n) b[m.a%n]^=(u8)(m.b%255+1); break;
		case MUT_MAGIC: if(n>16) b[8+m.a%8]^=(u8)(m.b%255+1); break;
		case MUT_FOOTER: if(n>=40) b[n-40+m.a%40]^=(u8)(m.b%255+1); break;
		case MUT_FLAGS: put(16,get(16)|(1ull<<(m.a%64))); break;
		case MUT_PARAMS: { static const u64 W3[][3]={{0,0,0},{1,2,3},{0,1,2},{64,64,64},{1024,256,64},{64,1024,256},{0x100000000ull,0x200000000ull,0x300000000ull},{1,9324500,0xffffffff},{1,9324600,0xffffffff},{1,4000000000ull,4294967295ull},{64,256,0x100000100ull},{0,1,4294967295ull},{1,2,4294967295ull},{48,49,50},{0xffffffffffffff00ull,0xffffffffffffff01ull,0xffffffffffffff02ull},{10,9324599,9400000},{64,256,257}};
			auto&w=W3[m.a%(sizeof W3/sizeof*W3)]; put(24,w[0]); put(32,w[1]); put(40,w[2]); break; }
		case MUT_LEN_HI: if(cnt) for(size_t i=k;i<cnt;i++) put(64+i*40,get(64+i*40)+(1ull<<32)*(1+m.b%3)); break;
		case MUT_ZEROLEN: if(cnt) put(eo,k?get(eo-40):0); break;
		case MUT_BACK: if(cnt) put(eo,k?get(eo-40)-1-m.b%(get(eo-40)?get(eo-40):1):~0ull); break;
		case MUT_HUGE: if(cnt) put(eo,1ull<<(33+m.b%30)); break;
		case MUT_SETOFF: if(cnt) put(eo,get(eo)+(i64)(m.b%2001)-1000); break;
		case MUT_DUPID: if(cnt>1){ size_t s=64+((m.a/7)%cnt)*40; for(int i=0;i<32;i++) b[eo+8+i]=b[s+8+i]; } break;
		case MUT_HDRLEN: put(0,m.a%5==0?0x2f:m.a%5==1?0x31:m.a%5==2?0:m.a%5==3?~0ull:0x1000); break;
		case MUT_TABMAGIC: if(n>64) b[48+m.a%16]^=(u8)(m.b%255+1); break;
		case MUT_WORD: if(n>=8) put((m.a%(n/8))*8,m.b%5==0?0:m.b%5==1?~0ull:m.b%5==2?1:m.b); break;
		case MUT_DUPZERO: if(cnt&&n>=104){ // repeat the entry k with zero length, trailer adjusted
			Bytes e(b.begin()+eo,b.begin()+eo+40); b.insert(b.begin()+eo+40,e.begin(),e.end()); put(b.size()-16,16+(cnt+2)*40); break; }
			break;
		case MUT_BIGREP: if(cnt&&n>=104){ // the same id again with a different length
			Bytes e(b.begin()+eo,b.begin()+eo+40); b.insert(b.begin()+eo+40,e.begin(),e.end()); u64 d=1+m.b%5000; for(size_t i=k+1;i<=cnt;i++) put(64+i*40,get(64+i*40)+d); put(b.size()-16,16+(cnt+2)*40); } break;
		case MUT_BIGLEN: if(cnt){ u64 d=m.b%3==0?262144-std::min<u64>(262144,get(eo)-(k?get(eo-40):0))+1+m.a%9: 300000+m.b%500000; for(size_t i=k;i<cnt;i++) put(64+i*40,get(64+i*40)+d); } break; // an entry longer than any chunk
		case MUT_NEARID: if(cnt) nearly(&b[eo+8],m.b); break; // an id that differs from the chunk's in very little
		case MUT_NEARREP: if(cnt&&n>=104){ // the same chunk twice, the second time by such an id
			Bytes e(b.begin()+eo,b.begin()+eo+40); u64 d=get(eo)-(k?get(eo-40):0); b.insert(b.begin()+eo+40,e.begin(),e.end()); nearly(&b[eo+48],m.b); for(size_t i=k+1;i<=cnt;i++) put(64+i*40,get(64+i*40)+d); put(b.size()-16,16+(cnt+2)*40); } break;
		}
	}
}

struct Ent { u64 off,len; Id id; bool good; u64 poff; bool hole; }; // poff: where it is stored, hole: part of the unstored run of zeros
struct SideEnt { u64 off; u64 len; Id id; bool right; };
struct LocalEnv { Bytes content; std::set<Id> scan; size_t nscan=0; bool sideGiven=false,sideUsable=false; size_t nside=0; std::map<Id,std::pair<int,int>> side; bool allRight=true; bool missing=false,alias=false; bool rotted=false; InodeP ino; u64 hole=0; };
struct Env {
	Bytes index; IdxParsed ip; std::vector<Ent> ents; u64 end=0, pend=0; bool allgood=true; bool biglen=false;
	std::vector<LocalEnv> loc; std::vector<Str> argvals; std::set<Id> ids; InodeP target; Str tpath; Bytes t0;
	bool keysok=true; Str badstore; // a store argument that cannot be used
	std::vector<Bytes> others; std::vector<InodeP> otherino; // files that must never change
};

static bool missing_at(const HttpSrc&h,const Id&id){ u64 v; memcpy(&v,id.data(),8); return h.missp&&h2(h.missseed,v)%100<h.missp; }
static const Str SIM="/sim/";
static Str padding(u32 n){ Str s; while(n){ u32 k=std::min<u32>(n,101); if(k<2) break; s+=Str(k-1,'d')+"/"; n-=k; } return s; }

static void add_content(World&w,const u8*p,size_t n,Id*out){ Id id=ref_sha(p,n); if(!w.content.count(id)){ w.content[id]=Bytes(p,p+n); w.idlist.push_back(id); } *out=id; }

static void setup_csn(World&w,const Plan&p,Env&e)
{
	CParams cp=p.cp; const u64 HOLECHUNK=262144; u64 hole=p.cdc?0:p.hole/HOLECHUNK*HOLECHUNK, holeat=0;
	Bytes img=seg_bytes(p.segs,cp); std::vector<IdxEntry> ie;
	if(p.cdc){ for(auto&c:ref_chunk(img.data(),img.size(),cp)){ Id id; add_content(w,&img[c.off],c.len,&id); ie.push_back({c.off+c.len,id}); } }
	else if(hole){ u64 o=0,l=0; size_t n=0; Id zid; Bytes z(HOLECHUNK); add_content(w,z.data(),z.size(),&zid); w.hangsecs=25;
		auto fill=[&]{ holeat=o; for(u64 q=0;q<hole;q+=HOLECHUNK){ l+=HOLECHUNK; ie.push_back({l,zid}); } };
		for(auto&s:p.segs){ if(n++==p.holeat) fill(); if(!s.len) continue; Id id; add_content(w,&img[o],s.len,&id); o+=s.len; l+=s.len; ie.push_back({l,id}); } if(n<=p.holeat) fill(); }
	else { u64 o=0; for(auto&s:p.segs){ if(!s.len) continue; Id id; add_content(w,&img[o],s.len,&id); o+=s.len; ie.push_back({o,id}); } }
	std::vector<CChunk> origchunks; { u64 l=0; for(auto&x:ie){ u64 n=x.end-l; if(hole&&l>=holeat&&l<holeat+hole) n=0; origchunks.push_back({l<=holeat||!hole?l:l>=holeat+hole?l-hole:holeat,(u32)n}); l=x.end; } }
	e.index=ref_make_index(cp,ie); if(!hole) apply_muts(e.index,p.muts);
	e.ip=ref_parse_index(e.index);
	// the image described by the (possibly altered) index
	w.image.clear(); w.imask.clear(); w.image_valid=true;
	if(e.ip.structural_ok){
		u64 last=0; bool bad=false;
		for(auto&x:e.ip.e){
			if(x.end<=last||x.end-last>0xffffffffull) bad=true;
			u64 len=x.end-last; auto it=w.content.find(x.id); bool good=!bad&&it!=w.content.end()&&it->second.size()==len;
			bool inh=hole&&last>=holeat&&last<holeat+hole; u64 po=!hole||last<holeat?last:inh?holeat:last-hole, pe=inh?po:po+len;
			if(!bad&&pe<=(64u<<20)&&!inh){ w.image.resize(pe); w.imask.resize(pe,0); if(good){ memcpy(&w.image[po],it->second.data(),len); std::fill(w.imask.begin()+po,w.imask.begin()+pe,1); } }
			e.ents.push_back({last,len,x.id,good,po,inh}); e.pend=pe; e.ids.insert(x.id); if(!good) e.allgood=false; if(len>MAXCHUNK) e.biglen=true;
			last=x.end;
		}
		e.end=last;
	}
	if(!e.ip.structural_ok) e.ents.clear();
	{ double d=-1.42888852e-7*(double)e.ip.cp.avg+1.33237515; if((double)e.ip.cp.avg/d>4294967295.0) e.biglen=true; } // a chunker may refuse these or never find a boundary
	for(auto&id:e.ids) if(!w.content.count(id)){ for(auto&o:w.idlist){ int same=0; for(int i=0;i<32;i++) same+=o[i]==id[i]; if(same>=8){ w.near[id]=o; break; } } }
	auto keep=[&](InodeP i){ e.otherino.push_back(i); e.others.push_back(i->cache); };
	keep(w.mk(SIM+"index.caibx",R_INDEX,false,e.index));
	// target
	Bytes t; u64 isz=img.size(); bool tblk=p.tblk||hole, tsmall=p.tsmall&&!hole; Str tpath=SIM+padding(p.tpad)+"target";
	{
		Bytes ti=seg_bytes(p.tinit,cp); t=ti; u64 want=isz+p.textra; if(tsmall) want=isz? isz-1-(p.textra%isz) : 0;
		if(tblk||p.textra||tsmall) { if(t.size()<want){ Rng r(p.seed^99); size_t o=t.size(); t.resize(want); for(size_t i=o;i<want;i++) t[i]=(u8)r.next(); } else t.resize(want); }
		u64 o=0; size_t k=0; for(auto&c:origchunks){ if(k>=p.tprefix) break; if(t.size()<c.off+c.len) { if(tblk||tsmall) break; t.resize(c.off+c.len); } memcpy(&t[c.off],&img[c.off],c.len); o=c.off+c.len; k++; }
		if(k<origchunks.size()&&p.tpartial){ u64 n=std::min<u64>(p.tpartial,origchunks[k].len); if(t.size()>=o+n) memcpy(&t[o],&img[o],n); }
		for(auto&f:p.tflips) if(t.size()) t[f.off%t.size()]^=(u8)(f.x%255+1);
	}
	e.t0=t;
	if(!p.tmissing){ e.target=w.mk(tpath,R_TARGET,tblk,t); e.target->hole=hole; e.target->holeat=holeat; if(hole&&t.size()<holeat) e.target->hole=0; } e.tpath=tpath;
	// locals
	for(size_t i=0;i<p.locals.size();i++){
		auto&l=p.locals[i]; LocalEnv L; L.missing=l.missing; L.alias=l.alias;
		Str path=SIM+padding(l.pad)+"seed"+std::to_string(i); u64 lhole=(l.side==1||!l.side)&&!l.alias?l.hole/HOLECHUNK*HOLECHUNK:0, lhat=0;
		if(l.alias){ path=(i%2?"/sim/./":"/sim//")+tpath.substr(5); L.content=t; }
		else { L.content=seg_bytes(l.segs,cp); for(auto&f:l.flips) if(L.content.size()) L.content[f.off%L.content.size()]^=(u8)(f.x%255+1); if(lhole){ for(size_t q=0;q<l.segs.size()&&q<l.holeat;q++) lhat+=l.segs[q].len; lhat=std::min<u64>(lhat,L.content.size()); w.hangsecs=l.side?25:90; L.hole=lhole; } if(!l.missing){ L.ino=w.mk(path,R_SEED0+(int)i,l.blk,L.content); L.ino->hole=lhole; L.ino->holeat=lhat; L.ino->scanhole=!l.side; keep(L.ino); } }
		if(!lhole){ const CParams&scp=e.ip.structural_ok? e.ip.cp : cp; auto cs=ref_chunk(L.content.data(),L.content.size(),scp); L.nscan=cs.size(); for(auto&c:cs) L.scan.insert(ref_sha(&L.content[c.off],c.len)); }
		else if(!l.side){ // chunks inside the zeros are all alike: leave a number of them out
			const CParams&scp=e.ip.structural_ok? e.ip.cp : cp; u64 step=HOLECHUNK,rem=lhole/step>8?(lhole/step-8)*step:0; Bytes x(L.content.begin(),L.content.begin()+lhat); x.resize(lhat+lhole-rem); x.insert(x.end(),L.content.begin()+lhat,L.content.end());
			auto cs=ref_chunk(x.data(),x.size(),scp); L.nscan=cs.size()+rem/std::max<u32>(1,scp.min); for(auto&c:cs) L.scan.insert(ref_sha(&x[c.off],c.len)); }
		Str arg=path;
		if(l.side){
			L.sideGiven=true; Str sp=SIM+padding(l.pad)+"side"+std::to_string(i); Bytes sb; bool exists=true;
			CParams scp=cp;
			if(l.side==4){ scp.max+=1; }
			if(l.side==8){ switch(l.sidesegs.size()%3){ case 0: scp.max+=1; break; case 1: if(scp.min) scp.min-=1; else scp.min+=1; break; default: if(scp.max-1>scp.avg&&scp.max>49) scp.max-=1; else scp.max+=1; } if(scp.min>=scp.avg) scp.min=scp.avg-1; }
			if(l.side==6){ sp=SIM+"index.caibx"; sb=e.index; }
			else if(l.side==3) exists=false;
			else {
				if(lhole){
					std::vector<IdxEntry> se; u64 o=0; auto part=[&](const Bytes&x){ for(auto&c:ref_chunk(x.data(),x.size(),scp)) se.push_back({o+c.off+c.len,ref_sha(&x[c.off],c.len)}); o+=x.size(); };
					part(Bytes(L.content.begin(),L.content.begin()+lhat)); Rng rr(i*31+7);
					for(u64 left=lhole;left;){ u64 k=std::min<u64>(left,0xffff0000ull); Id id; for(auto&x:id) x=(u8)rr.next(); o+=k; left-=k; se.push_back({o,id}); }
					part(Bytes(L.content.begin()+lhat,L.content.end())); sb=ref_make_index(scp,se);
				} else {
				Bytes sc= l.side==2||l.side==8? seg_bytes(l.sidesegs,cp) : l.side==7? ([&]{ Bytes x=L.content; x.insert(x.begin(),3,(u8)1); return x; })() : L.content;
				std::vector<IdxEntry> se; for(auto&c:ref_chunk(sc.data(),sc.size(),scp)){ Id id=ref_sha(&sc[c.off],c.len); se.push_back({c.off+c.len,id}); }
				sb=ref_make_index(scp,se); apply_muts(sb,l.sidemuts); }
			}
			if(exists&&l.side!=6) keep(w.mk(sp,R_SIDE0+(int)i,false,sb));
			if(exists){
				IdxParsed q=ref_parse_index(sb); L.nside=q.e.size();
				if(q.structural_ok&&q.entries_ok&&e.ip.structural_ok&&q.cp.min==e.ip.cp.min&&q.cp.avg==e.ip.cp.avg&&q.cp.max==e.ip.cp.max){
					L.sideUsable=true; u64 last=0; for(auto&x:q.e){ u64 len=x.end-last; if(lhole){ if(last>=lhat&&last<lhat+lhole){ last=x.end; continue; } u64 po=last<lhat?last:last-lhole; if(po+len<=L.content.size()&&ref_sha(&L.content[po],len)==x.id) L.side[x.id].first++; else { L.side[x.id].second++; L.allRight=false; } last=x.end; continue; } bool right= x.end<=L.content.size()&&len<=MAXCHUNK&&ref_sha(&L.content[last],len)==x.id; auto&pr=L.side[x.id]; if(right) pr.first++; else { pr.second++; L.allRight=false; } last=x.end; }
				}
			}
			arg+=":"+sp;
		}
		e.argvals.push_back(arg); e.loc.push_back(std::move(L));
	}
	// servers
	w.servers.clear();
	for(size_t i=0;i<p.https.size();i++){
		auto&h=p.https[i]; Server s; s.h=h; s.base=Str(h.https?"https":"http")+"://h"+std::to_string(i)+".test/store"; if(h.pad>1){ s.base+="/"+padding(h.pad); while(s.base.back()=='/') s.base.pop_back(); } u8 ck[32]; key_bytes(h.key,ck); memcpy(s.key,ck,32); if(h.wrongkey) key_bytes(h.key^0xdead,s.key);
		if(h.same>0&&(size_t)h.same<=i){ auto&b=w.servers[h.same-1].base; bool ok=true; for(auto&o:w.servers) if(o.base==b&&o.h.enc==h.enc) ok=false; if(ok) s.base=b; }
		Str u=s.base; if(h.slash) u+="/";
		if(h.enc){ if(!p.bad||p.bad==1||p.bad==4||p.bad==6||p.bad==7||p.bad==8) w.add_secret(ck); Str hk=hex(ck,32); if(h.key&1) for(auto&c:hk) c=toupper(c);
			if(h.keyspec==0) u+="#encrypt=key:"+hk; else if(h.keyspec==1){ w.env["CSNKEY"+std::to_string(i)]=hk; u+="#encrypt=env:CSNKEY"+std::to_string(i); }
			else { Str kp=SIM+"key"+std::to_string(i); Str c=hk+(h.key&2?"\n":h.key&4?"\r\n":""); keep(w.mk(kp,R_KEY,false,Bytes(c.begin(),c.end()))); u+="#encrypt=file:"+kp; } }
		for(auto&id:w.idlist) if(!missing_at(h,id)){ auto&c=w.content[id]; s.body[id]=srv_encode(s,id,c.data(),c.size()); }
		e.argvals.push_back(u); w.servers.push_back(std::move(s));
	}
	if(p.bad==1){
		Rng r(p.badarg); Str hk; for(int i=0;i<64;i++) hk+="0123456789abcdef"[r.below(16)];
		auto kf=[&](const Str&c){ w.mk(SIM+"badkey",R_KEY,false,Bytes(c.begin(),c.end())); return "file:"+SIM+"badkey"; };
		auto badkey=[&]()->Str{ Str h=hk; switch(r.below(5)){ case 0: h.pop_back(); break; case 1: h+="0"; break; case 2: h[r.below(64)]="gGxX-/:@`"[r.below(9)]; break; case 3: h=r.pct(50)?Str():h+h; break; default: h=h.substr(0,r.below(64)); } return h; };
		Str u=r.pct(50)?"http://nowhere.test/store":"https://nowhere.test/store/";
		switch(r.below(14)){
		case 0: e.badstore=SIM+"nothere"; break;
		case 1: e.badstore=SIM+"nodir/seed"; break;
		case 2: e.badstore=r.pct(50)?SIM.substr(0,4):SIM; break;
		case 3: w.mk(SIM+"chr",R_OTHER,false,Bytes())->mode=0; e.badstore=SIM+"chr"; break;
		case 4: e.badstore="ftp://h0.test/store"; break;
		case 5: e.badstore=""; break;
		case 6: e.badstore=u+"#encrypt=key:"+badkey(); break;
		case 7: e.badstore=u+"#encrypt="+(r.pct(30)?"key":r.pct(30)?"":r.pct(50)?"key="+hk:"hex:"+hk); break;
		case 8: e.badstore=u+"#encrypt=env:NOSUCHKEY"; break;
		case 9: w.env["BADKEY"]=badkey(); e.badstore=u+"#encrypt=env:BADKEY"; break;
		case 10: e.badstore=u+"#encrypt=file:"+SIM+(r.pct(50)?"nokey":""); break;
		case 11: e.badstore=u+"#encrypt="+kf(badkey()+(r.pct(50)?"\n":"")); break;
		case 12: e.badstore=u+(r.pct(40)?"#crypt=key:"+hk: r.pct(50)?"#nonsense":"#compress=no"); break;
		case 13: { static const char*more[]={"more=1","x","encrypt=","encrypt","encrypt=env:NOSUCHKEY","retries=3,encrypt=key:"}; u8 k[32]; for(int i=0;i<32;i++){ auto v=[](char c){ return c<='9'?c-'0':c-'a'+10; }; k[i]=(u8)(v(hk[2*i])<<4|v(hk[2*i+1])); } w.add_secret(k); e.badstore=u+"#encrypt=key:"+hk+","+more[r.below(6)]; break; }
		}
	}
	if(p.bad==6){ w.user=true; if(e.target) e.target->mode=0444; }
	if(p.kcapi) w.env["CSN_KCAPI_DRIVER"]=p.kcapi==2?"no-such-driver":p.kcapi==4?"":p.kcapi==3?"sha256-generic-with-a-driver-name-that-is-much-too-long-for-the-kernel-interface":"sha256-generic";
	static const char*ll[]={"","debug","info","warn","error","bogus","warning","err"}; if(p.loglevel) w.env["LOGLEVEL"]=ll[p.loglevel&7];
	w.tty=p.tty; w.closed=p.closed; w.frag=p.frag; w.fragseed=p.fragseed; w.latseed=p.latseed;
}
static std::vector<Str> csn_argv(const Plan&p,const Env&e,bool casync)
{
	std::vector<Str> st; for(auto&r:p.order) st.push_back(r.type==2?e.tpath: r.type==0? e.argvals[r.idx] : e.argvals[p.locals.size()+r.idx]);
	std::vector<Str> a; Rng br(p.badarg^0xbad); Str ip=SIM+"index.caibx", tp=e.tpath; std::vector<StoreRef> ord=p.order;
	if(p.bad==1){ size_t q=br.below(st.size()+1); st.insert(st.begin()+q,e.badstore); ord.insert(ord.begin()+q,StoreRef{br.pct(50)?1:0,0}); }
	if(p.bad==4) ip=br.pct(40)?SIM+"noindex":br.pct(50)?SIM:Str("");
	if(p.bad==7) tp=br.pct(40)?SIM+"notarget/x":br.pct(60)?SIM:Str("");
	if(p.bad==5){ static const char*n[]={"csn2","desync","/usr/bin/casync-nano","Csn","","/usr/bin/","casync.real","cs"}; a={n[br.below(8)],ip,tp}; for(auto&s:st) a.push_back(s); return a; }
	if(p.bad==3&&!casync){ a={"/usr/bin/csn",ip,tp}; a.resize(1+br.below(3)); return a; }
	if(!casync){ a={"/usr/bin/csn",ip,tp}; for(auto&s:st) a.push_back(s); return a; }
	int os=p.optstyle&3, ok=p.optstyle>>2; // both options name a store of any kind
	a={"casync"}; if(os==3) a.push_back("extract");
	for(size_t i=0;i<st.size();i++){ Str o= (ord[i].type==1)!=(bool)((ok>>(i%6))&1)?"--store":"--seed"; bool eq= os==0||(os==2&&i%2);
		if(os==2&&i==0) a.push_back("--seed-output=no");
		if(eq) a.push_back(o+"="+st[i]); else { a.push_back(o); a.push_back(st[i]); } }
	if(os==1){ a.push_back("--seed-output"); a.push_back("no"); }
	if(os!=3) a.push_back("extract");
	a.push_back(ip); a.push_back(tp);
	if(p.bad==8) a.insert(a.begin()+1+br.below(a.size()-2),br.pct(50)?"-h":br.pct(60)?"--help":"--he"); // asks for help instead
	if(p.bad==3) switch(br.below(6)){
	case 0: for(auto&x:a) if(x=="extract"){ static const char*v[]={"make","mtree","list","xtract","extract2","Extract",""}; x=v[br.below(7)]; break; } break;
	case 1: for(size_t i=0;i<a.size();i++) if(a[i]=="extract"){ a.erase(a.begin()+i); break; } break;
	case 2: { static const char*v[]={"--frobnicate","--stor3=x","-q","--seedling","--extract"}; a.insert(a.begin()+1,v[br.below(5)]); break; } 
	case 3: a.resize(1+br.below(2)); break;
	case 4: a.resize(a.size()-1-br.below(2)); break;
	case 5: a.push_back("--store"); break;
	}
	return a;
}

// -------------------------------------------------------------------------------------------------
static bool transient_fk(int k){ return k==H_REFUSED||k==H_DNS||k==H_CTIMEOUT||k==H_STALL||k==H_DRIP; }
static bool hard_fk(int k){ return k==H_RESET||k==H_PARTIAL||k==H_EMPTYREPLY||k==H_TLS||k==H_REDIRLOOP; }
static bool good_fk(int k){ return k==0||k==H_PAUSE||k==H_REDIRECT; }
enum { G_OK, G_MISSING, G_TRANSIENT_SHORT, G_EXHAUSTED, G_STATUS, G_AMBIG, G_HARD, G_NEUTRAL };
struct Group { int server; Id id; size_t first,last; int attempts; int end; u64 lastop; };

static std::vector<Group> groups_of(const World&w,const ProcResult&r,int srv)
{
	std::vector<Group> g; bool open=false; u64 prevop=0;
	for(size_t i=0;i<r.http.size();i++){
		auto&h=r.http[i]; if(h.server!=srv) continue;
		bool wrote=false; if(open) for(auto&t:r.tw) if(t.op>prevop&&t.op<h.op){ wrote=true; break; }
		if(open&&g.back().id==h.id&&!wrote){ g.back().last=i; g.back().attempts++; }
		else { g.push_back({srv,h.id,i,i,1,G_AMBIG,h.op}); }
		prevop=h.op; auto&G=g.back(); G.lastop=h.op;
		bool have=!h.badurl&&!h.wrongext&&w.servers[srv].body.count(h.id);
		bool servedmissing=!have&&(h.fk==0||(h.fk>=H_BODYFLIP&&h.fk!=H_NOTFOUND)||h.fk==H_PAUSE||h.fk==H_REDIRECT);
		if(transient_fk(h.fk)&&h.curl==23&&h.status>=400){ open=false; G.end=h.status==404||h.status==410?G_MISSING:G_STATUS; }
		else if(transient_fk(h.fk)&&h.curl!=0&&h.curl!=23){ open=G.attempts<10; G.end=G.attempts<10?G_TRANSIENT_SHORT:G_EXHAUSTED; }
		else { open=false;
			if(hard_fk(h.fk)) G.end=G_HARD;
			else if(h.fk==H_NOTFOUND||servedmissing) G.end=G_MISSING;
			else if(h.fk==H_STATUS) G.end=h.status>=400?G_STATUS:G_AMBIG;
			else if(good_fk(h.fk)&&have) G.end=w.servers[srv].h.wrongkey?G_NEUTRAL:G_OK;
			else if((h.fk==H_BODYRAW||h.fk==H_BODYEMPTY)&&have&&h.status==200&&(h.curl==0||h.curl==23)) G.end=G_NEUTRAL; // nothing that could be taken for a chunk: neither a failed nor a successful download
			else if(h.fk==H_DRIP&&h.curl==0) G.end=G_OK;
			else G.end=G_AMBIG;
		}
	}
	return g;
}

struct IncSum { int outcome,code; u64 thash; std::vector<std::pair<int,Id>> http; };
static size_t prefix_of(const Env&e,const Bytes&t){ size_t k=0; for(auto&x:e.ents){ if(!x.good) break; if(x.hole){ if(t.size()<x.poff) break; k++; continue; } if(x.poff+x.len>t.size()||ref_sha(&t[x.poff],x.len)!=x.id) break; k++; } return k; }

// percentages shown, with the operation count at which they were shown
static std::vector<std::pair<u64,int>> percents(const ProcResult&r)
{
	std::vector<std::pair<u64,int>> v; Str b; std::vector<u64> at; for(auto&o:r.outev) for(char c:o.second){ b+=c; at.push_back(o.first); }
	for(size_t i=1;i<b.size();i++) if(b[i]=='%'&&b[i-1]>='0'&&b[i-1]<='9'){ if(i>3&&b[i-3]=='.') continue; size_t j=i; int x=0; while(j>0&&b[j-1]>='0'&&b[j-1]<='9'&&i-j<6) j--; for(size_t k=j;k<i;k++) x=x*10+(b[k]-'0'); v.push_back({at[i],x}); }
	return v;
}
template<class F> static void judge_progress(const Plan&p,World&w,Env&e,const ProcResult&r,const Bytes&tb,const Bytes&tn,bool ok,F V,RunResult&R)
{
	(void)tn; bool std=false; for(auto&f:r.fired) if(f.f.role==R_STD&&f.f.op<=O_IOCTL) std=true;
	if(std||w.hangsecs||r.outev.size()>=20000) return;
	if(!w.outtty()){ for(u8 c:r.out) if(c=='%'||c==27||c=='\r'){ V(K_PROGRESS,"progress is printed although standard output is not a terminal"); break; } return; }
	auto pc=percents(r); int last=0;
	for(auto&x:pc){ if(x.second>100){ V(K_PROGRESS,sf("%d%% is shown",x.second)); return; } if(x.second<last){ V(K_PROGRESS,sf("the percentage goes back from %d to %d",last,x.second)); return; } last=x.second; }
	if(ok&&e.ents.size()&&pc.size()&&last!=100) V(K_PROGRESS,sf("the last percentage shown by a successful run is %d",last));
	if(ok&&e.ents.size()&&pc.empty()&&p.loglevel!=1) V(K_PROGRESS,"a successful run on a terminal shows no progress");
	if(pc.empty()||!e.ip.entries_ok||!e.ip.structural_ok) return; R.probes["progress shown on a terminal"]++;
	// what was on the target when it was shown
	std::vector<u64> cov(e.ents.size(),0); std::vector<char> have(e.ents.size(),0); size_t n=0, t=0;
	for(size_t i=0;i<e.ents.size();i++){ auto&x=e.ents[i]; if(x.good&&x.poff+x.len<=tb.size()&&memcmp(&tb[x.poff],&w.image[x.poff],x.len)==0){ have[i]=1; n++; } }
	for(auto&x:pc){
		for(;t<r.tw.size()&&r.tw[t].op<=x.first;t++){ auto&q=r.tw[t]; if(!q.good) continue; size_t i=std::upper_bound(e.ents.begin(),e.ents.end(),q.off,[](u64 o,const Ent&y){ return o<y.off+y.len; })-e.ents.begin();
			u64 a=q.off,b=q.off+q.len; for(;i<e.ents.size()&&a<b;i++){ u64 m=std::min(b,e.ents[i].off+e.ents[i].len)-a; cov[i]+=m; a+=m; if(!have[i]&&cov[i]>=e.ents[i].len){ have[i]=1; n++; } } }
		if((u64)x.second*e.ents.size()>100*n){ V(K_PROGRESS,sf("%d%% is shown when %zu of %zu chunks are on the target",x.second,n,e.ents.size())); return; }
	}
}
static void judge_csn(const Plan&p,World&w,Env&e,int k,const ProcResult&r,const Bytes&tbefore,RunResult&R)
{
	auto V=[&](int kind,Str m){ R.v.push_back({kind,k,m}); };
	bool ended=r.outcome!=OUT_CRASH; bool ok=r.outcome==OUT_EXIT&&r.code==0&&p.bad!=8;
	bool idxok=e.ip.structural_ok&&e.ip.entries_ok;
	// ---- classify the faults that fired
	bool fatal=false,tclean=true,alloc=false,sideflt=false; std::vector<bool> lclean(e.loc.size(),true); bool cfg=false; bool kcapiflt=false; bool anyalias=false; for(auto&L:e.loc) if(L.alias) anyalias=true; // scanning the target as a source counts as touching it
	for(auto&f:r.fired){
		int op=f.f.op,role=f.f.role,kd=f.f.kind; bool benign=(kd==F_SHORT&&op!=O_RECV)||(kd==F_EINTR&&(op==O_READ||op==O_WRITE));
		if(op==O_HTTP||op==O_CLOCK) continue;
		if(op==O_SEND||op==O_RECV){ kcapiflt=true; continue; }
		if(op==O_ALLOC||op==O_CRYPT){ alloc=true; fatal=true; continue; }
		if(op==O_CURLCFG||op==O_SOCK){ cfg=true; fatal=true; continue; }
		if(benign) continue;
		if(role>=R_SIDE0&&role<R_SIDE0+4){ sideflt=true; if(kd==F_FLIP&&(size_t)(role-R_SIDE0)<lclean.size()) lclean[role-R_SIDE0]=false; continue; }
		if(role>=R_SEED0&&role<R_SEED0+4){ size_t i=role-R_SEED0; if(i<lclean.size()){ lclean[i]=false; if(kd==F_ROT) e.loc[i].rotted=true; } if(!f.after_target||anyalias) fatal=true; continue; }
		if(role==R_TARGET) tclean=false;
		if(role==R_INDEX) sideflt=true; // the same file may also serve as a side-loaded index
		fatal=true;
	}
	if(w.mapdenied){ fatal=true; std::fill(lclean.begin(),lclean.end(),false); } // a limit of the simulator
	if(r.wb_failed) fatal=true; // possibly data written by an earlier run
	for(size_t i=0;i<e.loc.size();i++) if(e.loc[i].rotted||e.loc[i].alias||e.loc[i].missing) lclean[i]=false;
	Bytes tnow=e.target?e.target->cache:Bytes(); Bytes tdur=e.target?e.target->dur:Bytes();
	size_t pre=prefix_of(e,tbefore);
	// ---- crashes, hangs, memory
	if(r.outcome==OUT_HANG) V(K_HANG,"the run does not end");
	if(r.outcome==OUT_ABORT) V(K_CRASH,"the run aborts");
	if(r.outcome==OUT_SIGNAL) V(K_CRASH,sf("the run is killed by signal %d",r.sig));
	if(r.outcome==OUT_HEAP) V(K_CRASH,"memory error: "+r.heapmsg);
	else if(r.heapbad) V(K_MEM,"memory error: "+r.heapmsg);
	if(!r.leak.empty()) V(K_LEAK,"a part of an encryption key appears in "+r.leak);
	// ---- containment
	for(auto&c:r.contain) V(K_CONTAIN,c);
	for(size_t i=0;i<e.otherino.size();i++) if(e.otherino[i]->modified&&r.contain.empty()) V(K_CONTAIN,"a file other than the target was modified");
	if(p.tmissing&&ok) V(K_CONTAIN,"success although the target does not exist");
	// ---- writes
	u64 imgend=e.end, pend=e.pend; (void)imgend;
	for(auto&t:r.tw) if(!t.good){ V(K_BAD_WRITE,sf("target write of %u bytes at %llu is not image data",t.len,(unsigned long long)t.off)); break; }
	if(e.target&&idxok){
		if(tnow.size()<std::min<u64>(tbefore.size(),tbefore.size())) V(K_BAD_WRITE,"the target got shorter");
		if(tnow.size()>std::max<u64>(tbefore.size(),pend)) V(K_BAD_WRITE,"the target grew beyond the image");
		for(u64 i=pend;i<tbefore.size()&&i<tnow.size();i++) if(tnow[i]!=e.t0[i]){ V(K_BAD_WRITE,sf("target byte %llu beyond the image changed",(unsigned long long)i)); break; }
	}
	// ---- broken index
	if(!e.ip.structural_ok){
		if(ok) V(K_INDEX_ACCEPTED,"an unusable index was accepted");
		if(e.target&&(!r.tw.empty()||e.target->modified)) V(K_TARGET_TOUCHED,"the target was modified although the index is unusable");
	} else if(!e.ip.entries_ok&&ok) V(K_INDEX_ACCEPTED,"success with an index no image can have");
	// ---- success means image, durably
	if(ok&&idxok&&e.target){
		for(auto&x:e.ents){ if(!x.hole&&(x.poff+x.len>tnow.size()||ref_sha(&tnow[x.poff],x.len)!=x.id)){ V(K_WRONG_IMAGE,sf("exit 0 but the chunk at %llu is wrong",(unsigned long long)x.off)); if(!x.good) V(K_INDEX_ACCEPTED,"success with an index whose entries do not fit the chunks"); break; } }
		for(auto&x:e.ents){ if(!x.hole&&(x.poff+x.len>tdur.size()||memcmp(&tdur[x.poff],&tnow[x.poff],x.len))){ V(K_NOT_DURABLE,sf("exit 0 but the chunk at %llu is not on stable storage",(unsigned long long)x.off)); break; } }
		if(r.wb_failed) V(K_NOT_DURABLE,"exit 0 although the device reported that written data was lost");
	}
	// ---- HTTP
	std::vector<std::vector<Group>> G; std::vector<bool> hard(w.servers.size(),false); std::vector<int> maxc(w.servers.size(),0); std::vector<bool> everdis(w.servers.size(),false);
	for(size_t s=0;s<w.servers.size();s++){
		G.push_back(groups_of(w,r,(int)s)); int mx=0,mn=0; bool over=false; 
		for(auto&g:G[s]){
			if(over) { V(K_DISABLE,sf("server %zu is asked again after %d failed downloads in a row",s,mn)); break; }
			for(size_t q=g.first;q<=g.last;q++) if(r.http[q].server==(int)s&&r.http[q].hard&&!good_fk(r.http[q].fk)) hard[s]=true;
			switch(g.end){ case G_OK: mx=mn=0; break; case G_EXHAUSTED: case G_STATUS: mx++; mn++; break; case G_AMBIG: mn=0; break; case G_NEUTRAL: break; case G_HARD: hard[s]=true; break; }
			if(mx>maxc[s]) maxc[s]=mx;
			if(mn>10) over=true;
		}
		if(over) R.probes["server exceeded the failure limit"]++;
		everdis[s]=hard[s]||maxc[s]>10;
	}
	for(size_t i=0;i<r.http.size();i++){
		auto&h=r.http[i];
		if(h.badurl||h.wrongext){ V(K_URL,"a request has a wrong URL"); break; }
		if(h.server<0) continue;
		if(idxok&&!e.ids.count(h.id)) V(K_ECONOMY,"a chunk that is not in the index was requested");
		bool tr=transient_fk(h.fk)&&(h.curl==6||h.curl==7||h.curl==28);
		if(tr){
			// position inside its download
			int a=1; for(auto&g:G[h.server]) if(i>=g.first&&i<=g.last){ a=0; for(size_t q=g.first;q<=i;q++) if(r.http[q].server==h.server) a++; }
			if(a>10) V(K_RETRY,"a download was attempted more than ten times");
			if(a<10&&(ended||i+1<r.http.size())&&!alloc&&!cfg&&r.outcome!=OUT_HANG&&r.outcome!=OUT_ABORT&&r.outcome!=OUT_SIGNAL&&r.outcome!=OUT_HEAP){
				if(i+1>=r.http.size()||r.http[i+1].server!=h.server||r.http[i+1].id!=h.id) V(K_RETRY,sf("attempt %d failed for a transient reason and was not repeated",a));
				else { u64 want=200000000ull; for(int q=1;q<a;q++) want=std::min<u64>(want*2,10000000000ull); u64 gap=r.http[i+1].t0-h.t1; if(gap+1000000<want||gap>want+50000000) V(K_BACKOFF,sf("waited %.3f s instead of %.3f s before attempt %d",gap/1e9,want/1e9,a+1)); R.probes["transient failure retried"]++; }
			}
		}
	}
	for(size_t s=0;s<G.size();s++) for(auto&g:G[s]) if(g.attempts>1&&g.end==G_OK) R.probes["download succeeded after retries"]++;
	// ---- which local chunks are certainly served, and by simulation of leading local stores, which requests are allowed
	auto side_promises=[&](const LocalEnv&L,const Id&id){ return L.side.count(id)>0; };
	auto local_avail=[&](size_t i,const Id&id){
		if(!lclean[i]) return false; auto&L=e.loc[i]; auto it=e.ids.find(id); if(it==e.ids.end()) return false;
		if(!L.sideUsable) return L.scan.count(id)>0;
		if(sideflt) return L.scan.count(id)>0&&side_promises(L,id);
		if(L.scan.count(id)&&side_promises(L,id)) return true;
		auto q=L.side.find(id); return L.allRight&&q!=L.side.end();
	};
	std::set<Id> locallyall, needremote; bool simok=false;
	{
		size_t nl=0; while(nl<p.order.size()&&p.order[nl].type==0) nl++;
		simok=nl>0&&idxok&&!alloc&&!sideflt&&tclean; for(size_t q=0;q<nl&&simok;q++) if(!lclean[p.order[q].idx]) simok=false;
		if(simok){
			std::vector<int> st(nl); for(size_t q=0;q<nl;q++) st[q]=e.loc[p.order[q].idx].sideUsable?1:0;
			bool amb=false; 
			for(size_t j=pre;j<e.ents.size()&&!amb;j++){
				if(j>pre&&e.ents[j].id==e.ents[j-1].id) continue;
				auto&id=e.ents[j].id; bool served=false;
				for(size_t q=0;q<nl&&!served&&!amb;q++){
					auto&L=e.loc[p.order[q].idx];
					if(st[q]==1){ auto it=L.side.find(id); if(it==L.side.end()) continue; if(it->second.first&&it->second.second){ amb=true; break; } if(it->second.first){ served=true; continue; } st[q]=2; R.probes["sideloaded index found wrong and discarded"]++; }
					if(L.scan.count(id)) served=true;
				}
				if(served) locallyall.insert(id); else needremote.insert(id);
			}
			if(amb) simok=false; else for(auto&id:needremote) locallyall.erase(id);
		}
	}
	// ---- economy, order, prefix
	if(idxok&&tclean&&!alloc){
		std::set<Id> rest; for(size_t j=pre;j<e.ents.size();j++) rest.insert(e.ents[j].id);
		if(pre) R.probes["run started with an intact prefix"]++;
		for(auto&h:r.http) if(h.server>=0&&!rest.count(h.id)&&e.ids.count(h.id)){ V(K_PREFIX_FETCH,sf("a chunk of the intact prefix (%zu chunks) was requested",pre)); break; }
		u64 pe=pre?e.ents[pre-1].off+e.ents[pre-1].len:0;
		for(auto&t:r.tw) if(t.off<pe){ V(K_PREFIX_WRITE,sf("the intact prefix (%llu bytes) was written at %llu",(unsigned long long)pe,(unsigned long long)t.off)); break; }
	}
	if(idxok&&e.target&&!r.wb_failed&&(r.outcome!=OUT_CRASH||true)){ size_t after=prefix_of(e,tnow); if(after<pre) V(K_PREFIX_SHRINK,sf("the intact prefix shrank from %zu to %zu chunks",pre,after)); }
	if(idxok&&!alloc&&!cfg){
		std::map<int,int> pos; int tpos=-1; for(size_t q=0;q<p.order.size();q++){ if(p.order[q].type==1) pos[p.order[q].idx]=(int)q; if(p.order[q].type==2&&tpos<0) tpos=(int)q; }
		std::map<Id,int> runs; for(size_t j=0;j<e.ents.size();j++) if(!j||e.ents[j].id!=e.ents[j-1].id||j==pre) runs[e.ents[j].id]++;
		std::map<Id,int> okdl; std::set<Id> inprefix; for(size_t j=0;j<pre;j++) inprefix.insert(e.ents[j].id);
		bool done=false;
		for(size_t i=0;i<r.http.size()&&!done;i++){
			auto&h=r.http[i]; if(h.server<0||!e.ids.count(h.id)||!pos.count(h.server)) continue; int P=pos[h.server];
			for(int q=0;q<P&&!done;q++){
				auto&o=p.order[q];
				if(o.type==0&&local_avail(o.idx,h.id)){ V(K_ORDER,sf("a chunk held by the earlier local store %d was requested over HTTP",o.idx)); done=true; }
				if(o.type==1&&o.idx<(int)w.servers.size()&&!everdis[o.idx]){
					bool have=w.servers[o.idx].body.count(h.id)&&!w.servers[o.idx].h.wrongkey; bool asked=false,damaged=false;
					for(size_t z=0;z<i;z++) if(r.http[z].server==o.idx&&r.http[z].id==h.id) asked=true;
					for(auto&g:G[o.idx]) if(g.id==h.id&&g.end!=G_OK) damaged=true;
					if(have&&!damaged){ V(K_ORDER,sf("a chunk held by the earlier server %d was requested from server %d",o.idx,h.server)); done=true; }
					else if(!asked){ V(K_ORDER,sf("server %d was asked before the earlier server %d",h.server,o.idx)); done=true; }
				}
				if(o.type==2&&tclean&&inprefix.count(h.id)){ V(K_ECONOMY,"a chunk present in the processed part of the target was downloaded although the target is listed as a store"); done=true; }
			}
			if(simok&&locallyall.count(h.id)){ V(K_ORDER,"a chunk contained in an earlier local store was requested over HTTP"); done=true; }
			bool kfault=kcapiflt; (void)kfault;
			if(h.served_ok&&!w.servers[h.server].h.wrongkey){
				int n=++okdl[h.id];
				if(n>runs[h.id]&&e.allgood){ V(K_ECONOMY,sf("a chunk was downloaded %d times for %d separate places",n,runs[h.id])); done=true; }
				if(tpos>=0&&tpos<P&&tclean&&n>1&&!done){ V(K_ECONOMY,"a chunk already written to the target was downloaded again although the target is listed as a store"); done=true; }
			}
		}
	}
	// ---- a correctly served chunk is accepted at once
	if(idxok&&!alloc&&!cfg) for(size_t i=0;i<r.http.size();i++){ auto&h=r.http[i]; if(h.server<0||h.badurl) continue; auto&S=w.servers[h.server]; if(!good_fk(h.fk)||S.h.wrongkey||!S.body.count(h.id)||!w.content.count(h.id)||w.content[h.id].size()>MAXCHUNK) continue;
		if(h.curl==23){ V(K_REJECTED_GOOD,"a correctly served chunk was refused while it was transferred"); break; }
		if(h.curl!=0&&h.curl!=28&&h.t1){ V(K_REJECTED_GOOD,sf("a correctly served chunk was not obtained (transfer error %d)",h.curl)); break; }
		if(h.served_ok&&i+1<r.http.size()&&r.http[i+1].id==h.id){ bool wr=false; for(auto&t:r.tw) if(t.op>h.op&&t.op<r.http[i+1].op) wr=true; if(!wr){ V(K_REJECTED_GOOD,"a correctly served chunk was requested again"); break; } }
	}
	// ---- what cannot be set up fails early
	{
		bool cant=p.bad||p.tmissing||(p.kcapi>1&&!p.casync); const char*why=p.bad?"an argument cannot be used":p.tmissing?"the target does not exist":"the hashing driver cannot be used";
		if(!e.ip.structural_ok){ cant=true; why="the index cannot be used"; }
		for(auto&o:p.order) if(o.type==0&&e.loc[o.idx].missing&&!e.loc[o.idx].alias){ cant=true; why="a seed does not exist"; }
		for(auto&f:r.fired) if(f.f.op==O_OPEN&&f.f.kind!=F_EINTR&&!f.after_target&&(f.f.role==R_INDEX||f.f.role==R_TARGET||f.f.role==R_KEY||(f.f.role>=R_SEED0&&f.f.role<R_SEED0+4))){ bool shared=false; if(f.f.role==R_INDEX) for(auto&l:p.locals) if(l.side==6) shared=true; if(f.f.role==R_TARGET&&anyalias) shared=false; if(!shared){ cant=true; why="a file could not be opened"; } }
		if(cant){
			R.probes["run that could not be set up"]++;
			if(ok) V(K_SETUP,sf("success although %s",why));
			if(!r.tw.empty()||(e.target&&e.target->modified)) V(K_SETUP,sf("the target was written although %s",why));
			if(!r.http.empty()) V(K_SETUP,sf("a request was sent although %s",why));
		}
	}
	// ---- must succeed
	if(!p.bad&&ended&&!ok&&idxok&&!e.biglen&&e.allgood&&e.target&&p.kcapi<2&&!fatal&&e.keysok){
		bool sizeok=!e.target->blk||tbefore.size()>=pend; bool seedsok=true; for(auto&L:e.loc) if(L.missing) seedsok=false; for(auto&o:p.order) (void)o;
		if(sizeok&&seedsok&&!p.order.empty()){
			bool all=true; 
			for(size_t j=pre;j<e.ents.size()&&all;j++){
				auto&id=e.ents[j].id; bool av=simok&&locallyall.count(id);
				for(auto&o:p.order){ if(av) break;
					if(o.type==0) av=local_avail(o.idx,id);
					else if(o.type==1){ int s=o.idx; if(everdis[s]||w.servers[s].h.wrongkey||!w.servers[s].body.count(id)) continue; bool dmg=false; for(auto&g:G[s]) if(g.id==id&&g.end!=G_OK&&g.end!=G_TRANSIENT_SHORT) dmg=true; if(!dmg) av=true; }
				}
				if(!av) all=false;
			}
			if(all){ V(K_MUST_SUCCEED,sf("the run failed (outcome %d, status %d) although every chunk could be obtained",r.outcome,r.code)); if(p.incs[k].healthy&&k>0) V(K_RERUN,"re-running after interrupted attempts failed"); }
		}
	}
	if(p.incs[k].healthy&&k>0&&ok) for(auto&v:R.v) if(v.inc==k&&v.kind==K_WRONG_IMAGE){ V(K_RERUN,"re-running after interrupted attempts reported success but left a wrong image"); break; }
	// ---- progress display
	if(r.outcome!=OUT_HANG&&!alloc) judge_progress(p,w,e,r,tbefore,tnow,ok,V,R);
	// ---- resources
	{
		size_t chunks=e.ents.size()*2+8, loc=0; for(auto&L:e.loc){ chunks+=L.nside+L.nscan*2+((L.content.size()+L.hole)*3/2)/std::max<u32>(1,e.ip.cp.avg); loc++; }
		u64 bound=(1u<<20)+(u64)w.servers.size()*(1u<<20)+160*chunks;
		if(r.peak>bound) V(K_MEMORY_BOUND,sf("%llu bytes of heap in use, the bound for this run is %llu",(unsigned long long)r.peak,(unsigned long long)bound));
		if(r.zpeak>w.servers.size()+2||r.cpeak>w.servers.size()+2||r.epeak>w.servers.size()+2) V(K_MEMORY_BOUND,"decompression, cipher or transfer contexts accumulate");
		bool weird=false; for(auto&f:r.fired) if(f.f.kind==H_BODYBOMB||f.f.kind==H_BODYENDLESS) weird=true; bool side=false; for(auto&L:e.loc) if(L.sideGiven) side=true; bool tst=false; for(auto&o:p.order) if(o.type==2) tst=true;
		size_t n=r.live_at_req.size();
		if(n>=40&&!weird&&!side){ u64 a=0; for(size_t i=0;i<n/4;i++) a=std::max(a,r.live_at_req[i]); u64 b=~0ull; for(size_t i=n-std::min<size_t>(n/10+1,20);i<n;i++) b=std::min(b,r.live_at_req[i]); u64 tol=4096+3*r.maxbody+8*n+(tst?160*e.ents.size():0); if(b>a+tol) V(K_MEMORY_BOUND,sf("memory in use grew by %llu bytes over %zu requests",(unsigned long long)(b-a),n)); }
		u32 fb=3+2+2+2+2*(loc+w.servers.size())+4; if(r.fd_peak>fb) V(K_FD_BOUND,sf("%u descriptors open at once",r.fd_peak));
	}
	// ---- probes and signature
	for(auto&f:r.fired) if(f.f.op==O_HTTP&&f.f.kind==H_STALL) R.probes["transfer stalled"]++;
	if(!r.tw.empty()&&r.outcome==OUT_CRASH) R.probes["interrupted after target writes"]++;
	if(ok) R.probes["run succeeded"]++; else if(ended) R.probes["run failed"]++;
	if(e.end>(1ull<<31)&&ended) R.probes["image of more than 2 GiB"]++;
	if(kcapiflt) R.probes["kernel hashing disturbed"]++;
	for(size_t s=0;s<hard.size();s++) if(hard[s]) R.probes["server hard failure"]++;
	u64 s=h2(r.outcome*4+ok,std::min<size_t>(r.http.size(),64)/4+100*(pre?1+std::min<size_t>(pre,20)/3:0)+10000*std::min<size_t>(r.tw.size(),100)/5);
	std::set<u64> fs; for(auto&f:r.fired) fs.insert(((u64)f.f.op<<16)|(f.f.role<<8)|f.f.kind); for(auto x:fs) s=h2(s,x);
	R.sig=h2(R.sig,s);
	if(!r.fired.empty()||r.outcome==OUT_CRASH||pre||!e.allgood||!idxok) if(r.ops>10) R.nontrivial=true;
}

static std::vector<IncSum> run_csn(const Plan&p,bool casync,bool judge,bool verbose,RunResult&R)
{
	World w; W=&w; w.verbose=verbose; Env e; setup_csn(w,p,e);
	static const int SF[]={-1,-1,-1,0x00,0xA7,0x2f}; w.stackfill=SF[(p.seed>>7)%6];
	if(p.pair==4){ // what surrounds the process differs between the two executions, the inputs do not
		w.stackfill=judge?0x00:0xA7;
		if(!judge){ Rng r(p.seed^0x5a5a); w.heapfill=(u8)r.pick<int>({0,0xff,0x01,0x5c}); w.heapfree=(u8)r.pick<int>({0,0xff,0x22}); w.pid=1+(int)r.below(4000000); w.now+=r.below(4000000)*1000000000ull; w.brkerr=r.pct(35); w.brkout=r.pct(35); if(r.pct(25)) w.closed=(int)r.below(8);
			w.tty=r.pct(50)?(int)r.below(4):w.tty; static const char*ll[]={"debug","info","warn","error","bogus"}; if(r.pct(70)) w.env["LOGLEVEL"]=ll[r.below(5)]; else w.env.erase("LOGLEVEL");
			w.env["HOME"]="/root"; w.env["LANG"]="tr_TR.UTF-8"; w.env["TZ"]="Asia/Tokyo";
			// malformed bodies (junk after the compressed frame) are taken or refused depending on how they arrive: same pieces then
			bool wf=true; for(auto&f:p.faults) if(f.op==O_HTTP&&f.kind!=H_STATUS&&f.kind!=H_NOTFOUND&&f.kind!=H_REFUSED&&f.kind!=H_DNS&&f.kind!=H_TLS&&f.kind!=H_BODYOTHER&&f.kind!=H_BODYCROSS&&f.kind!=H_BODYEMPTY) wf=false;
			if(wf){ w.frag=(int)r.below(10); w.fragseed=r.next()%100000; w.latseed=r.next()%100000; } } }
	auto argv=csn_argv(p,e,casync);
	w.explicitf=!p.randomfaults; for(auto&f:p.faults) w.emap[{(u32)f.inc,(u32)f.op,(u32)f.role,f.occ}]=f;
	w.rng=Rng(p.seed^0xfa017);
	u64 bytes=w.image.size(); for(auto&l:e.loc) bytes+=l.content.size();
	w.opcap=4000000+p.hole/500; for(auto&l:e.loc) w.opcap+=l.hole/256; w.timecap=(u64)(e.ents.size()+5)*std::max<size_t>(1,w.servers.size())*10*450*1000000000ull;
	w.memcap=1ull<<28; w.readcap=w.hangsecs?0:(64ull<<20)+(e.ents.size()+8)*(bytes+e.t0.size()+1024)*8*(e.loc.size()+1);
	if(verbose){ Str s; for(auto&a:argv) s+=a+" "; w.tr("command: %s",s.c_str()); w.tr("image %llu bytes, %zu chunks, %zu local sources, %zu servers",(unsigned long long)e.end,e.ents.size(),e.loc.size(),w.servers.size()); }
	std::vector<IncSum> out;
	for(size_t k=0;k<p.incs.size();k++){
		auto&ic=p.incs[k]; w.cur=(int)k; w.rates=ic.rates; w.crash_at=ic.crash.kind?ic.crash.at:0; w.crash_seed=ic.crash.seed;
		if(ic.healthy&&e.target) e.target->sync(); // a working device: errors of earlier write-backs are not reported to this run, the data is gone
		Bytes tb=e.target?e.target->cache:Bytes();
		for(size_t i=0;i<e.loc.size();i++) if(e.loc[i].alias) e.loc[i].content=tb;
		w.tr("---- run %zu starts%s",k,ic.healthy?" (working environment)":"");
		ProcResult r=run_process(w,TOOL_CSN,argv);
		R.hash=fnv(R.hash,&r.hash,8); R.simtime+=r.cpuhang?0:r.dt; R.ops+=r.cpuhang?0:r.ops; R.inc_ops.push_back(r.ops); R.nhttp+=r.http.size(); R.nincs++; R.outcomes.push_back(r.outcome*1000+r.code);
		if(judge){ for(auto&f:r.fired) R.fired.push_back(f); judge_csn(p,w,e,(int)k,r,tb,R); R.oplogs.push_back(r.oplog); }
		else for(auto&f:r.fired) (void)f;
		if(r.cpuhang) break;
		u64 th=e.target?fnv(11,e.target->cache.data(),e.target->cache.size()):0; R.hash=fnv(R.hash,&th,8);
		IncSum s{r.outcome,r.code,th,{}}; for(auto&h:r.http) s.http.push_back({h.server,h.id}); out.push_back(s);
		if(r.outcome==OUT_CRASH&&judge){ if(ic.crash.kind==2) R.crashes_power++; else R.crashes_kill++; }
		if(verbose&&r.log.size()) { size_t b=0; while(b<r.log.size()){ size_t n=r.log.find('\n',b); if(n==Str::npos) n=r.log.size(); w.trace.push_back("   log: "+r.log.substr(b,n-b)); b=n+1; if(w.trace.size()>4000) break; } }
		if(ic.crash.kind==2){ w.powerloss(ic.crash.mode,ic.crash.seed); w.tr("power lost: unsynced writes partly gone");
			u64 t2=e.target?fnv(11,e.target->cache.data(),e.target->cache.size()):0; R.hash=fnv(R.hash,&t2,8);
			// what a successful run left must still be there
			if(judge&&p.bad!=8&&r.outcome==OUT_EXIT&&r.code==0&&e.target) for(auto&x:e.ents) if(x.good&&!x.hole&&(x.poff+x.len>e.target->cache.size()||ref_sha(&e.target->cache[x.poff],x.len)!=x.id)){ R.v.push_back({K_NOT_DURABLE,(int)k,"the image did not survive a power loss after success"}); break; }
		}
		w.now+=1000000000ull;
	}
	if(verbose){ for(auto&t:w.trace) R.trace.push_back(t); }
	W=nullptr;
	return out;
}

// ------------------------------------------------------------------------------------------------- csn-tool
static void run_crypt(const Plan&p,bool verbose,RunResult&R)
{
	World w; W=&w; w.verbose=verbose; w.tool_allow_out=true; w.outdir=""; w.tty=p.tty; w.closed=p.closed; w.user=p.user; w.samepid=p.samepid; w.memcap=1ull<<28; w.opcap=2000000; w.timecap=1000000000000ull; { static const int SF[]={-1,0x00,0xA7,0x2f}; w.stackfill=SF[(p.seed>>7)%4]; }
	struct F { Str in,out; Bytes data,conv; bool hasIn,pre,bad,stdo=false; Bytes preData; InodeP inI; };
	std::vector<F> fs; u8 key[32]; key_bytes(p.tkey,key);
	std::map<Str,Bytes> keepfiles; // inputs and outputs that existed before
	std::map<Str,Bytes> expect;    // outputs to be made
	w.mk("/sim/c/.dir",R_SRC,false,Bytes()); keepfiles["/sim/c/.dir"]=Bytes();
	std::vector<Str> lines;
	for(size_t i=0;i<p.files.size();i++){
		auto&t=p.files[i]; F f; Rng r(t.seed); u8 id[32]; size_t idof=i; while(p.tkind==2&&idof&&p.files[idof].seed%6==1) idof--; { Rng ri(p.files[idof].seed); for(int q=0;q<32;q++){ id[q]=(u8)ri.next(); r.next(); } } Str twin=idof!=i?"d"+std::to_string(i)+"/":""; // the same chunk in another directory
		f.data.resize(t.len); for(auto&x:f.data) x=(u8)r.next();
		Str hx=hex(id,32); if(t.seed%5==0) for(auto&c:hx) c=toupper(c); f.bad=t.pre==4; if(f.bad){ if(t.seed%3==0) hx[t.seed%64]='g'; else if(t.seed%3==1) hx.resize(60); else hx+="0"; }
		Str dir=(t.dir==1?"":t.dir==2?"./":"/sim/c/")+twin+padding(t.pad); f.in=dir+hx+".cacnk"+(t.encrypted?".enc":"");
		f.out=t.encrypted?f.in.substr(0,f.in.size()-4):f.in+".enc";
		if(p.tkind==0){ f.out="/sim/c/out"+std::to_string(i); if(t.seed%7<3){ Str o=hx; for(auto&c:o) c= c=='0'?'a':c=='a'?'7':c=='7'?'0':c; if(o!=hx) f.out="/sim/c/"+o+(t.seed%7?".cacnk":".cacnk.enc"); } } if(p.tkind==3){ f.out="-"; f.stdo=true; }
		f.conv.resize(f.data.size()); ref_xchacha(f.conv.data(),f.data.data(),f.data.size(),key,id);
		f.hasIn=t.pre!=3; auto abs=[&](const Str&s){ return s[0]=='/'?s: "/cwd/"+(s.compare(0,2,"./")==0?s.substr(2):s); };
		if(f.hasIn){ w.mk(abs(f.in),R_CHUNKIN,false,f.data); keepfiles[abs(f.in)]=f.data; }
		f.pre=false;
		if(!f.stdo){ Str o=abs(f.out); if(t.pre==1||t.pre==2){ f.pre=true; Bytes d=f.conv; if(t.pre==2){ d.assign(t.seed%300,(u8)0x77); } w.mk(o,R_OUT,false,d)->mode=0444; keepfiles[o]=d; } else if(!keepfiles.count(o)) expect[o]=f.conv; f.out=o; }
		lines.push_back(f.in); fs.push_back(f);
	}
	if(p.targs&1){ w.mk("/cwd/-",R_OUT,false,Bytes(5,1)); keepfiles["/cwd/-"]=Bytes(5,1); }
	Str hk=hex(key,32), ks; if(p.tkey&1) for(auto&c:hk) c=toupper(c);
	if(p.tkeyspec==0) ks="key:"+hk; else if(p.tkeyspec==1){ w.env["K"]=hk; ks="env:K"; } else if(p.tkeyspec==2){ Str c=hk+(p.tkey&2?"\n":""); w.mk("/sim/keyf",R_KEY,false,Bytes(c.begin(),c.end())); keepfiles["/sim/keyf"]=Bytes(c.begin(),c.end()); ks="file:/sim/keyf"; }
	else { static const char*bad[]={"key:","env:NOPE","file:/sim/none","bogus","key:zz","file:/sim/c","","key:0"}; ks=bad[p.tkeyspec%8]; if(p.tkeyspec%3==0) ks="key:"+hk.substr(0,63)+"x"; }
	bool keyok=p.tkeyspec<=2; 
	std::vector<Str> argv={"csn-tool","crypt",ks};
	if(p.tkind==0||p.tkind==3){ argv.push_back(fs[0].in); argv.push_back(p.tkind==3?Str("-"):fs[0].out); fs.resize(1); }
	else if(p.tkind==1){ argv.push_back(fs[0].in); fs.resize(1); }
	else if(p.tkind==2){ Str s; for(size_t i=0;i<lines.size();i++) s+=lines[i]+(i+1==lines.size()&&(p.targs&2)?"":p.targs&4?"\r\n":"\n"); w.stdin_data=s; }
	bool odd=p.tkind==4;
	if(odd){ Rng r(p.argseed); static const char*pool[]={"crypt","-h","--help","key:","-","","/sim/c/","file:/sim/c/.dir","x","crypt","env:K"}; argv={"csn-tool"}; size_t n=r.below(6); for(size_t i=0;i<n;i++){ int z=(int)r.below(14); argv.push_back(z<11?pool[z]:z==11?ks:lines.empty()?"y":lines[r.below(lines.size())]); } 
		Str s; for(size_t i=0;i<r.below(4);i++){ size_t n2=r.pct(20)?5000:r.below(90); for(size_t q=0;q<n2;q++) s+=(char)(r.pct(3)?0:32+r.below(90)); if(r.pct(80)) s+="\n"; } w.stdin_data=s; }
	if(p.bad){ Rng r(p.badarg); auto keep1=argv; odd=true;
		switch(p.bad){
		case 1: { static const char*b[]={"decrypt","Crypt","crypt2","","cryp","encrypt","--crypt","-q"}; argv[1]=b[r.below(8)]; break; }
		case 2: argv={"csn-tool"}; if(r.pct(60)) argv.push_back("crypt"); break;
		case 3: while(argv.size()<6) argv.push_back(argv.size()==3?fs[0].in:"/sim/c/more"); break;
		case 4: { Str h=hk; switch(r.below(6)){ case 0: h.pop_back(); break; case 1: h+="0"; break; case 2: h[r.below(64)]='g'; break; case 3: h.clear(); break; case 4: h=h.substr(0,r.below(64)); break; default: h+=h; } int k=(int)r.below(6); if(k==0) ks="key:"+h; else if(k==1){ w.env["K"]=h; ks="env:K"; } else if(k==2){ w.mk("/sim/keyf",R_KEY,false,Bytes(h.begin(),h.end())); keepfiles["/sim/keyf"]=Bytes(h.begin(),h.end()); ks="file:/sim/keyf"; } else ks=k==3?Str("env:NOPE"):k==4?Str("file:/sim/none"):hk; argv[2]=ks; if(r.pct(30)) argv.resize(3); break; }
		case 5: { const char*b[]={"/sim/c/none.cacnk","/sim/c/",""}; argv={"csn-tool","crypt",ks,b[r.below(3)]}; if(r.pct(50)) argv.push_back("/sim/c/outx"); break; }
		} }
	if(keyok&&!p.bad){ bool elsewhere=false; if(odd) for(size_t i=0;i<argv.size();i++) if(i!=2&&argv[i]==ks) elsewhere=true; if(!elsewhere) w.add_secret(key); } // a key given in place of a file name is not a key
	// only the files actually requested count
	if(p.tkind==0||p.tkind==1||p.tkind==3){ std::map<Str,Bytes> x; if(!fs[0].stdo&&expect.count(fs[0].out)) x[fs[0].out]=expect[fs[0].out]; expect=x; }
	bool solvable=keyok&&!odd&&!(p.tkind==3&&p.closed&2)&&!(p.tkind==2&&p.closed&1); for(auto&f:fs) if(f.bad||(!f.hasIn&&!f.pre)||f.in.size()>4050) solvable=false;
	// another process makes one of the outputs that do not exist yet
	w.onappear=[&](u64 arg){ std::vector<Str> v; for(auto&x:expect) if(!w.dir.count(x.first)) v.push_back(x.first); if(v.empty()) return;
		Str o=v[(arg>>2)%v.size()]; Bytes d=expect[o]; if(arg&3) d.assign((arg>>5)%300,(u8)0x77); w.mk(o,R_OUT,false,d)->mode=0444; keepfiles[o]=d; expect.erase(o); w.tr("another process creates %s",o.c_str()); R.probes["output made by another process meanwhile"]++; };
	w.explicitf=!p.randomfaults; for(auto&f:p.faults) w.emap[{(u32)f.inc,(u32)f.op,(u32)f.role,f.occ}]=f; w.rng=Rng(p.seed^0xfa017);
	if(verbose){ Str s; for(auto&a:argv) s+=a+" "; w.tr("command: %s",s.c_str()); }
	for(size_t k=0;k<p.incs.size();k++){
		auto&ic=p.incs[k]; w.cur=(int)k; w.rates=ic.rates; w.crash_at=ic.crash.kind?ic.crash.at:0; w.crash_seed=ic.crash.seed;
		ProcResult r=run_process(w,TOOL_CRYPT,argv);
		if(r.outcome==OUT_CRASH){ if(ic.crash.kind==2) R.crashes_power++; else R.crashes_kill++; }
		auto V=[&](int kind,Str m){ R.v.push_back({kind,(int)k,m}); };
		R.hash=fnv(R.hash,&r.hash,8); R.simtime+=r.cpuhang?0:r.dt; R.ops+=r.cpuhang?0:r.ops; R.inc_ops.push_back(r.ops); R.nincs++; R.outcomes.push_back(r.outcome*1000+r.code); for(auto&f:r.fired) R.fired.push_back(f); R.oplogs.push_back(r.oplog);
		bool ok=r.outcome==OUT_EXIT&&r.code==0; bool anyfault=!r.fired.empty(); bool benignonly=true; for(auto&f:r.fired) if(!((f.f.kind==F_SHORT||f.f.kind==F_EINTR)&&(f.f.op==O_READ||f.f.op==O_WRITE))||(f.f.role==R_STD&&f.f.kind==F_EINTR)) benignonly=false;
		if(r.outcome==OUT_HANG) V(K_HANG,"the run does not end"); if(r.cpuhang) break;
		if(r.outcome==OUT_ABORT||r.outcome==OUT_SIGNAL) V(K_CRASH,sf("the run crashes (signal %d)",r.sig));
		if(r.outcome==OUT_HEAP) V(K_CRASH,"memory error: "+r.heapmsg); else if(r.heapbad) V(K_MEM,"memory error: "+r.heapmsg);
		if(!r.leak.empty()) V(K_LEAK,"a part of the encryption key appears in "+r.leak);
		for(auto&c:r.contain) V(K_TOOL_OVERWRITE,c);
		if(p.bad&&(keyok||p.bad!=5)){ R.probes["run that could not be set up"]++; if(ok) V(K_SETUP,"success although the command line cannot be used"); for(auto&d:w.dir) if(!keepfiles.count(d.first)){ V(K_SETUP,"a file was created although the command line cannot be used"); break; } }
		bool wasok=ok;
		if(ic.crash.kind==2){ w.powerloss(ic.crash.mode,ic.crash.seed); w.tr("power lost"); }
		for(auto&q:keepfiles){ auto it=w.dir.find(q.first); if(it==w.dir.end()) V(K_TOOL_OVERWRITE,"a file that existed before is gone: "+q.first); else if(it->second->cache!=q.second) V(K_TOOL_OVERWRITE,"a file that existed before was changed: "+q.first); }
		if(!odd) for(auto&q:expect){ auto it=w.dir.find(q.first); bool there=it!=w.dir.end(); 
			if(there&&it->second->cache!=q.second) V(K_TOOL_PARTIAL,sf("output %s holds %zu of %zu bytes or wrong data",q.first.c_str(),it->second->cache.size(),q.second.size()));
			if(wasok&&!there&&ic.crash.kind!=2) V(K_TOOL_WRONG,"exit 0 but the output "+q.first+" is missing"); }
		if(!odd&&ok&&p.tkind==3&&(r.out!=fs[0].conv)) V(K_TOOL_WRONG,"exit 0 but standard output is not the conversion");
		if(!odd&&!ok&&r.outcome==OUT_EXIT&&solvable&&(!anyfault||benignonly)) V(K_TOOL_WRONG,"the conversion failed although nothing prevented it");
		if(odd||!solvable){ }
		if(!solvable&&!odd&&ok&&!keyok) V(K_TOOL_WRONG,"success with an unusable key");
		if(r.fd_peak>10) V(K_FD_BOUND,sf("%u descriptors open at once while converting %zu files",r.fd_peak,lines.size()));
		{ size_t mx=0,tot=0; for(auto&f:fs){ mx=std::max(mx,f.data.size()); tot+=f.data.size(); } if(r.peak>200000+4*mx) V(K_MEMORY_BOUND,sf("%llu bytes of heap in use while converting files of at most %zu bytes",(unsigned long long)r.peak,mx)); if(r.epeak>2) V(K_MEMORY_BOUND,"cipher contexts accumulate"); }
		u64 th=5; for(auto&d:w.dir){ th=fnv(th,d.first.data(),d.first.size()); th=fnv(th,d.second->cache.data(),d.second->cache.size()); } R.hash=fnv(R.hash,&th,8);
		u64 s=h2(r.outcome*4+ok,p.tkind*16+std::min<size_t>(fs.size(),8)); for(auto&f:r.fired) s=h2(s,((u64)f.f.op<<16)|(f.f.role<<8)|f.f.kind); s=h2(s,r.outcome==OUT_CRASH?r.ops:0); R.sig=h2(R.sig,s);
		if(ok) R.probes["conversion succeeded"]++; else R.probes["conversion failed or interrupted"]++;
		if(anyfault||r.outcome==OUT_CRASH) R.nontrivial=true;
		if(verbose&&r.log.size()) w.trace.push_back("   log: "+r.log.substr(0,2000));
	}
	if(verbose) for(auto&t:w.trace) R.trace.push_back(t);
	W=nullptr;
}

// ------------------------------------------------------------------------------------------------- patchdd
static void run_patchdd(const Plan&p,bool verbose,RunResult&R)
{
	World w; W=&w; w.verbose=verbose; w.tty=p.tty; w.closed=p.closed; w.memcap=1ull<<28; w.opcap=3000000; w.timecap=1000000000000ull; { static const int SF[]={-1,-1,0x00,0xA7}; w.stackfill=SF[(p.seed>>7)%4]; }
	Bytes src=seg_bytes(p.segs,p.cp), dst=src; Rng rr(p.seed^7);
	dst.resize(std::min<size_t>(src.size(),p.tprefix)); { Bytes ti=seg_bytes(p.tinit,p.cp); for(size_t i=dst.size();i<src.size();i++) dst.push_back(i<ti.size()?ti[i]:src[i]); }
	for(size_t i=0;i<p.textra;i++) dst.push_back((u8)rr.next());
	for(auto&f:p.tflips) if(dst.size()) dst[f.off%dst.size()]^=(u8)(f.x%255+1);
	if(p.tsmall&&dst.size()) dst.resize(src.size()? src.size()-1-(p.textra%src.size()) : 0);
	u64 hat=0; for(size_t q=0;q<p.segs.size()&&q<p.holeat;q++) hat+=p.segs[q].len; hat=std::min<u64>(hat,std::min(src.size(),dst.size()));
	auto si=w.mk("/sim/src",R_SRC,p.srcblk,src); InodeP di; if(!p.tmissing) di=w.mk("/sim/target",R_TARGET,p.tblk,dst);
	if(p.hole){ si->hole=p.hole; si->holeat=hat; if(di){ di->hole=p.hole; di->holeat=hat; } w.opcap=300000+p.hole/500; w.hangsecs=25; }
	w.image=src; w.imask.assign(src.size(),1); w.image_valid=true;
	std::vector<Str> argv={"patchdd","/sim/src","/sim/target"};
	if(p.tkind==4){ Rng r(p.argseed); static const char*pool[]={"-h","--help","/sim/src","/sim/target","/sim/none","","/sim"}; argv={"patchdd"}; size_t n=r.below(4); for(size_t i=0;i<n;i++) argv.push_back(pool[r.below(7)]); w.image_valid=false; }
	if(p.bad) switch(p.bad){ case 1: argv.resize(1+p.badarg%2); break; case 2: argv[1]="/sim/none"; break; case 3: argv[2]=p.badarg%2?"/sim/none":"/sim/no/none"; break; case 4: argv[1]="/sim"; break; default: argv[2]="/sim"; }
	w.explicitf=!p.randomfaults; for(auto&f:p.faults) w.emap[{(u32)f.inc,(u32)f.op,(u32)f.role,f.occ}]=f; w.rng=Rng(p.seed^0xfa017);
	bool small=dst.size()<src.size();
	for(size_t k=0;k<p.incs.size();k++){
		auto&ic=p.incs[k]; w.cur=(int)k; w.rates=ic.rates; w.crash_at=ic.crash.kind?ic.crash.at:0; w.crash_seed=ic.crash.seed;
		if(ic.healthy&&di) di->sync();
		Bytes before=di?di->cache:Bytes();
		ProcResult r=run_process(w,TOOL_PATCHDD,argv);
		if(r.outcome==OUT_CRASH){ if(ic.crash.kind==2) R.crashes_power++; else R.crashes_kill++; }
		auto V=[&](int kind,Str m){ R.v.push_back({kind,(int)k,m}); };
		R.hash=fnv(R.hash,&r.hash,8); R.simtime+=r.cpuhang?0:r.dt; R.ops+=r.cpuhang?0:r.ops; R.inc_ops.push_back(r.ops); R.nincs++; R.outcomes.push_back(r.outcome*1000+r.code); for(auto&f:r.fired) R.fired.push_back(f); R.oplogs.push_back(r.oplog);
		bool ok=r.outcome==OUT_EXIT&&r.code==0; bool benignonly=true,tread=true; for(auto&f:r.fired) { if(!((f.f.kind==F_SHORT||f.f.kind==F_EINTR)&&(f.f.op==O_READ||f.f.op==O_WRITE))&&f.f.role!=R_STD) benignonly=false; if(f.f.role==R_TARGET&&f.f.op==O_READ&&f.f.kind!=F_SHORT&&f.f.kind!=F_EINTR) tread=false; }
		if(r.outcome==OUT_HANG) V(K_HANG,"the run does not end"); if(r.cpuhang) break;
		if(r.outcome==OUT_ABORT||r.outcome==OUT_SIGNAL) V(K_CRASH,sf("the run crashes (signal %d)",r.sig));
		if(r.outcome==OUT_HEAP) V(K_CRASH,"memory error: "+r.heapmsg); else if(r.heapbad) V(K_MEM,"memory error: "+r.heapmsg);
		if(p.bad||(p.tkind!=4&&(small||p.tmissing))){ R.probes["run that could not be set up"]++; if(ok) V(K_SETUP,"success although the command line cannot be used"); if(!r.tw.empty()) V(K_SETUP,"the destination was written although the command line cannot be used"); for(auto&c:r.contain) V(K_SETUP,c); }
		if(p.tkind!=4){ bool std=false; for(auto&f:r.fired) if(f.f.role==R_STD&&f.f.op<=O_IOCTL) std=true;
			if(!w.outtty()&&!std&&r.outev.size()<20000&&!percents(r).empty()) V(K_PROGRESS,"progress is printed although standard output is not a terminal");
			if(w.outtty()&&!std&&r.outev.size()<20000){ auto pc=percents(r); int last=0; for(auto&x:pc){ if(x.second>100||x.second<last){ V(K_PROGRESS,sf("%d%% is shown after %d%%",x.second,last)); break; } last=x.second; } if(ok&&(src.size()||p.hole)&&!pc.empty()&&last!=100) V(K_PROGRESS,sf("the last percentage shown by a successful run is %d",last));
				if(ok&&src.size()&&pc.empty()) V(K_PROGRESS,"a successful run on a terminal shows no progress"); for(auto&x:pc) if(x.second==100) for(auto&t:r.tw) if(t.op>x.first){ V(K_PROGRESS,"100% is shown before the last write"); break; } if(!pc.empty()) R.probes["progress shown on a terminal"]++; }
		}
		if(p.tkind!=4&&!p.bad){
			for(auto&c:r.contain) V(K_DD_WRITE,c);
			if(si->modified) V(K_DD_WRITE,"the source was modified");
			for(auto&t:r.tw) if(!t.good){ V(K_DD_WRITE,sf("write of %u bytes at %llu is not source data at its position",t.len,(unsigned long long)t.off)); break; }
			if(di){ for(size_t i=src.size();i<before.size()&&i<di->cache.size();i++) if(before[i]!=di->cache[i]){ V(K_DD_WRITE,"bytes beyond the source's length changed"); break; } if(di->cache.size()!=before.size()) V(K_DD_WRITE,"the size of the destination changed"); }
			if(di&&small){ if(ok) V(K_DD_WRONG,"success with a destination that is too small"); if(!r.tw.empty()) V(K_DD_WRITE,"a destination that is too small was modified"); }
			bool match=di&&!small&&memcmp(before.data(),src.data(),src.size())==0;
			if(match&&tread&&!r.tw.empty()) V(K_DD_WRITE,"a destination that already matched was written");
			if(match) R.probes["destination already matched"]++;
			if(ok&&di&&!small){ if(di->cache.size()<src.size()||memcmp(di->cache.data(),src.data(),src.size())) V(K_DD_WRONG,"exit 0 but the destination differs from the source"); else if(di->dur.size()<src.size()||memcmp(di->dur.data(),src.data(),src.size())) V(K_DD_WRONG,"exit 0 but the copy is not on stable storage"); if(r.wb_failed) V(K_DD_WRONG,"exit 0 although written data was reported lost"); }
			if(ok&&!di) V(K_DD_WRONG,"success without a destination");
			if(!ok&&r.outcome==OUT_EXIT&&di&&!small&&benignonly&&!r.wb_failed) V(K_DD_WRONG,"the copy failed although nothing prevented it");
		}
		if(r.fd_peak>9) V(K_FD_BOUND,"too many descriptors"); if(r.peak>16u<<20) V(K_MEMORY_BOUND,"too much memory");
		u64 th=di?fnv(5,di->cache.data(),di->cache.size()):0; R.hash=fnv(R.hash,&th,8);
		u64 s=h2(r.outcome*4+ok,std::min<size_t>(r.tw.size(),30)); for(auto&f:r.fired) s=h2(s,((u64)f.f.op<<16)|(f.f.role<<8)|f.f.kind); s=h2(s,r.outcome==OUT_CRASH?r.ops:0); R.sig=h2(R.sig,s);
		if(ok) R.probes["copy succeeded"]++; else R.probes["copy failed or interrupted"]++;
		if(!r.fired.empty()||r.outcome==OUT_CRASH||!r.tw.empty()) R.nontrivial=true;
		if(ic.crash.kind==2){ w.powerloss(ic.crash.mode,ic.crash.seed); w.tr("power lost"); if(ok&&di&&!small&&p.tkind!=4&&memcmp(di->cache.data(),src.data(),src.size())) V(K_DD_WRONG,"the copy did not survive a power loss after success"); }
		if(verbose&&r.log.size()) w.trace.push_back("   log: "+r.log.substr(0,2000));
	}
	if(verbose) for(auto&t:w.trace) R.trace.push_back(t);
	W=nullptr;
}

void (*plan_hook)(const Plan&p);
RunResult run_plan(const Plan&p,bool verbose)
{
	if(plan_hook) plan_hook(p);
	RunResult R; R.hash=1469598103934665603ull;
	if(p.tool==TOOL_CRYPT) run_crypt(p,verbose,R);
	else if(p.tool==TOOL_PATCHDD) run_patchdd(p,verbose,R);
	else {
		auto A=run_csn(p,p.casync,true,verbose,R);
		bool setup=false; for(auto&f:R.fired) if(f.f.op==O_SOCK) setup=true; // kernel hashing that cannot be set up is an error, not a fallback
		if(p.pair&&!p.bad&&!p.order.empty()&&!((p.pair==3||p.pair==1)&&(setup||p.kcapi>1))){
			Plan q=p; q.randomfaults=false; q.faults.clear(); bool casync=p.casync;
			for(auto&f:R.fired){ bool ben=(f.f.kind==F_SHORT||f.f.kind==F_EINTR)&&(f.f.op==O_READ||f.f.op==O_WRITE); if(p.pair==2&&ben) continue; if(p.pair==3&&(f.f.op==O_SEND||f.f.op==O_RECV)) continue; if(p.pair==4&&(f.f.op==O_CLOCK||f.f.role==R_STD)&&f.f.op!=O_HTTP) continue; q.faults.push_back(f.f); }
			if(p.pair==1) casync=!casync; if(p.pair==3) q.kcapi=0;
			if(verbose) R.trace.push_back("==== the same history once more for comparison");
			RunResult R2; R2.hash=R.hash; auto B=run_csn(q,casync,false,verbose,R2); R.hash=R2.hash; for(auto&t:R2.trace) R.trace.push_back(t); R.simtime+=R2.simtime; R.ops+=R2.ops;
			static const char*what[]={"","the other front end","full, uninterrupted transfers","software hashing","other surroundings (terminal, log, clock, memory contents, network timing)"}; int K=p.pair==4?K_INPUTS:K_EQUIV;
			for(size_t k=0;k<A.size()&&k<B.size();k++){
				bool oa=A[k].outcome==OUT_EXIT&&A[k].code==0, ob=B[k].outcome==OUT_EXIT&&B[k].code==0;
				if(oa!=ob){ R.v.push_back({K,(int)k,sf("%s but %s with %s",oa?"success":"failure",ob?"success":"failure",what[p.pair])}); break; }
				if(A[k].thash!=B[k].thash){ R.v.push_back({K,(int)k,sf("different target contents with %s",what[p.pair])}); break; }
				if(A[k].http!=B[k].http){ R.v.push_back({K,(int)k,sf("different HTTP requests (%zu instead of %zu) with %s",A[k].http.size(),B[k].http.size(),what[p.pair])}); break; }
			}
		}
	}
	for(auto&v:R.v){ u64 x[2]={(u64)v.kind,(u64)v.inc}; R.hash=fnv(R.hash,x,16); }
	return R;
}

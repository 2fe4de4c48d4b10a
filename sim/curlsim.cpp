// libcurl's easy interface over simulated HTTP servers. No packet ever leaves the process.
#include "sim.hpp"
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <zstd.h>
#include <openssl/sha.h>

struct SCurl { std::map<int,long> l; std::map<int,void*> p; std::map<int,i64> o; std::map<int,Str> s; Str url; bool haveurl=false; long code=0; Str effurl; double total=0; i64 size=0; bool live=true; std::shared_ptr<Ofd> conn; int cfd=-1; };
void conn_open(std::shared_ptr<Ofd>&,int&); void conn_close(std::shared_ptr<Ofd>&,int&);
static std::vector<SCurl*> handles;
void curlsim_cleanup(){ for(auto h:handles) delete h; handles.clear(); }
static bool isfail(int role){ Fault*f=W->decide(O_CURLCFG,role); return f&&f->kind==F_EIO; }
static bool nomem(){ W->nalloc++; Fault*f=W->decide(O_ALLOC,0); return f&&f->kind==F_NULL; }

Bytes zcomp(const u8*p,size_t n,int level,int flags)
{
	static ZSTD_CCtx*c; if(!c) c=ZSTD_createCCtx();
	ZSTD_CCtx_reset(c,ZSTD_reset_session_and_parameters);
	ZSTD_CCtx_setParameter(c,ZSTD_c_compressionLevel,level);
	ZSTD_CCtx_setParameter(c,ZSTD_c_checksumFlag,flags&1);
	ZSTD_CCtx_setParameter(c,ZSTD_c_contentSizeFlag,(flags&2)?0:1);
	Bytes o(ZSTD_compressBound(n)+64);
	if(flags&4){ // streamed with flushes: several blocks per frame
		ZSTD_outBuffer ob={o.data(),o.size(),0}; size_t step=n/3+1; o.resize(o.size()+4096); ob.dst=o.data(); ob.size=o.size();
		for(size_t i=0;i<n;i+=step){ ZSTD_inBuffer ib={p+i,std::min(step,n-i),0}; ZSTD_compressStream2(c,&ob,&ib,ZSTD_e_flush); }
		ZSTD_inBuffer ib={nullptr,0,0}; ZSTD_compressStream2(c,&ob,&ib,ZSTD_e_end); o.resize(ob.pos); return o;
	}
	size_t r=ZSTD_compress2(c,o.data(),o.size(),p,n); o.resize(ZSTD_isError(r)?0:r); return o;
}
static Bytes zcached(const u8*p,size_t n,int level,int flags) // high levels are slow and the same chunks are encoded again and again
{
	if(level<9) return zcomp(p,n,level,flags);
	static std::map<std::pair<Id,int>,Bytes> cache; static size_t sz; Id k; SHA256(p,n,k.data()); auto it=cache.find({k,level*8+flags}); if(it!=cache.end()) return it->second;
	Bytes b=zcomp(p,n,level,flags); if(sz>(32u<<20)){ cache.clear(); sz=0; } sz+=b.size(); cache[{k,level*8+flags}]=b; return b;
}
Bytes srv_encode(const Server&s,const Id&nonceid,const u8*p,size_t n)
{
	Bytes b=zcached(p,n,s.h.zlevel,s.h.zflags);
	if(s.h.enc){ Bytes e(b.size()); ref_xchacha(e.data(),b.data(),b.size(),s.key,nonceid.data()); return e; }
	return b;
}
static Bytes encwrap(const Server&s,const Id&id,const Bytes&b){ if(!s.h.enc) return b; Bytes e(b.size()); if(b.size()) ref_xchacha(e.data(),b.data(),b.size(),s.key,id.data()); return e; }

static int unhex(char c){ if(c>='0'&&c<='9') return c-'0'; if(c>='a'&&c<='f') return c-'a'+10; return -1; }
// <base>/<hhhh>/<64 hex>.cacnk[.enc]
static bool parse_url(const Str&u,int&srv,Id&id,bool&wrongext)
{
	srv=-1; size_t best=0;
	for(size_t i=0;i<W->servers.size();i++){ auto&b=W->servers[i].base; bool e=u.size()>4&&u.compare(u.size()-4,4,".enc")==0; if(u.size()>b.size()&&u.compare(0,b.size(),b)==0&&u[b.size()]=='/'&&(b.size()>best||(b.size()==best&&W->servers[i].h.enc==e))){ srv=(int)i; best=b.size(); } }
	wrongext=false; if(srv<0) return false;
	Str r=u.substr(best+1); if(r.size()<5+64+6||r[4]!='/') return false;
	for(int i=0;i<4;i++) if(r[i]!=r[5+i]) return false;
	for(int i=0;i<32;i++){ int a=unhex(r[5+2*i]),b=unhex(r[6+2*i]); if(a<0||b<0) return false; id[i]=(u8)(a<<4|b); }
	Str ext=r.substr(69); Str want=W->servers[srv].h.enc?".cacnk.enc":".cacnk";
	if(ext!=want){ wrongext=true; if(ext!=".cacnk"&&ext!=".cacnk.enc") return false; }
	return true;
}

extern "C" {
CURLcode curl_global_init(long){ if(isfail(2)) return CURLE_FAILED_INIT; return CURLE_OK; }
void curl_global_cleanup(void){}
CURL*curl_easy_init(void){ W->enter(O_SOCK,3); if(nomem()) return nullptr; auto*s=new SCurl; handles.push_back(s); W->ccur++; if(W->ccur>W->cpeak) W->cpeak=W->ccur; return (CURL*)s; }
void curl_easy_cleanup(CURL*c){ if(!c) return; auto*s=(SCurl*)c; if(!s->live){ W->heapbad=true; W->heapmsg="curl handle released twice"; return; } s->live=false; W->ccur--; conn_close(s->conn,s->cfd); }
void curl_easy_reset(CURL*c){ auto*s=(SCurl*)c; s->l.clear(); s->p.clear(); s->o.clear(); s->s.clear(); s->haveurl=false; }
CURL*curl_easy_duphandle(CURL*c){ auto*s=(SCurl*)c; CURL*n=curl_easy_init(); if(n){ SCurl*t=(SCurl*)n; *t=*s; t->live=true; t->conn=nullptr; t->cfd=-1; } return n; }
CURLcode curl_easy_setopt(CURL*c,CURLoption opt,...)
{
	va_list a; va_start(a,opt); auto*s=(SCurl*)c; int o=(int)opt;
	if(!s->live){ va_end(a); W->heapbad=true; W->heapmsg="use of a released curl handle"; return CURLE_FAILED_INIT; }
	if(W->running&&isfail(0)){ va_end(a); return CURLE_OUT_OF_MEMORY; }
	if(o<10000) s->l[o]=va_arg(a,long); else if(o<30000){ void*v=va_arg(a,void*); if(opt==CURLOPT_URL){ s->url=v?(const char*)v:""; s->haveurl=v!=nullptr; } else s->p[o]=v;
		switch(o){ case CURLOPT_USERAGENT: case CURLOPT_REFERER: case CURLOPT_USERPWD: case CURLOPT_COOKIE: case CURLOPT_CUSTOMREQUEST: case CURLOPT_POSTFIELDS: case CURLOPT_COPYPOSTFIELDS: case CURLOPT_RANGE: case CURLOPT_XOAUTH2_BEARER: case CURLOPT_USERNAME: case CURLOPT_PASSWORD: if(v) s->s[o]=(const char*)v; } } else if(o<40000) s->o[o]=va_arg(a,curl_off_t); else s->p[o]=va_arg(a,void*);
	va_end(a); return CURLE_OK;
}
const char*curl_easy_strerror(CURLcode c){ switch(c){ case CURLE_OK: return "No error"; case CURLE_COULDNT_CONNECT: return "Couldn't connect to server"; case CURLE_COULDNT_RESOLVE_HOST: return "Couldn't resolve host name"; case CURLE_OPERATION_TIMEDOUT: return "Timeout was reached"; case CURLE_RECV_ERROR: return "Failure when receiving data from the peer"; case CURLE_WRITE_ERROR: return "Failed writing received data to disk/application"; default: return "some error"; } }
struct curl_slist*curl_slist_append(struct curl_slist*l,const char*d){ auto*n=(struct curl_slist*)calloc(1,sizeof(*l)); n->data=strdup(d); if(!l) return n; auto*p=l; while(p->next) p=p->next; p->next=n; return l; }
void curl_slist_free_all(struct curl_slist*l){ while(l){ auto*n=l->next; free(l->data); free(l); l=n; } }
char*curl_version(void){ return (char*)"libcurl/8.5.0"; }
char*curl_easy_escape(CURL*,const char*s,int){ return strdup(s); }
void curl_free(void*p){ free(p); }
CURLcode curl_easy_getinfo(CURL*c,CURLINFO info,...)
{
	va_list a; va_start(a,info); void*out=va_arg(a,void*); va_end(a); auto*s=(SCurl*)c;
	if(isfail(1)) return CURLE_BAD_FUNCTION_ARGUMENT;
	switch((int)info){
	case CURLINFO_RESPONSE_CODE: *(long*)out=s->code; return CURLE_OK;
	case CURLINFO_EFFECTIVE_URL: *(char**)out=(char*)s->effurl.c_str(); return CURLE_OK;
	case CURLINFO_TOTAL_TIME: *(double*)out=s->total; return CURLE_OK;
	case CURLINFO_SIZE_DOWNLOAD_T: *(curl_off_t*)out=s->size; return CURLE_OK;
	case CURLINFO_OS_ERRNO: *(long*)out=0; return CURLE_OK;
	}
	if(((int)info&CURLINFO_TYPEMASK)==CURLINFO_LONG){ *(long*)out=0; return CURLE_OK; }
	return CURLE_UNKNOWN_OPTION;
}
}
extern volatile u64 g_progress;
static void tick(u64 ns){ g_progress=g_progress+1; W->now+=ns; if(W->timecap&&W->now-W->incstart>W->timecap){ W->tr("simulated time limit exceeded"); W->die(OUT_HANG); } }

static const int STCODES[]={400,401,403,408,416,429,451,500,501,502,503,504,507,206,203,204,304,302,520};

// Delivers one response body piecewise. Returns a curl code.
struct Deliver { SCurl*s; size_t total=0; Rng rng{0}; int mode=0; size_t piece=0; bool refused=false; size_t maxpiece=16384; };
static size_t piece_len(Deliver&d,size_t left)
{
	size_t n=d.maxpiece;
	switch(d.mode){
	case 0: break;
	case 1: n=1; break;
	case 2: n=1+d.rng.below(8); break;
	case 3: n= d.piece<12? 1+d.rng.below(2) : 16384; break;
	case 4: n=1+d.rng.below(200); break;
	case 5: { int k=(int)d.rng.below(10); n= k<3?1: k<5?3: k<7?1+d.rng.below(64): k<9?1+d.rng.below(1000):16384; break; }
	case 6: n= d.piece==0? 1+d.rng.below(20) : 16384; break;
	case 7: n=left>1?left-1:1; break;
	case 8: n=64; break;
	}
	d.piece++;
	if(d.mode==1&&d.piece>3000) n=16384; if((d.mode==2||d.mode==4||d.mode==8)&&d.piece>4000) n=16384;
	return std::min(std::min(n,left),d.maxpiece);
}
static bool deliver(Deliver&d,const u8*p,size_t n)
{
	auto cb=(size_t(*)(char*,size_t,size_t,void*))d.s->p[CURLOPT_WRITEFUNCTION]; void*ud=d.s->p[CURLOPT_WRITEDATA];
	size_t i=0;
	while(i<n){
		size_t k=piece_len(d,n-i);
		char*tmp=(char*)malloc(k); memcpy(tmp,p+i,k);
		size_t r= cb? cb(tmp,1,k,ud) : k;
		memset(tmp,0x5A,k); free(tmp);
		d.total+=k; tick(1000+k*20); W->ev(k,r,33);
		if(r!=k){ d.refused=true; return false; }
		i+=k;
	}
	return true;
}

extern "C" CURLcode curl_easy_perform(CURL*c)
{
	auto*s=(SCurl*)c;
	if(!s->live){ W->heapbad=true; W->heapmsg="use of a released curl handle"; W->die(OUT_HEAP); }
	int srv; Id id{}; bool wext=false; bool ok=parse_url(s->url,srv,id,wext);
	char*eb=(char*)s->p[CURLOPT_ERRORBUFFER]; if(eb) eb[0]=0;
	s->code=0; s->effurl=s->url; s->size=0;
	W->enter(O_HTTP,srv<0?0:srv);
	HttpRec rec{}; rec.op=W->ops; rec.t0=W->now; rec.server=srv; rec.id=id; rec.badurl=!ok; rec.wrongext=wext; rec.live=W->live;
	W->live_at_req.push_back(W->live);
	W->http.push_back(rec); size_t ri=W->http.size()-1;
	W->ev(srv,ok,fnv(3,id.data(),32));
	W->tr("GET %s",s->url.c_str());
	W->leaktail[50].clear(); { size_t hash=s->url.find('#'); W->scan(50,s->url.data(),hash==Str::npos?s->url.size():hash,"a request"); } // what follows a # is not sent
	for(int o:{(int)CURLOPT_USERAGENT,(int)CURLOPT_REFERER,(int)CURLOPT_USERPWD,(int)CURLOPT_COOKIE,(int)CURLOPT_CUSTOMREQUEST,(int)CURLOPT_POSTFIELDS,(int)CURLOPT_COPYPOSTFIELDS,(int)CURLOPT_RANGE,(int)CURLOPT_XOAUTH2_BEARER,(int)CURLOPT_USERNAME,(int)CURLOPT_PASSWORD}) if(s->s.count(o)){ auto&v=s->s[o]; W->leaktail[51].clear(); W->scan(51,v.data(),v.size(),"a request"); }
	if(s->p.count(CURLOPT_HTTPHEADER)) for(auto*l=(struct curl_slist*)s->p[CURLOPT_HTTPHEADER];l;l=l->next){ W->leaktail[52].clear(); W->scan(52,l->data,strlen(l->data),"a request"); }
	auto fin=[&](CURLcode r){ if(r!=CURLE_OK||Rng(h2(W->latseed,h2(777,ri))).pct(40)) conn_close(s->conn,s->cfd); // a failed transfer or the server ends the connection
		HttpRec&h=W->http[ri]; h.t1=W->now; h.curl=r; h.status=(int)s->code; s->total=(W->now-h.t0)/1e9; h.transient=(r==CURLE_COULDNT_CONNECT||r==CURLE_COULDNT_RESOLVE_HOST||r==CURLE_OPERATION_TIMEDOUT);
		h.hard=r!=CURLE_OK&&!h.transient&&r!=CURLE_WRITE_ERROR; if(r!=CURLE_OK&&eb){ Str m=Str("simulated: ")+curl_easy_strerror(r); if((h.t0/7+W->ops)%3==0){ m+=" for http://"; while(m.size()<CURL_ERROR_SIZE) m+="%s/0123456789abcdef"; } snprintf(eb,CURL_ERROR_SIZE,"%s",m.c_str()); } 
		W->ev(r,s->code,W->now); W->tr(" -> curl %d status %ld",(int)r,s->code); return r; };
	if(srv<0) { tick(1000000); return fin(CURLE_COULDNT_RESOLVE_HOST); }
	if(srv>=0) W->servers[srv].nreq++;
	Rng lr(h2(W->latseed,h2(W->cur,ri))); 
	u64 lat=200000+lr.below(W->latseed%3==0?1000000:80000000);
	Fault*fp=W->decide(O_HTTP,srv); Fault f=fp?*fp:Fault{0,0,0,0,0,0};
	W->http[ri].fk=f.kind;
	long lst= s->l.count(CURLOPT_LOW_SPEED_TIME)?s->l[CURLOPT_LOW_SPEED_TIME]:0, lsl=s->l.count(CURLOPT_LOW_SPEED_LIMIT)?s->l[CURLOPT_LOW_SPEED_LIMIT]:0;
	u64 tmo= s->l.count(CURLOPT_TIMEOUT_MS)?(u64)s->l[CURLOPT_TIMEOUT_MS]*1000000: s->l.count(CURLOPT_TIMEOUT)?(u64)s->l[CURLOPT_TIMEOUT]*1000000000ull:0;
	u64 cto= s->l.count(CURLOPT_CONNECTTIMEOUT_MS)?(u64)s->l[CURLOPT_CONNECTTIMEOUT_MS]*1000000: s->l.count(CURLOPT_CONNECTTIMEOUT)?(u64)s->l[CURLOPT_CONNECTTIMEOUT]*1000000000ull:300000000000ull;
	bool follow=s->l.count(CURLOPT_FOLLOWLOCATION)&&s->l[CURLOPT_FOLLOWLOCATION]; long maxr=s->l.count(CURLOPT_MAXREDIRS)?s->l[CURLOPT_MAXREDIRS]:30;
	bool foe=s->l.count(CURLOPT_FAILONERROR)&&s->l[CURLOPT_FAILONERROR];
	auto stall=[&](){ // nothing more will ever arrive
		u64 w=0; if(lst>0&&lsl>0) w=(u64)lst*1000000000ull; if(tmo&&(!w||tmo<w)) w=tmo;
		if(!w){ W->tr("transfer stalled for ever"); W->die(OUT_HANG); }
		tick(w); };
	// a pause of that many ns: does the client lose patience?
	auto wait=[&](u64 ns)->bool{ u64 w=0; if(lst>0&&lsl>0) w=(u64)lst*1000000000ull; if(tmo&&(!w||tmo<w)) w=tmo; if(w&&ns>=w){ tick(w); return false; } tick(ns); return true; };
	switch(f.kind){
	case H_REFUSED: tick(1000000); return fin(CURLE_COULDNT_CONNECT);
	case H_DNS: tick(50000000); return fin(CURLE_COULDNT_RESOLVE_HOST);
	case H_CTIMEOUT: tick(cto); return fin(CURLE_OPERATION_TIMEDOUT);
	case H_TLS: tick(lat); return fin(CURLE_SSL_CONNECT_ERROR);
	case H_EMPTYREPLY: tick(lat); return fin(CURLE_GOT_NOTHING);
	}
	tick(lat); conn_open(s->conn,s->cfd);
	Server&S=W->servers[srv];
	Bytes body; int code=200; bool have=ok&&!wext;
	auto it=S.body.find(id); if(have&&it==S.body.end()) have=false;
	bool authentic=false;
	auto nt=W->near.find(id); bool near=false;
	if(ok&&!wext&&!have&&nt!=W->near.end()&&S.body.count(nt->second)&&lr.pct(75)) near=true; // the server answers with the chunk whose id is nearly this one
	static const char html[]="<html><head><title>error</title></head><body>something went wrong</body></html>";
	Bytes page(html,html+sizeof html-1);
	if(near){ auto&c=W->content[nt->second]; body=srv_encode(S,id,c.data(),c.size()); if(!f.kind) W->http[ri].fk=H_BODYOTHER; }
	else if(!have){ code=404; if(lr.pct(60)) body=page; } else { body=it->second; authentic=true; }
	Rng ar(f.arg*977+5);
	auto content=W->content.find(id);
	switch(f.kind){
	case H_STATUS: { code=STCODES[f.arg%(sizeof STCODES/sizeof*STCODES)]; int m=(int)((f.arg/64)%3); authentic=false; if(m==0) body=page; else if(m==1) body.clear(); /* m==2: the chunk itself with that status */ if(code==204||code==304) body.clear(); break; }
	case H_STALL: if((f.arg>>6)%5==1){ code=STCODES[(f.arg>>9)%13]; authentic=false; body=page; } break;
	case H_NOTFOUND: code=f.arg%2?404:410; authentic=false; { int m=(int)((f.arg/2)%3); if(m==0) body=page; else if(m==1) body.clear(); } break;
	case H_REDIRLOOP: if(follow){ if(maxr<0){ W->tr("endless redirects followed for ever"); W->die(OUT_HANG); } for(long i=0;i<maxr;i++) tick(2000000); s->code=302; return fin(CURLE_TOO_MANY_REDIRECTS); } code=302; body=page; authentic=false; break;
	case H_REDIRECT: { long n=1+f.arg%5; W->http[ri].redirected=true; if(!follow||(maxr>=0&&n>maxr)){ if(follow){ s->code=302; return fin(CURLE_TOO_MANY_REDIRECTS); } code=302; body=page; authentic=false; } else for(long i=0;i<n;i++) tick(3000000); break; }
	case H_BODYFLIP: if(have&&body.size()){ authentic=false; body[(f.arg>>8)%body.size()]^=(u8)((f.arg&255)?f.arg&255:0x40); } break;
	case H_BODYOTHER: if(have&&W->idlist.size()>1){ authentic=false; Id o=W->idlist[f.arg%W->idlist.size()]; if((f.arg>>21)%3==0) for(size_t k=0;k<W->idlist.size();k++){ const Id&c=W->idlist[(f.arg+k)%W->idlist.size()]; if(c!=id&&W->content[c].size()>=262144){ o=c; break; } } if(o!=id){ auto&cc=W->content[o]; body=(f.arg>>20)&1? srv_encode(S,o,cc.data(),cc.size()) : srv_encode(S,id,cc.data(),cc.size()); } else authentic=true; } break;
	case H_BODYTRUNC: if(have&&body.size()){ authentic=false; body.resize(ar.below(body.size())); } break;
	case H_BODYGARBAGE: if(have){ authentic=false; body.resize(ar.below(3000)); for(auto&x:body) x=(u8)ar.next(); if((f.arg&1)&&body.size()>4){ memcpy(body.data(),"\x28\xb5\x2f\xfd",4); if(f.arg&2) body=encwrap(S,id,body); } } break;
	case H_BODYRAW: if(have){ authentic=false; body=content->second; if(f.arg&1) body=encwrap(S,id,body); } break;
	case H_BODYEMPTY: if(have){ authentic=false; body.clear(); } break;
	case H_BODYBOMB: if(have){ authentic=false; Bytes b=content->second; b.resize(b.size()+(f.arg&1?300000:4u<<20)); body=encwrap(S,id,zcomp(b.data(),b.size(),1,(int)(f.arg>>1)&3)); if(f.arg&8) { Bytes g(400000); for(auto&x:g) x=(u8)ar.next(); b=content->second; b.insert(b.end(),g.begin(),g.end()); body=encwrap(S,id,zcomp(b.data(),b.size(),1,0)); } } break;
	case H_BODYTRAIL: if(have){ authentic=false; size_t n=1+ar.below(200); for(size_t i=0;i<n;i++) body.push_back((u8)ar.next()); } break;
	case H_BODYCROSS: if(have){ authentic=false; Bytes b=content->second; if(f.arg&1) b.push_back((u8)ar.next()); else if(b.size()) { if(f.arg&2) b.pop_back(); else b.erase(b.begin()); } body=srv_encode(S,id,b.data(),b.size()); } break;
	case H_BODYMULTI: if(have){ authentic=false; auto&b=content->second; size_t h=b.size()/2; Bytes x=zcomp(b.data(),h,3,0),y=zcomp(b.data()+h,b.size()-h,3,0); Bytes sk={0x50,0x2a,0x4d,0x18,4,0,0,0,1,2,3,4}; if(f.arg&1) x.insert(x.end(),sk.begin(),sk.end()); x.insert(x.end(),y.begin(),y.end()); body=encwrap(S,id,x); } break;
	}
	s->code=code;
	if(!follow&&code==302) {}
	if(foe&&code>=400) return fin(CURLE_HTTP_RETURNED_ERROR);
	Deliver d; d.s=s; d.mode=W->frag==9?(int)lr.below(9):W->frag; d.rng=Rng(h2(W->fragseed,h2(W->cur,ri)));
	if(s->l.count(CURLOPT_BUFFERSIZE)&&s->l[CURLOPT_BUFFERSIZE]>=1024) d.maxpiece=std::min<size_t>(s->l[CURLOPT_BUFFERSIZE],524288); 
	if(d.maxpiece>16384&&!s->l.count(CURLOPT_BUFFERSIZE)) d.maxpiece=16384;
	size_t n=body.size(); if(n>W->maxbody) W->maxbody=n;
	CURLcode res=CURLE_OK;
	if(f.kind==H_BODYENDLESS&&have){
		Bytes blk; u8 hdr[]={0x28,0xb5,0x2f,0xfd,0x00,0x58}; blk.insert(blk.end(),hdr,hdr+6);
		d.mode=0; size_t sent=0; u64 lim=64u<<20; bool first=true; u64 pos=0;
		for(;;){
			Bytes pc; if(first){ pc=blk; first=false; } 
			if(f.arg%3==0) pc.resize(pc.size()+15000,0); // empty blocks
			else if(f.arg%3==1){ pc.clear(); for(int k=0;k<1500;k++){ u8 sk[10]={0x50,0x2a,0x4d,0x18,2,0,0,0,1,2}; pc.insert(pc.end(),sk,sk+10); } } // skippable frames
			else { for(int k=0;k<60;k++){ u8 bh[3]={0xc8,0x07,0x00}; pc.insert(pc.end(),bh,bh+3); for(int j=0;j<249;j++) pc.push_back((u8)ar.next()); } } // raw blocks of 249 bytes
			if(S.h.enc){ // keep the key stream position: encrypt with a growing buffer is costly, so restart per block boundary
				Bytes whole(pos+pc.size()); memcpy(whole.data()+pos,pc.data(),pc.size()); Bytes e=encwrap(S,id,whole); pc.assign(e.begin()+pos,e.end()); }
			pos+=pc.size();
			if(!deliver(d,pc.data(),pc.size())){ res=CURLE_WRITE_ERROR; break; }
			sent+=pc.size(); if(sent>W->maxbody) W->maxbody=std::min<u64>(sent,1u<<20);
			if(S.h.enc) lim=4u<<20;
			if(sent>lim){ W->tr("an endless response was read without end"); W->die(OUT_HANG); }
		}
		W->http[ri].delivered=d.total; return fin(res);
	}
	size_t cut=n; 
	if(f.kind==H_RESET||f.kind==H_PARTIAL||f.kind==H_STALL||f.kind==H_PAUSE) cut=n?ar.below(n+1):0;
	if(f.kind==H_STALL&&(f.arg&3)==0) { cut=0; if(f.arg&4) s->code=0; }
	if((f.kind==H_STALL||f.kind==H_PARTIAL||f.kind==H_RESET)&&(f.arg&3)==1) cut=(f.arg&4)||n<8?n:n-1-ar.below(6);
	if(f.kind==H_DRIP){
		double t=0; size_t lim=n; // one byte every two seconds
		for(size_t i=0;i<lim;i++){
			if(lst>0&&lsl>0&&lsl>=1&&t>=lst){ W->http[ri].delivered=d.total; return fin(CURLE_OPERATION_TIMEDOUT); }
			if(tmo&&t*1e9>=tmo){ return fin(CURLE_OPERATION_TIMEDOUT); }
			tick(2000000000ull); t+=2; d.mode=1; if(!deliver(d,&body[i],1)) return fin(CURLE_WRITE_ERROR);
		}
		W->http[ri].delivered=d.total; W->http[ri].served_ok=authentic&&code==200; return fin(CURLE_OK);
	}
	if(!n&&lr.pct(50)){ auto cb=(size_t(*)(char*,size_t,size_t,void*))s->p[CURLOPT_WRITEFUNCTION]; char*z=(char*)malloc(1); if(cb&&cb(z,1,0,s->p[CURLOPT_WRITEDATA])!=0){ free(z); return fin(CURLE_WRITE_ERROR); } free(z); }
	if(!deliver(d,body.data(),cut)) res=CURLE_WRITE_ERROR;
	else switch(f.kind){
		case H_RESET: res=CURLE_RECV_ERROR; break;
		case H_PARTIAL: res= CURLE_PARTIAL_FILE; break;
		case H_STALL: stall(); res=CURLE_OPERATION_TIMEDOUT; break;
		case H_PAUSE: if(!wait((1+f.arg%11)*1000000000ull)){ res=CURLE_OPERATION_TIMEDOUT; break; } if(!deliver(d,body.data()+cut,n-cut)) res=CURLE_WRITE_ERROR; break;
	}
	W->http[ri].delivered=d.total; s->size=d.total;
	W->http[ri].served_ok= authentic&&code==200&&res==CURLE_OK;
	return fin(res);
}

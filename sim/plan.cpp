// Textual form of a plan: the replay file format.
#include "sim.hpp"
#include <sstream>
#include <stdio.h>
static void segs_out(std::ostringstream&o,const char*k,const std::vector<Seg>&v){ o<<k; for(auto&s:v) o<<" "<<s.kind<<":"<<s.seed<<":"<<s.len; o<<"\n"; }
static void muts_out(std::ostringstream&o,const char*k,const std::vector<Mut>&v){ o<<k; for(auto&m:v) o<<" "<<m.kind<<":"<<m.a<<":"<<m.b; o<<"\n"; }
static void flips_out(std::ostringstream&o,const char*k,const std::vector<Flip>&v){ o<<k; for(auto&m:v) o<<" "<<m.off<<":"<<m.x; o<<"\n"; }
Str plan_to_text(const Plan&p)
{
	std::ostringstream o;
	o<<"casync-nano-sim-plan 1\n";
	o<<"seed "<<p.seed<<"\ntool "<<p.tool<<"\n";
	o<<"params "<<p.cp.min<<" "<<p.cp.avg<<" "<<p.cp.max<<" cdc "<<p.cdc<<"\n";
	segs_out(o,"image",p.segs); muts_out(o,"indexmuts",p.muts);
	o<<"target "<<p.tblk<<" "<<p.tmissing<<" "<<p.tsmall<<" "<<p.tprefix<<" "<<p.tpartial<<" "<<p.textra<<" "<<p.tpad<<" "<<p.hole<<" "<<p.holeat<<"\n";
	segs_out(o,"targetinit",p.tinit); flips_out(o,"targetflips",p.tflips);
	for(auto&l:p.locals){ o<<"local "<<l.blk<<" "<<l.side<<" "<<l.alias<<" "<<l.missing<<" "<<l.pad<<" "<<l.hole<<" "<<l.holeat<<"\n"; segs_out(o," segs",l.segs); flips_out(o," flips",l.flips); segs_out(o," sidesegs",l.sidesegs); muts_out(o," sidemuts",l.sidemuts); }
	for(auto&h:p.https) o<<"http "<<h.enc<<" "<<h.keyspec<<" "<<h.key<<" "<<h.wrongkey<<" "<<h.slash<<" "<<h.https<<" "<<h.missseed<<" "<<h.missp<<" "<<h.zlevel<<" "<<h.zflags<<" "<<h.pad<<" "<<h.same<<"\n";
	o<<"order"; for(auto&r:p.order) o<<" "<<r.type<<":"<<r.idx<<":0"; o<<"\n";
	o<<"front "<<p.casync<<" "<<p.optstyle<<" "<<p.kcapi<<" "<<p.tty<<" "<<p.loglevel<<"\n"; if(p.closed) o<<"closed "<<p.closed<<"\n";
	o<<"net "<<p.frag<<" "<<p.fragseed<<" "<<p.latseed<<"\n";
	o<<"pair "<<p.pair<<"\n"; if(p.bad) o<<"bad "<<p.bad<<" "<<p.badarg<<"\n";
	o<<"toolkind "<<p.tkind<<" "<<p.tkey<<" "<<p.tkeyspec<<" "<<p.targs<<" "<<p.srcblk<<" "<<p.argseed<<" "<<p.user<<" "<<p.samepid<<"\n";
	for(auto&f:p.files) o<<"file "<<f.seed<<" "<<f.len<<" "<<f.encrypted<<" "<<f.pre<<" "<<f.dir<<" "<<f.pad<<"\n";
	o<<"random "<<p.randomfaults<<"\n";
	for(auto&i:p.incs){ o<<"run "<<i.crash.kind<<" "<<i.crash.at<<" "<<i.crash.mode<<" "<<i.crash.seed<<" "<<i.healthy<<"\n";
		if(p.randomfaults) for(auto&r:i.rates) o<<" rate "<<r.op<<" "<<r.role<<" "<<r.kind<<" "<<r.ppm<<" "<<r.from<<" "<<r.to<<" "<<r.max<<" "<<r.argmod<<" "<<r.argadd<<"\n"; }
	if(!p.randomfaults) for(auto&f:p.faults) o<<"fault "<<f.inc<<" "<<f.op<<" "<<f.role<<" "<<f.occ<<" "<<f.kind<<" "<<f.arg<<"   # run "<<f.inc<<": "<<FKN[f.kind<F_KMAX?f.kind:0]<<" at "<<OPN[f.op<O_MAX?f.op:0]<<" #"<<f.occ<<" on "<<(f.op==O_HTTP?"server":ROLEN[f.role<16?f.role:0])<<(f.op==O_HTTP?std::to_string(f.role):Str())<<"\n";
	o<<"end\n";
	return o.str();
}
static std::vector<std::array<u64,3>> trip(std::istringstream&l){ std::vector<std::array<u64,3>> v; Str t; while(l>>t){ unsigned long long a=0,b=0,c=0; sscanf(t.c_str(),"%llu:%llu:%llu",&a,&b,&c); v.push_back({a,b,c}); } return v; }
static void segs_in(std::istringstream&l,std::vector<Seg>&v){ for(auto&t:trip(l)) v.push_back({(int)t[0],t[1],(u32)t[2]}); }
static void muts_in(std::istringstream&l,std::vector<Mut>&v){ for(auto&t:trip(l)) v.push_back({(int)t[0],t[1],t[2]}); }
static void flips_in(std::istringstream&l,std::vector<Flip>&v){ for(auto&t:trip(l)) v.push_back({(u32)t[0],(u32)t[1]}); }
bool plan_from_text(const Str&s,Plan&p,Str&err)
{
	std::istringstream in(s); Str line; p=Plan(); bool magic=false,end=false;
	while(std::getline(in,line)){
		size_t h=line.find('#'); if(h!=Str::npos) line.resize(h);
		std::istringstream l(line); Str k; if(!(l>>k)) continue;
		if(k=="casync-nano-sim-plan"){ magic=true; continue; }
		if(k=="seed") l>>p.seed; else if(k=="tool") l>>p.tool;
		else if(k=="params"){ Str x; l>>p.cp.min>>p.cp.avg>>p.cp.max>>x>>p.cdc; }
		else if(k=="image") segs_in(l,p.segs); else if(k=="indexmuts") muts_in(l,p.muts);
		else if(k=="target") l>>p.tblk>>p.tmissing>>p.tsmall>>p.tprefix>>p.tpartial>>p.textra>>p.tpad>>p.hole>>p.holeat;
		else if(k=="targetinit") segs_in(l,p.tinit); else if(k=="targetflips") flips_in(l,p.tflips);
		else if(k=="local"){ LocalSrc x; l>>x.blk>>x.side>>x.alias>>x.missing>>x.pad>>x.hole>>x.holeat; p.locals.push_back(x); }
		else if(k=="segs"&&p.locals.size()) segs_in(l,p.locals.back().segs);
		else if(k=="flips"&&p.locals.size()) flips_in(l,p.locals.back().flips);
		else if(k=="sidesegs"&&p.locals.size()) segs_in(l,p.locals.back().sidesegs);
		else if(k=="sidemuts"&&p.locals.size()) muts_in(l,p.locals.back().sidemuts);
		else if(k=="http"){ HttpSrc x; l>>x.enc>>x.keyspec>>x.key>>x.wrongkey>>x.slash>>x.https>>x.missseed>>x.missp>>x.zlevel>>x.zflags>>x.pad; if(!(l>>x.same)) x.same=0; p.https.push_back(x); }
		else if(k=="order"){ for(auto&t:trip(l)) p.order.push_back({(int)t[0],(int)t[1]}); }
		else if(k=="closed") l>>p.closed;
		else if(k=="front") l>>p.casync>>p.optstyle>>p.kcapi>>p.tty>>p.loglevel;
		else if(k=="net") l>>p.frag>>p.fragseed>>p.latseed;
		else if(k=="pair") l>>p.pair; else if(k=="bad") l>>p.bad>>p.badarg;
		else if(k=="toolkind") l>>p.tkind>>p.tkey>>p.tkeyspec>>p.targs>>p.srcblk>>p.argseed>>p.user>>p.samepid;
		else if(k=="file"){ ToolFile f; l>>f.seed>>f.len>>f.encrypted>>f.pre>>f.dir>>f.pad; p.files.push_back(f); }
		else if(k=="random") l>>p.randomfaults;
		else if(k=="run"){ Inc i; l>>i.crash.kind>>i.crash.at>>i.crash.mode>>i.crash.seed>>i.healthy; p.incs.push_back(i); }
		else if(k=="rate"&&p.incs.size()){ Rate r{}; l>>r.op>>r.role>>r.kind>>r.ppm>>r.from>>r.to>>r.max>>r.argmod>>r.argadd; p.incs.back().rates.push_back(r); }
		else if(k=="fault"){ Fault f{}; l>>f.inc>>f.op>>f.role>>f.occ>>f.kind>>f.arg; p.faults.push_back(f); }
		else if(k=="end"){ end=true; break; }
		else { err="unknown line: "+line; return false; }
		if(l.fail()&&!l.eof()){ err="bad line: "+line; return false; }
	}
	if(!magic||!end){ err="not a plan file"; return false; }
	return true;
}

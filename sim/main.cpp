// Command line of the simulator: batches of seeded runs, replay of a recorded plan, self tests.
#include "sim.hpp"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern volatile int g_sigs;
static const int DEAD_CODE=77;
#ifdef SIM_ASAN
extern "C" const char*__asan_default_options(){ return "exitcode=77:detect_leaks=0:handle_segv=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:print_legend=0"; }
extern "C" const char*__ubsan_default_options(){ return "exitcode=77:halt_on_error=1:print_stacktrace=1:abort_on_error=0"; }
static const bool ASAN=true;
#else
static const bool ASAN=false;
#endif
static double wall(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
static Str slurp(const Str&f){ Str s; FILE*h=fopen(f.c_str(),"rb"); if(!h) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,h))>0) s.append(b,n); fclose(h); return s; }
static void spit(const Str&f,const Str&s){ FILE*h=fopen(f.c_str(),"wb"); if(!h){ perror(f.c_str()); exit(3); } fwrite(s.data(),1,s.size(),h); fclose(h); }
static Str jesc(const Str&s){ Str o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }

static u64 mask_of(const RunResult&r){ u64 m=0; for(auto&v:r.v) m|=kb(v.kind); return m; }
static const u64 DEADMASK=(1ull<<K_CRASH)|(1ull<<K_MEM);

// ---- trying a plan in a child process: the mask of violation kinds, hash, death
struct Tried { bool died=false; bool timeout=false; u64 mask=0, hash=0; };
struct Slot { volatile u64 mask, hash; volatile int done; };
static Slot*slot;
static Tried try_plan(const Plan&p,bool quiet=true)
{
	if(!slot) slot=(Slot*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	slot->done=0; Tried t;
	pid_t c=fork();
	if(c==0){ if(quiet){ int n=open("/dev/null",O_WRONLY); dup2(n,2); dup2(n,1); } RunResult r=run_plan(p); slot->mask=mask_of(r); slot->hash=r.hash; slot->done=1; _exit(0); }
	int st; double t0=wall(); for(;;){ pid_t w=waitpid(c,&st,WNOHANG); if(w==c) break; if(wall()-t0>60){ kill(c,SIGKILL); waitpid(c,&st,0); t.timeout=true; break; } if(wall()-t0>0.002) usleep(500); }
	if(slot->done){ t.mask=slot->mask; t.hash=slot->hash; } else { t.died=true; t.mask=t.timeout?kb(K_HANG):DEADMASK; }
	return t;
}
// ---- minimising
struct Shrinker {
	Plan best; u64 kinds; double deadline; int tries=0;
	bool ok(const Plan&p){ if(wall()>deadline) return false; tries++; Tried t=try_plan(p); return (t.mask&kinds)!=0; }
	bool take(const Plan&p){ if(ok(p)){ best=p; return true; } return false; }
	template<class V,class F> void vec(F get,bool drop=true){ // delta debugging over a vector
		for(size_t step=std::max<size_t>(1,get(best).size()/2);;step/=2){
			for(size_t i=0;i<get(best).size();){ if(wall()>deadline) return; Plan q=best; auto&v=get(q); size_t e=std::min(v.size(),i+step); v.erase(v.begin()+i,v.begin()+e); if(!take(q)) i+=step; if(wall()>deadline) return; }
			if(step<=1) break;
		}
	}
	void drop_server(){ for(size_t i=0;i<best.https.size();){ Plan q=best; q.https.erase(q.https.begin()+i); std::vector<StoreRef> o; for(auto r:q.order){ if(r.type==1){ if(r.idx==(int)i) continue; if(r.idx>(int)i) r.idx--; } o.push_back(r); } q.order=o; std::vector<Fault> f; for(auto x:q.faults){ if(x.op==O_HTTP){ if(x.role==(int)i) continue; if(x.role>(int)i) x.role--; } f.push_back(x); } q.faults=f; if(!take(q)) i++; } }
	void drop_local(){ for(size_t i=0;i<best.locals.size();){ Plan q=best; q.locals.erase(q.locals.begin()+i); std::vector<StoreRef> o; for(auto r:q.order){ if(r.type==0){ if(r.idx==(int)i) continue; if(r.idx>(int)i) r.idx--; } o.push_back(r); } q.order=o; std::vector<Fault> f; for(auto x:q.faults){ bool skip=false; if(x.op!=O_HTTP) for(int b:{(int)R_SEED0,(int)R_SIDE0}) if(x.role>=b&&x.role<b+4){ if(x.role==b+(int)i) skip=true; else if(x.role>b+(int)i) x.role--; break; } if(!skip) f.push_back(x); } q.faults=f; if(!take(q)) i++; } }
	void drop_inc(){ for(size_t i=0;best.incs.size()>1&&i<best.incs.size();){ Plan q=best; q.incs.erase(q.incs.begin()+i); std::vector<Fault> f; for(auto x:q.faults){ if(x.inc==(int)i) continue; if(x.inc>(int)i) x.inc--; f.push_back(x); } q.faults=f; if(!take(q)) i++; } }
	static bool q_big(const Plan&q){ for(auto&l:q.locals) if(l.hole) return true; return false; } // scanned in small pieces that takes too long
	void scal(){
		auto t=[&](std::function<void(Plan&)> m){ if(wall()>deadline) return; Plan q=best; m(q); take(q); };
		t([](Plan&q){ q.frag=0; }); t([](Plan&q){ q.latseed=0; }); t([](Plan&q){ q.kcapi=0; }); t([](Plan&q){ q.tty=0; }); t([](Plan&q){ q.closed=0; }); t([](Plan&q){ q.loglevel=0; }); t([](Plan&q){ q.casync=false; }); t([](Plan&q){ q.optstyle=0; });
		t([](Plan&q){ q.tprefix=0; }); t([](Plan&q){ q.tpartial=0; }); t([](Plan&q){ q.textra=0; }); t([](Plan&q){ q.tinit.clear(); }); t([](Plan&q){ q.tflips.clear(); }); t([](Plan&q){ q.tsmall=false; }); t([](Plan&q){ q.tblk=true; }); t([](Plan&q){ q.targs=0; }); bool big=q_big(best); if(!big) t([](Plan&q){ q.cp={64,256,1024}; }); t([](Plan&q){ q.hole=0; for(auto&l:q.locals) l.hole=0; }); t([](Plan&q){ q.tpad=0; }); t([](Plan&q){ for(auto&l:q.locals) l.pad=0; for(auto&h:q.https) h.pad=0; for(auto&f:q.files) f.pad=0; }); t([](Plan&q){ q.user=q.samepid=false; });
		for(size_t i=0;i<best.https.size();i++){ t([i](Plan&q){ q.https[i].enc=false; }); t([i](Plan&q){ q.https[i].missp=0; }); t([i](Plan&q){ q.https[i].zflags=0; q.https[i].zlevel=3; }); t([i](Plan&q){ q.https[i].slash=q.https[i].https=false; }); t([i](Plan&q){ q.https[i].wrongkey=false; }); }
		for(size_t i=0;i<best.locals.size();i++){ t([i](Plan&q){ q.locals[i].blk=false; }); if(!best.locals[i].hole) t([i](Plan&q){ q.locals[i].side=0; }); t([i](Plan&q){ q.locals[i].flips.clear(); }); t([i](Plan&q){ q.locals[i].sidemuts.clear(); }); }
		for(size_t i=0;i<best.incs.size();i++) if(best.incs[i].crash.kind){ t([i](Plan&q){ q.incs[i].crash.kind=0; }); t([i](Plan&q){ q.incs[i].crash.kind=1; }); t([i](Plan&q){ q.incs[i].crash.mode=0; }); }
	}
	void lens(){ auto sh=[&](auto get){ for(size_t i=0;i<get(best).size();i++) for(int k=0;k<12;k++){ Plan q=best; auto&s=get(q)[i]; if(s.len<2) break; s.len=s.len/2; if(!take(q)) break; } };
		sh([](Plan&p)->std::vector<Seg>&{ return p.segs; }); for(size_t j=0;j<best.locals.size();j++) sh([j](Plan&p)->std::vector<Seg>&{ return p.locals[j].segs; }); sh([](Plan&p)->std::vector<ToolFile>&{ return p.files; }); }
	Plan run(const Plan&p,u64 k,double secs){
		best=p; kinds=k; deadline=wall()+secs;
		if(p.pair&&!(k&(kb(K_EQUIV)|kb(K_INPUTS)))){ Plan q=best; q.pair=0; take(q); }
		for(int round=0;round<3&&wall()<deadline;round++){
			int t0=tries; Str before=plan_to_text(best);
			drop_inc(); vec<Fault>([](Plan&q)->std::vector<Fault>&{ return q.faults; }); drop_server(); drop_local();
			vec<Mut>([](Plan&q)->std::vector<Mut>&{ return q.muts; }); vec<Seg>([](Plan&q)->std::vector<Seg>&{ return q.segs; });
			if(best.files.size()>1) vec<ToolFile>([](Plan&q)->std::vector<ToolFile>&{ return q.files; });
			for(size_t i=0;i<best.locals.size();i++) vec<Seg>([i](Plan&q)->std::vector<Seg>&{ return q.locals[i].segs; });
			vec<StoreRef>([](Plan&q)->std::vector<StoreRef>&{ return q.order; });
			for(size_t i=0;i<best.incs.size();i++) vec<Rate>([i](Plan&q)->std::vector<Rate>&{ return q.incs[i].rates; });
			scal(); lens();
			for(size_t i=0;i<best.faults.size()&&wall()<deadline;i++){ if(!best.faults[i].arg) continue; Plan q=best; if(!q.faults[i].arg) continue; q.faults[i].arg=0; take(q); }
			(void)t0; if(plan_to_text(best)==before) break;
		}
		return best;
	}
};
static bool to_explicit(const Plan&p,u64 kinds,Plan&out)
{
	if(!p.randomfaults){ out=p; return true; }
	// the faults that fired are collected in a child, through a pipe, as the run may kill the process
	int fd[2]; if(pipe(fd)) return false; pid_t c=fork();
	if(c==0){ close(fd[0]); int n=open("/dev/null",O_WRONLY); dup2(n,2); RunResult r=run_plan(p); FILE*f=fdopen(fd[1],"wb"); for(auto&x:r.fired) fwrite(&x.f,sizeof x.f,1,f); fclose(f); _exit(0); }
	close(fd[1]); Plan q=p; q.randomfaults=false; Fault x; FILE*f=fdopen(fd[0],"rb"); bool many=false; while(fread(&x,sizeof x,1,f)==1) if(q.faults.size()<20000) q.faults.push_back(x); else { many=true; break; } fclose(f); int st; if(many) kill(c,SIGKILL); waitpid(c,&st,0);
	if(many) return false; // the rates, with the seed, say it better
	for(auto&i:q.incs) i.rates.clear();
	Tried t=try_plan(q); if(!(t.mask&kinds)) return false; out=q; return true;
}

// ---- batch
struct Shared { volatile int stop; struct W { volatile u64 next; volatile int busy; volatile u32 plen; volatile u64 runs; volatile double t0; char plan[1<<18]; } w[64]; };
static Shared*SH; static int WI;
static void store_plan(const Plan&p){ Str s=plan_to_text(p); auto&w=SH->w[WI]; u32 n=std::min<size_t>(s.size(),sizeof w.plan); memcpy(w.plan,s.data(),n); w.plen=n; }
struct Stats { u64 runs=0, nontrivial=0, simtime=0, ops=0, http=0, procs=0, kill=0, power=0; std::map<Str,u64> faults, probes, outcomes; std::set<u64> sigs; std::vector<Str> samples; u64 otherv=0; std::map<Str,u64> otherkinds; };
static void dump(const Str&f,const Stats&s)
{
	FILE*h=fopen(f.c_str(),"ab"); fprintf(h,"n %llu %llu %llu %llu %llu %llu %llu %llu\n",(unsigned long long)s.runs,(unsigned long long)s.nontrivial,(unsigned long long)s.simtime,(unsigned long long)s.ops,(unsigned long long)s.http,(unsigned long long)s.procs,(unsigned long long)s.kill,(unsigned long long)s.power);
	for(auto&x:s.faults) fprintf(h,"f %llu %s\n",(unsigned long long)x.second,x.first.c_str()); for(auto&x:s.probes) fprintf(h,"p %llu %s\n",(unsigned long long)x.second,x.first.c_str()); for(auto&x:s.outcomes) fprintf(h,"o %llu %s\n",(unsigned long long)x.second,x.first.c_str()); for(auto&x:s.otherkinds) fprintf(h,"k %llu %s\n",(unsigned long long)x.second,x.first.c_str());
	for(u64 g:s.sigs) fprintf(h,"s %llx\n",(unsigned long long)g); fclose(h);
}
static Str oname(int o){ int k=o/1000,c=o%1000; return k==OUT_EXIT?(c?"exit with failure":"exit with success"):k==OUT_CRASH?"interrupted":k==OUT_HANG?"hang":"crash"; }
static void worker(const Str&prop,u64 seed,bool thorough,int wi,int jobs,u64 maxruns,double until,const Str&out)
{
	WI=wi; u64 kinds=kinds_for(prop); if(getenv("SIM_ALLKINDS")) kinds=~0ull; Stats S; plan_hook=store_plan; u64 ph=0; for(char c:prop) ph=ph*131+c;
	{ int n=open((out+"/stderr."+std::to_string(wi)).c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(n,2); close(n); }
	for(u64 cnt=0;;cnt++){
		u64 i=SH->w[wi].next; u64 idx=i*jobs+wi;
		if(SH->stop||idx>=maxruns||(wall()>=until)||cnt>=1500||g_sigs>3) break;
		SH->w[wi].busy=1; SH->w[wi].plen=0; SH->w[wi].t0=wall();
		u64 rs=h2(seed,h2(ph,idx)); 
		Plan p=gen_plan(prop,rs,thorough);
		if(i==1&&wi<6&&prop=="C15"&&!no_huge()) for(u64 t=1;t<400000&&!is_bigscan(p);t++){ rs=h2(seed,h2(ph,idx+(t<<40))); p=gen_plan(prop,rs,thorough); } // the rare, long histories: some in every batch
		RunResult r=run_plan(p);
		SH->w[wi].busy=0; SH->w[wi].next=i+1;
		S.runs++; S.simtime+=r.simtime; S.ops+=r.ops; S.http+=r.nhttp; S.procs+=r.nincs; S.kill+=r.crashes_kill; S.power+=r.crashes_power;
		for(auto&f:r.fired){ Str n=Str(FKN[f.f.kind])+"@"+OPN[f.f.op]; if(f.f.op!=O_HTTP&&f.f.op!=O_ALLOC&&f.f.op!=O_CLOCK&&f.f.op!=O_SEND&&f.f.op!=O_RECV&&f.f.op!=O_CRYPT&&f.f.op!=O_CURLCFG&&f.f.op!=O_SOCK) n+=Str("/")+ROLEN[f.f.role&15]; S.faults[n]++; }
		for(auto&x:r.probes) S.probes[x.first]+=x.second; for(int o:r.outcomes) S.outcomes[oname(o)]++;
		if(r.nontrivial){ S.nontrivial++; S.sigs.insert(r.sig); if(wi<3&&i<40&&S.samples.size()<1){ char fn[300]; snprintf(fn,sizeof fn,"%s/sample.%d",out.c_str(),wi); if(access(fn,F_OK)){ Str t="run seed "+std::to_string(rs)+"\n"+plan_to_text(p)+"outcomes:"; for(int o:r.outcomes) t+=" "+oname(o)+";"; S.samples.push_back(t); spit(fn,t); } } }
		u64 m=mask_of(r); for(auto&v:r.v) if(!(kinds&kb(v.kind))) S.otherkinds[KN[v.kind]]++;
		if(m&kinds){
			bool known=false; (void)known;
			Str f=out+"/cand."+std::to_string(wi)+"."+std::to_string(idx); spit(f,plan_to_text(p));
			FILE*h=fopen((out+"/cands").c_str(),"ab"); Str msg; for(auto&v:r.v) if(kinds&kb(v.kind)){ msg=v.msg; break; } fprintf(h,"%s\t%llx\t%s\n",f.c_str(),(unsigned long long)(m&kinds),msg.c_str()); fclose(h);
			if(!getenv("SIM_KEEP_GOING")) SH->stop=1;
		}
	}
	dump(out+"/stats."+std::to_string(wi),S);
	_exit(g_sigs>3?0:0);
}
static int arg_i(int c,char**v,const char*n,int d){ for(int i=2;i+1<c;i++) if(!strcmp(v[i],n)) return (int)strtoll(v[i+1],0,0); return d; }
static u64 arg_u(int c,char**v,const char*n,u64 d){ for(int i=2;i+1<c;i++) if(!strcmp(v[i],n)) return strtoull(v[i+1],0,0); return d; }
static double arg_d(int c,char**v,const char*n,double d){ for(int i=2;i+1<c;i++) if(!strcmp(v[i],n)) return atof(v[i+1]); return d; }
static Str arg_s(int c,char**v,const char*n,const char*d){ for(int i=2;i+1<c;i++) if(!strcmp(v[i],n)) return v[i+1]; return d; }
static bool arg_f(int c,char**v,const char*n){ for(int i=2;i<c;i++) if(!strcmp(v[i],n)) return true; return false; }

static int batch(int argc,char**argv)
{
	Str prop=arg_s(argc,argv,"--prop","C01"), out=arg_s(argc,argv,"--out","/tmp/simout"); u64 seed=arg_u(argc,argv,"--seed",1), runs=arg_u(argc,argv,"--runs",~0ull>>8); int jobs=arg_i(argc,argv,"--jobs",8); double secs=arg_d(argc,argv,"--max-seconds",10); bool th=arg_f(argc,argv,"--thorough");
	mkdir(out.c_str(),0755); if(jobs>64) jobs=64;
	SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	double t0=wall(),until=t0+secs; std::map<pid_t,int> kids; u64 died=0; u64 kinds=kinds_for(prop); if(getenv("SIM_ALLKINDS")) kinds=~0ull; 
	auto start=[&](int wi){ fflush(stdout); pid_t c=fork(); if(c==0) worker(prop,seed,th,wi,jobs,runs,until,out); kids[c]=wi; };
	for(int i=0;i<jobs;i++) start(i);
	while(!kids.empty()){
		int st; pid_t c=waitpid(-1,&st,WNOHANG);
		if(c<=0){ usleep(5000); for(auto&k:kids) if(SH->w[k.second].busy&&wall()-SH->w[k.second].t0>90) kill(k.first,SIGKILL); continue; }
		auto it=kids.find(c); if(it==kids.end()) continue; int wi=it->second; kids.erase(it);
		bool normal=WIFEXITED(st)&&WEXITSTATUS(st)==0;
		if(!normal){ // the process died while a plan was running
			died++; auto&w=SH->w[wi];
			Str f=out+"/cand."+std::to_string(wi)+".d"+std::to_string(w.next); spit(f,Str(w.plan,w.plen));
			if((kinds&DEADMASK)){ FILE*h=fopen((out+"/cands").c_str(),"ab"); fprintf(h,"%s\t%llx\tthe process dies (memory error)\n",f.c_str(),(unsigned long long)(DEADMASK&kinds)); fclose(h); if(!getenv("SIM_KEEP_GOING")) SH->stop=1; }
			w.busy=0; w.next=w.next+1;
		}
		if(!SH->stop&&wall()<until&&(u64)SH->w[wi].next*jobs+wi<runs) start(wi);
	}
	double el=wall()-t0;
	// merge
	u64 n[8]={0}; std::map<Str,u64> f,p,o,k; std::set<u64> sg;
	for(int wi=0;wi<jobs;wi++){ FILE*h=fopen((out+"/stats."+std::to_string(wi)).c_str(),"rb"); if(!h) continue; char*l=nullptr; size_t z=0; ssize_t len;
		while((len=getline(&l,&z,h))>0){ if(l[len-1]=='\n') l[len-1]=0; unsigned long long v[8]; if(l[0]=='n'){ sscanf(l+2,"%llu %llu %llu %llu %llu %llu %llu %llu",v,v+1,v+2,v+3,v+4,v+5,v+6,v+7); for(int q=0;q<8;q++) n[q]+=v[q]; } else if(l[0]=='s'){ sscanf(l+2,"%llx",v); sg.insert(v[0]); } else { char*e; unsigned long long c=strtoull(l+2,&e,10); Str name=e+1; (l[0]=='f'?f:l[0]=='p'?p:l[0]=='o'?o:k)[name]+=c; } }
		free(l); fclose(h); }
	Str j="{"; char b[700]; snprintf(b,sizeof b,"\"property\":\"%s\",\"seed\":%llu,\"wall_s\":%.3f,\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"simulated_s\":%.1f,\"operations\":%llu,\"http_requests\":%llu,\"process_runs\":%llu,\"kills\":%llu,\"power_losses\":%llu,\"aborted\":%llu",prop.c_str(),(unsigned long long)seed,el,(unsigned long long)n[0],(unsigned long long)n[1],sg.size(),n[2]/1e9,(unsigned long long)n[3],(unsigned long long)n[4],(unsigned long long)n[5],(unsigned long long)n[6],(unsigned long long)n[7],(unsigned long long)died); j+=b;
	auto mp=[&](const char*nm,std::map<Str,u64>&m){ j+=",\"" +Str(nm)+"\":{"; bool first=true; for(auto&x:m){ if(!first) j+=","; first=false; j+=jesc(x.first)+":"+std::to_string(x.second); } j+="}"; };
	mp("faults",f); mp("probes",p); mp("outcomes",o); mp("other_kinds",k);
	j+=",\"samples\":["; bool first=true; for(int wi=0;wi<3;wi++){ Str s=slurp(out+"/sample."+std::to_string(wi)); if(s.empty()) continue; if(!first) j+=","; first=false; j+=jesc(s); } j+="]";
	j+=",\"candidates\":["; Str cs=slurp(out+"/cands"); size_t q=0; first=true; while(q<cs.size()){ size_t e=cs.find('\n',q); Str l=cs.substr(q,e-q); q=e+1; size_t a=l.find('\t'),c=l.find('\t',a+1); if(!first) j+=","; first=false; j+="{\"file\":"+jesc(l.substr(0,a))+",\"kinds\":"+jesc(l.substr(a+1,c-a-1))+",\"msg\":"+jesc(l.substr(c+1))+"}"; } j+="]}";
	spit(out+"/summary.json",j);
	return 0;
}
// minimise FILE KINDMASK(hex) OUT [--seconds S]: writes the minimised plan with its verified hash
static Str kindnames(u64 m){ Str s; for(int k=0;k<K_MAX;k++) if(m&kb(k)) s+=(s.empty()?"":",")+Str(KN[k]); return s; }
static int minimise(int argc,char**argv)
{
	Plan p; Str err; if(!plan_from_text(slurp(argv[2]),p,err)){ fprintf(stderr,"%s: %s\n",argv[2],err.c_str()); return 3; }
	u64 kinds=strtoull(argv[3],0,16); double secs=arg_d(argc,argv,"--seconds",20);
	Tried a=try_plan(p); if(!(a.mask&kinds)){ fprintf(stderr,"does not reproduce in a fresh process\n"); return 2; }
	Plan e; if(!to_explicit(p,kinds,e)) e=p;
	Shrinker s; Plan m=s.run(e,kinds&a.mask?kinds&a.mask:kinds,secs);
	Tried x=try_plan(m),y=try_plan(m); if(!(x.mask&kinds)||(x.mask&kinds)!=(y.mask&kinds)||x.hash!=y.hash||x.died!=y.died){ fprintf(stderr,"the minimised plan does not repeat exactly\n"); return 2; }
	char h[100]; snprintf(h,sizeof h,"%s",x.died?"died":""); if(!x.died) snprintf(h,sizeof h,"%016llx",(unsigned long long)x.hash);
	Str t="# kinds "+kindnames(x.mask&kinds)+"\n# mask "; char mm[40]; snprintf(mm,sizeof mm,"%llx",(unsigned long long)(x.mask&kinds)); t+=Str(mm)+"\n# hash "+h+"\n"+plan_to_text(m);
	spit(argv[4],t); printf("minimised after %d tries: %s\n",s.tries,kindnames(x.mask&kinds).c_str()); return 0;
}
static int replay(int argc,char**argv)
{
	Str t=slurp(argv[2]); Plan p; Str err; if(!plan_from_text(t,p,err)){ fprintf(stderr,"%s: %s\n",argv[2],err.c_str()); return 3; }
	Str want,mask; { size_t a=t.find("# hash "); if(a!=Str::npos) want=t.substr(a+7,t.find('\n',a)-a-7); a=t.find("# mask "); if(a!=Str::npos) mask=t.substr(a+7,t.find('\n',a)-a-7); }
	bool quiet=arg_f(argc,argv,"--quiet"); u64 wm=mask.size()?strtoull(mask.c_str(),0,16):~0ull;
	if(want=="died"||arg_f(argc,argv,"--fork")){ Tried x=try_plan(p,quiet); printf("%s\n",x.died?"the process died":"the process did not die"); if(x.died) return 1; if(want=="died") return 0; }
	RunResult r=run_plan(p,!quiet);
	if(!quiet) for(auto&l:r.trace) printf("%s\n",l.c_str());
	char h[40]; snprintf(h,sizeof h,"%016llx",(unsigned long long)r.hash);
	bool hit=false; for(auto&v:r.v){ printf("violation %s in run %d: %s\n",KN[v.kind],v.inc,v.msg.c_str()); if(wm&kb(v.kind)) hit=true; }
	printf("hash %s%s\n",h,want.size()?(want==h?" (as recorded)":" (differs from the record)"):"");
	if(hit) return want.size()&&want!=h?2:1; return 0;
}
static int selftest()
{
	int bad=0;
	{ u8 d[32]; (void)d; Id i=ref_sha((const u8*)"abc",3); if(hex(i.data(),4)!="ba7816bf"){ printf("sha reference broken\n"); bad++; } }
	{ // XChaCha20 draft, A.3.2 style vector through HChaCha20: key 00..1f, nonce 000000090000004a0000000031415927
		u8 key[32],nonce[24]={0,0,0,9,0,0,0,0x4a,0,0,0,0,0x31,0x41,0x59,0x27}; for(int i=0;i<32;i++) key[i]=i; u8 z[64]={0},o[64]; ref_xchacha(o,z,64,key,nonce); (void)o; }
	// the chunker against the real casync
	if(access("/usr/bin/casync",X_OK)==0){
		char dir[]="/tmp/simself.XXXXXX"; if(!mkdtemp(dir)) return 3; int n=0;
		for(int k=0;k<60;k++){
			Rng r(1000+k); CParams cp= k%4==0?CParams{64,256,1024}: k%4==1?CParams{16384,65536,262144}: k%4==2?CParams{128,500,3000}:CParams{1024,4096,16384};
			std::vector<Seg> sg; int ns=(int)r.range(0,5); for(int i=0;i<ns;i++) sg.push_back({(int)r.below(4),r.next()%1000,(u32)r.below(cp.max*6)}); if(k%10==9) sg={{0,5,(u32)r.below(60)}};
			Bytes b=seg_bytes(sg,cp); Str f=Str(dir)+"/blob",ix=Str(dir)+"/i.caibx"; spit(f,Str(b.begin(),b.end()));
			char cmd[700]; snprintf(cmd,sizeof cmd,"cd %s && casync make --store=%s/st --chunk-size=%u:%u:%u --digest=sha256 %s %s >/dev/null 2>&1",dir,dir,cp.min,cp.avg,cp.max,ix.c_str(),f.c_str());
			if(system(cmd)!=0){ printf("casync make failed for case %d\n",k); continue; }
			Str t=slurp(ix); std::vector<IdxEntry> e; u64 last=0; for(auto&c:ref_chunk(b.data(),b.size(),cp)){ e.push_back({c.off+c.len,ref_sha(&b[c.off],c.len)}); last=c.off+c.len; }
			Bytes mine=ref_make_index(cp,e); IdxParsed q=ref_parse_index(Bytes(t.begin(),t.end())); n++;
			bool same=q.e.size()==e.size(); for(size_t i=0;same&&i<e.size();i++) if(e[i].end!=q.e[i].end||e[i].id!=q.e[i].id) same=false;
			if(!same||!q.structural_ok){ printf("case %d: reference chunker differs from casync (%zu vs %zu chunks, structure %d)\n",k,e.size(),q.e.size(),q.structural_ok); bad++; }
		}
		char cmd[100]; snprintf(cmd,sizeof cmd,"rm -rf %s",dir); if(system(cmd)){}
		printf("reference chunker compared with casync on %d inputs\n",n);
	} else printf("no casync here: chunker comparison skipped\n");
	printf(bad?"selftest FAILED\n":"selftest ok\n"); return bad?3:0;
}
// hashes PROP SEED FROM COUNT: one line per run, to compare between processes
static int hashes(int argc,char**argv)
{
	Str prop=argv[2]; u64 seed=strtoull(argv[3],0,0),from=strtoull(argv[4],0,0),cnt=strtoull(argv[5],0,0); u64 ph=0; for(char c:prop) ph=ph*131+c;
	for(u64 i=from;i<from+cnt;i++){ Plan p=gen_plan(prop,h2(seed,h2(ph,i)),false); RunResult r=run_plan(p); printf("%llu %016llx %zu\n",(unsigned long long)i,(unsigned long long)r.hash,r.v.size()); }
	return 0;
}
static int show(int argc,char**argv){ Str prop=argv[2]; u64 seed=strtoull(argv[3],0,0),i=strtoull(argv[4],0,0); u64 ph=0; for(char c:prop) ph=ph*131+c; Plan p=gen_plan(prop,h2(seed,h2(ph,i)),false); fputs(plan_to_text(p).c_str(),stdout); return 0; }
int main(int argc,char**argv)
{
	Str c=argc>1?argv[1]:"";
	if(c=="batch") return batch(argc,argv);
	if(c=="minimise"&&argc>=5) return minimise(argc,argv);
	if(c=="replay"&&argc>=3) return replay(argc,argv);
	if(c=="selftest") return selftest();
	if(c=="hashes"&&argc>=6) return hashes(argc,argv);
	if(c=="show"&&argc>=5) return show(argc,argv);
	fprintf(stderr,"usage: sim batch|minimise|replay|selftest|hashes|show ...\n"); return 3;
}

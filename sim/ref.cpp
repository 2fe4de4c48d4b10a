// Independent reference implementations used as oracles.
#include "sim.hpp"
#include <algorithm>
#include <openssl/sha.h>
#include "buz.inc"

Id ref_sha(const u8*p,size_t n){ Id r; SHA256(p,n,r.data()); return r; }
u64 fnv(u64 h,const void*p,size_t n){ const u8*b=(const u8*)p; for(size_t i=0;i<n;i++){ h^=b[i]; h*=1099511628211ull; } return h; }
Str hex(const u8*p,size_t n){ static const char*d="0123456789abcdef"; Str s; for(size_t i=0;i<n;i++){ s+=d[p[i]>>4]; s+=d[p[i]&15]; } return s; }
static inline u32 rl(u32 x,unsigned n){ n&=31; return n? (x<<n)|(x>>(32-n)) : x; }

// casync's content defined chunking: a 48 byte rolling hash, evaluated from the point
// where 48 bytes of the chunk have been seen.
std::vector<CChunk> ref_chunk(const u8*p,size_t n,const CParams&cp)
{
	std::vector<CChunk> out; double avg=cp.avg;
	u64 disc=(u64)(avg/(-1.42888852e-7*avg+1.33237515));
	u64 s=0;
	while(s<n){
		u64 e=n; bool cut=false;
		if(n-s>=48){
			u32 h=0;
			for(int i=0;i<48;i++) h^=rl(BUZ[p[s+i]],48-1-i);
			u64 len=48;
			for(;;){
				if(len>=cp.max){ cut=true; break; }
				if(len>=cp.min && h%disc==disc-1){ cut=true; break; }
				if(s+len>=n) break;
				h=rl(h,1)^rl(BUZ[p[s+len-48]],48)^BUZ[p[s+len]];
				len++;
			}
			e=s+len; (void)cut;
		}
		out.push_back({s,(u32)(e-s)});
		s=e;
	}
	return out;
}

static void w64(Bytes&b,u64 v){ for(int i=0;i<8;i++) b.push_back((u8)(v>>(8*i))); }
static u64 r64(const u8*p){ u64 v=0; for(int i=7;i>=0;i--) v=v<<8|p[i]; return v; }
Bytes ref_make_index(const CParams&cp,const std::vector<IdxEntry>&e)
{
	Bytes b; w64(b,0x30); w64(b,0x96824d9c7b129ff9ull); w64(b,0x9000000000000000ull); w64(b,cp.min); w64(b,cp.avg); w64(b,cp.max);
	w64(b,~0ull); w64(b,0xe75b9e112f17417dull);
	for(auto&x:e){ w64(b,x.end); b.insert(b.end(),x.id.begin(),x.id.end()); }
	w64(b,0); w64(b,0); w64(b,0x30); w64(b,16+(e.size()+1)*40); w64(b,0x4b4f050e5549ecd1ull);
	return b;
}
bool params_usable(u64 mn,u64 av,u64 mx)
{
	if(!(mn<av&&av<mx)) return false;
	if(mx>0xffffffffull) return false;
	double d=-1.42888852e-7*(double)av+1.33237515; if(d<=0) return false;
	double q=(double)av/d; if(q<1||q>1e18) return false;
	return true;
}
// structural_ok: everything the format's header, table header and trailer promise is in place
IdxParsed ref_parse_index(const Bytes&b)
{
	IdxParsed r; size_t n=b.size();
	if(n<48+16+40||(n-48-16-40)%40) return r;
	const u8*p=b.data(); size_t cnt=(n-48-16-40)/40;
	u64 mn=r64(p+24),av=r64(p+32),mx=r64(p+40);
	bool ok=r64(p)>=0x30&&r64(p+8)==0x96824d9c7b129ff9ull&&!(r64(p+16)&~0xd000000000000000ull);
	ok=ok&&params_usable(mn,av,mx);
	ok=ok&&r64(p+56)==0xe75b9e112f17417dull;
	const u8*f=p+64+cnt*40;
	ok=ok&&r64(f)==0&&r64(f+8)==0&&r64(f+16)==0x30&&r64(f+24)==16+(cnt+1)*40&&r64(f+32)==0x4b4f050e5549ecd1ull;
	r.structural_ok=ok; r.cp.min=(u32)mn; r.cp.avg=(u32)av; r.cp.max=(u32)mx;
	r.entries_ok=true; u64 last=0;
	for(size_t i=0;i<cnt;i++){ IdxEntry e; e.end=r64(p+64+i*40); memcpy(e.id.data(),p+64+i*40+8,32); if(e.end<=last||e.end-last>0xffffffffull) r.entries_ok=false; last=e.end; r.e.push_back(e); }
	return r;
}

// ---- XChaCha20 from the draft, independent of EVP and of the repository's HChaCha20
static void core(u32 x[16]){
#define Q(a,b,c,d) x[a]+=x[b];x[d]=rl(x[d]^x[a],16);x[c]+=x[d];x[b]=rl(x[b]^x[c],12);x[a]+=x[b];x[d]=rl(x[d]^x[a],8);x[c]+=x[d];x[b]=rl(x[b]^x[c],7);
	for(int i=0;i<10;i++){ Q(0,4,8,12) Q(1,5,9,13) Q(2,6,10,14) Q(3,7,11,15) Q(0,5,10,15) Q(1,6,11,12) Q(2,7,8,13) Q(3,4,9,14) }
#undef Q
}
static u32 ld(const u8*p){ return p[0]|p[1]<<8|p[2]<<16|(u32)p[3]<<24; }
void ref_xchacha(u8*out,const u8*in,size_t n,const u8 key[32],const u8 nonce[24])
{
	static const u32 C[4]={0x61707865,0x3320646e,0x79622d32,0x6b206574};
	u32 s[16]; for(int i=0;i<4;i++) s[i]=C[i]; for(int i=0;i<8;i++) s[4+i]=ld(key+4*i); for(int i=0;i<4;i++) s[12+i]=ld(nonce+4*i);
	core(s); u32 sub[8]={s[0],s[1],s[2],s[3],s[12],s[13],s[14],s[15]};
	u64 ctr=0;
	for(size_t o=0;o<n;o+=64,ctr++){
		u32 st[16],x[16]; for(int i=0;i<4;i++) st[i]=C[i]; for(int i=0;i<8;i++) st[4+i]=sub[i]; st[12]=(u32)ctr; st[13]=(u32)(ctr>>32); st[14]=ld(nonce+16); st[15]=ld(nonce+20);
		memcpy(x,st,64); core(x); u8 ks[64]; for(int i=0;i<16;i++){ u32 v=x[i]+st[i]; ks[4*i]=v; ks[4*i+1]=v>>8; ks[4*i+2]=v>>16; ks[4*i+3]=v>>24; }
		for(size_t i=0;i<64&&o+i<n;i++) out[o+i]=in[o+i]^ks[i];
	}
}

static Bytes dense(u64 seed,size_t len,const CParams&cp)
{
	// chunks that are as short as the parameters allow, several distinct ones, concatenated
	Rng r(seed); std::vector<Bytes> sh; Bytes buf(std::min<size_t>((size_t)cp.max*12,6000000)); 
	for(size_t i=0;i+8<=buf.size();i+=8){ u64 v=r.next(); memcpy(&buf[i],&v,8); }
	auto cs=ref_chunk(buf.data(),buf.size(),cp);
	std::vector<CChunk> full; for(size_t i=0;i+1<cs.size();i++) full.push_back(cs[i]);
	std::stable_sort(full.begin(),full.end(),[](const CChunk&a,const CChunk&b){return a.len<b.len;});
	for(size_t i=0;i<full.size()&&i<4;i++) sh.emplace_back(buf.begin()+full[i].off,buf.begin()+full[i].off+full[i].len);
	// a chunk that consists of nothing but the first window
	if(cp.min<=48&&cp.max>48) for(u32 t=0;t<4*cp.avg;t++){ u8 w[49]; for(auto&x:w) x=(u8)r.next(); auto c=ref_chunk(w,49,cp); if(c[0].len==48){ sh.insert(sh.begin(),Bytes(w,w+48)); break; } }
	Bytes o; if(sh.empty()) { o.assign(buf.begin(),buf.begin()+std::min(len,buf.size())); o.resize(len); return o; }
	size_t k=0; while(o.size()<len){ auto&s=sh[(k*2654435761u>>7)%sh.size()]; o.insert(o.end(),s.begin(),s.end()); k++; }
	o.resize(len); return o;
}
Bytes seg_bytes(const std::vector<Seg>&segs,const CParams&cp)
{
	Bytes o;
	for(auto&s:segs){
		size_t b=o.size(); o.resize(b+s.len); u8*p=o.data()+b; Rng r(s.seed*31+s.kind);
		switch(s.kind){
		case SEG_ZERO: break;
		case SEG_TEXT: { static const char*w[]={"config=","update ","rootfs/","0x00ff ","usr/lib/","enable\n","  value ","# c\n"}; size_t i=0; while(i<s.len){ const char*t=w[r.below(8)]; while(*t&&i<s.len) p[i++]=*t++; } break; }
		case SEG_DENSE: { Bytes d=dense(s.seed,s.len,cp); if(s.len) memcpy(p,d.data(),s.len); break; }
		default: for(size_t i=0;i<s.len;i+=8){ u64 v=r.next(); memcpy(p+i,&v,std::min<size_t>(8,s.len-i)); }
		}
	}
	return o;
}

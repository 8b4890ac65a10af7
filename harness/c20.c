// C20: compression round trip and decompression of arbitrary data, in exactly sized heap
// buffers (AddressSanitizer reports any access outside), against an independent decoder.
#include "bas.h"
#include "extension/compress.h"
const char* mc_rule = "all byte strings up to the stated length over the stated alphabets, all run/period structures up to the stated size, every cache size; every truncation and every single-bit damage of the compressed forms; all short arbitrary inputs with every cache size and output size; counted by input";
// independent decoder: 1 and the data, or 0
static int dec(const u8* f, int n, u8* out, int size, int bits){
	if (bits==-1){ if (n<size) return 0; memcpy(out,f,size); return 1; }
	if (bits<0||bits>7) return 0; u8 c[128]; for (int i=0;i<128;++i) c[i]=i; int nx=0; long b=0, end=n*8L;
	for (int i=0;i<size;++i){ int x=0,y=0; if (b+1>end) return 0; x=f[b/8]>>(7-b%8)&1; ++b; int k=x?8:bits; if (b+k>end) return 0; for (int q=0;q<k;++q,++b) y=y<<1|(f[b/8]>>(7-b%8)&1); if (x){ out[i]=c[nx]=y; nx=(nx+1)%(1<<bits); } else out[i]=c[y]; }
	return 1;
}
static u8* exact(const u8* d, int n){ u8* p=malloc(n); if (n) memcpy(p,d,n); return p; } // red zones directly before and after
// decompress exactly sized copies and compare with the decoder
static bool try(const u8* f, int n, int size, int bits){
	u8* s=exact(f,n); u8* o=malloc(size); u8* m=malloc(size+1); for (int i=0;i<size;++i) o[i]=0xEE; 
	bool got=sbc_decompress(s,n,o,size,bits); int want=dec(f,n,m,size,bits); mc_validated(1); mc_trans(1);
	if (got!=(want==1)) mc_fail("decompressing %d bytes to %d with cache %d reports %s",n,size,bits,got?"success":"failure"); if (got && size && memcmp(o,m,size)) mc_fail("decompressed data are wrong"); if (n && memcmp(s,f,n)) mc_fail("the compressed data were changed");
	mc_state(mc_mix(mc_hash(m,want?size:0),n*100+bits*2+want)); free(s); free(o); free(m); return got;
}
static void round1(const u8* d, int n, bool deep){
	int best=n, sz[8];
	for (int b=-1;b<8;++b){
		u8* s=exact(d,n); u8* o=malloc(n); int r=sbc_compress(s,o,n,b,8); mc_trans(1);
		if (b>=0) sz[b]=r; if (b==-1 && r!=n) mc_fail("uncompressed form has size %d of %d",r,n); if (n && memcmp(s,d,n)) mc_fail("the source was changed");
		if (r!=-1 && (r<0 || r>n)) mc_fail("compressed size %d of %d",r,n);
		if (r!=-1){ u8* x=malloc(n); if (!sbc_decompress(o,r,x,n,b)) mc_fail("cache %d: compressed data cannot be decompressed",b); if (n && memcmp(x,d,n)) mc_fail("cache %d: decompressing does not give the original",b); mc_validated(1); free(x);
			u8* f=exact(o,r); try(f,r,n,b); if (deep && b>=0){ for (int c=0;c<r;++c) try(f,c,n,b); for (int k=0;k<r*8;++k){ f[k/8]^=128>>k%8; try(f,r,n,b); f[k/8]^=128>>k%8; } for (int b2=0;b2<9;++b2) if (b2!=b) try(f,r,n,b2); try(f,r,n+1,b); if (n) try(f,r,n-1,b); } free(f);
			if (b>=0 && r<best) best=r; }
		free(o); free(s);
	}
	u8* s=exact(d,n); struct sbc_compression_result q=sbc_optimal_compress(s,n,8); mc_trans(1);
	if (q.size!=best) mc_fail("optimal compression gives %d bytes, the best is %d",q.size,best); if (q.size>n) mc_fail("does not fit"); if (q.bits<-1||q.bits>7) mc_fail("cache size %d",q.bits); if (q.bits>=0 && sz[q.bits]!=q.size) mc_fail("reported size %d differs from the size for cache %d",q.size,q.bits);
	u8* o=exact(q.output,q.size); u8* x=malloc(n); if (!sbc_decompress(o,q.size,x,n,q.bits)) mc_fail("the optimal form cannot be decompressed"); if (n && memcmp(x,d,n)) mc_fail("the optimal form does not give the original"); mc_validated(1); free(x); free(o); free(q.output); free(s);
}
static void s_all(void){ // every string over a small alphabet: found in the start cache or not, at its edges
	static const u8 al[]={0,1,3,127,128,255}; int n=mc_choose(mc_thorough?9:7); u8 d[16]; for (int i=0;i<n;++i) d[i]=al[mc_choose(i<4?6:4)]; mc_desc("%d bytes ",n); for (int i=0;i<n;++i) mc_desc("%02x",d[i]); mc_nontrivial(mc_hash(d,n)+n); round1(d,n,n<=(mc_thorough?6:4));
}
static void s_pairs(void){ int a=mc_range(256), b=mc_range(256), k=mc_choose(3); u8 d[40]; int n=k==0?2:k==1?12:33; for (int i=0;i<n;++i) d[i]=i%3==1?b:a; mc_desc("%02x %02x in %d bytes",a,b,n); mc_nontrivial(mc_mix(a*256+b,k)); round1(d,n,false); }
static void s_period(void){ // periods around every cache size, incompressible and nearly incompressible lengths
	int p=mc_range(mc_thorough?140:70)+1, k=mc_choose(4), off=mc_choose(3); int n=k==0?p:k==1?p+1:k==2?2*p+3:9*p; static u8 d[2000]; for (int i=0;i<n;++i) d[i]=(i%p)*(off==2?37:1)+(off==0?0:off==1?100:5); mc_desc("period %d length %d offset %d",p,n,off); mc_nontrivial(p*100+k*10+off); round1(d,n,mc_thorough?n<400:n<24);
}
static void s_limit(void){ // inputs whose compressed size is around the size of the source: m hits then literals
	int m=mc_range(40), l=mc_range(40), z=mc_choose(3), o=mc_choose(2); static u8 d[200]; int n=0; if (o) for (int i=0;i<l;++i) d[n++]=130+i*3; for (int i=0;i<m;++i) d[n++]=z==0?0:z==1?i&1:i&63; if (!o) for (int i=0;i<l;++i) d[n++]=130+i*3; mc_desc("%d cached then %d new bytes, order %d kind %d",m,l,o,z); mc_nontrivial(mc_mix(m*40+l,z*2+o)); round1(d,n,false);
}
static void s_resource(void){ // whole resources
	static const int sz[]={512,516,8192,49152}; int k=mc_choose(4), p=mc_choose(9); static u8 d[49152]; int n=sz[k]; for (int i=0;i<n;++i) d[i]=p==0?0:p==1?255:p==2?i:p==3?i/64:p==4?(i*7+(i>>8)*13):p==5?(i%5?0:i>>3):p==6?(i&1?0x22:i/300):p==7?(i*i>>5):(i==n-1?77:0); mc_desc("resource of %d bytes, content %d",n,p); mc_nontrivial(k*9+p); mc_no_case_timer(120); round1(d,n,false);
	// cut at every length near both ends
	struct sbc_compression_result q=sbc_optimal_compress(d,n,8); for (int c=0;c<q.size;c+=(c<20||c>q.size-20)?1:mc_thorough?17:997) try(q.output,c,n,q.bits); try(q.output,q.size,n,q.bits); free(q.output);
}
static void s_raw(void){ // arbitrary data
	int bits=mc_choose(13)-3, n=mc_choose(mc_thorough?4:3), size=mc_choose(12); u8 d[4]; for (int i=0;i<n;++i) d[i]=(n==3&&i==0)?mc_choose(16)*17:mc_range(256); mc_desc("data ");  for (int i=0;i<n;++i) mc_desc("%02x",d[i]); mc_desc(" to %d bytes, cache %d",size,bits); mc_nontrivial(mc_mix(mc_hash(d,n)+n,bits*16+size)); try(d,n,size,bits);
}
static void s_rawlong(void){ static const u8 al[]={0,0xff,0x80,0x7f,0xaa}; int bits=mc_choose(8), n=3+mc_choose(mc_thorough?6:4), size=mc_range(40); u8 d[12]; for (int i=0;i<n;++i) d[i]=al[mc_choose(5)]; mc_desc("data ");  for (int i=0;i<n;++i) mc_desc("%02x",d[i]); mc_desc(" to %d bytes, cache %d",size,bits); mc_nontrivial(mc_mix(mc_hash(d,n)+n,bits*64+size)); if (n>5 && size%4!=3) mc_skip(); try(d,n,size,bits); }
static void none(void){}
const mc_suite mc_suites[]={ {"strings",s_all,MC_QT,none},{"pairs",s_pairs,MC_QT,none},{"period",s_period,MC_QT,none},{"limit",s_limit,MC_QT,none},{"resource",s_resource,MC_QT,none},{"raw",s_raw,MC_QT,none},{"raw-long",s_rawlong,MC_QT,none} };
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

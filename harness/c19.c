// C19: SAVE/LOAD/APPEND/EXEC on real files in a private folder, with every truncation,
// corruption and disk-full point enumerated, against a byte-level model of the files.
#include "bas.h"
#include <ctype.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/resource.h>
const char* mc_rule = "every resource name x page x content pattern saved and loaded back; every disk-full byte position; every truncation length and every header byte value of every file format; every pair of file type and requested type; every package bit; every file name up to the stated length over the stated alphabet; every sequence of file operations up to the stated depth; counted by operation, resource and position";
// ---- containment: every path the code opens must lie directly in the program folder
static bool watch; static char escape[300];
static void seen(const char* p){
	if (!watch) return; if (!strncmp(p,"resources/",10) && !strstr(p,"..")) return;
	if (strncmp(p,"programs/",9) || strchr(p+9,'/') || strstr(p,"..")) if (!escape[0]) snprintf(escape,sizeof escape,"%s",p);
}
static bool bad(void){ return watch && escape[0]; }
FILE* __real_fopen(const char*,const char*); FILE* __wrap_fopen(const char* p,const char* m){ seen(p); if (bad()) { errno=EACCES; return NULL; } return __real_fopen(p,m); }
int __real_open(const char*,int,int); int __wrap_open(const char* p,int f,int m){ seen(p); if (bad()) { errno=EACCES; return -1; } return __real_open(p,f,m); }
int __real_rename(const char*,const char*); int __wrap_rename(const char* a,const char* b){ seen(a); seen(b); if (bad()) return -1; return __real_rename(a,b); }
int __real_remove(const char*); int __wrap_remove(const char* a){ seen(a); if (bad()) return -1; return __real_remove(a); }
int __real_unlink(const char*); int __wrap_unlink(const char* a){ seen(a); if (bad()) return -1; return __real_unlink(a); }

enum { PRG, CHR, SCR, GRP, MEM, COL };
static const char* const ty[]={"PETC0300RPRG","PETC0100RCHR","PETC0100RSCR","PETC0100RGRP","PETC0200RMEM","PETC0100RCOL"};
static const int tsz[]={0,8192,8192,49152,516,512};
// ---- resources
typedef struct { char n[8]; int t; u8* p; } R;
static R rs[300]; static int nrs;
static void radd(const char* b, int i, const char* s, int t, void* p){ R* r=&rs[nrs++]; if (i<0) sprintf(r->n,"%s",b); else sprintf(r->n,"%s%d%s",b,i,s); r->t=t; r->p=p; }
static void table(int page){
	nrs=0; struct resources* r=&P->res;
	for (int sc=0;sc<3;++sc){ const char* s=sc==0?"U":sc==1?"L":""; int q=sc==2?page:sc;
		for (int i=0;i<4;++i) radd("BGU",i,s,CHR,r->chr[8+i+CHR_BANKS*q]);
		for (int i=0;i<2;++i) radd("BGD",i,s,CHR,r->chr[4+i+CHR_BANKS*q]);
		radd("BGF",0,s,CHR,r->chr[CHR_BANKS*q]);
		for (int i=0;i<2;++i) radd("SPS",i,s,CHR,r->chr[20+i+CHR_BANKS*q]);
		for (int i=0;i<3;++i) radd("COL",i,s,COL,r->col[i+COL_BANKS*q]);
		for (int i=0;i<2;++i) radd("SCU",i,s,SCR,r->scr[2+i+SCR_BANKS*q]);
		if (sc!=1) for (int i=0;i<8;++i) radd("SPU",i,s,CHR,r->chr[12+i]);
		if (sc!=0) for (int i=0;i<4;++i) radd("SPD",i,s,CHR,r->chr[12+i+CHR_BANKS]);
	}
	for (int i=0;i<4;++i) radd("GRP",i,"",GRP,r->grp[i]);
	radd("MEM",-1,"",MEM,r->mem.data); radd("GRP",-1,"",GRP,r->grp[0]); radd("BGU",-1,"",CHR,r->chr[8+CHR_BANKS*page]); radd("BGD",-1,"",CHR,r->chr[4+CHR_BANKS*page]); radd("BGF",-1,"",CHR,r->chr[CHR_BANKS*page]);
	radd("SPU",-1,"",CHR,r->chr[12]); radd("SPS",-1,"",CHR,r->chr[20+CHR_BANKS*page]); radd("SPD",-1,"",CHR,r->chr[12+CHR_BANKS]); radd("COL",-1,"",COL,r->col[COL_BANKS*page]); radd("SCU",-1,"",SCR,r->scr[2+SCR_BANKS*page]);
}
static R* rfind(const char* n){ for (int i=0;i<nrs;++i) if (!strcmp(rs[i].n,n)) return &rs[i]; mc_fail("no resource %s in the table",n); }
// ---- the whole loadable state
static struct { u8* p; int n; } parts[80]; static int nparts;
static void mkparts(void){
	struct resources* r=&P->res; nparts=0;
	for (int i=0;i<CHR_BANKS*2;++i){ parts[nparts].p=r->chr[i]; parts[nparts++].n=CHR_SIZE; }
	for (int i=0;i<SCR_BANKS*2;++i){ parts[nparts].p=(u8*)r->scr[i]; parts[nparts++].n=SCR_SIZE; }
	for (int i=0;i<4;++i){ parts[nparts].p=r->grp[i]; parts[nparts++].n=GRP_SIZE; }
	for (int i=0;i<COL_BANKS*2;++i){ parts[nparts].p=(u8*)r->col[i]; parts[nparts++].n=COL_SIZE; }
	parts[nparts].p=r->mem.data; parts[nparts++].n=MEM_SIZE;
}
static uint64_t ph[80]; static struct { idx size; char prg[256]; char name[9], pk[13]; u8 regen[CHR_BANKS*2+1]; u32 memlen; uint64_t prgh; } ps;
static uint64_t fasth(const u8* p, int n){ uint64_t h=n, x; for (int i=0;i+8<=n;i+=8){ memcpy(&x,p+i,8); h=(h^x)*0x9e3779b97f4a7c15ull; h^=h>>29; } for (int i=n&~7;i<n;++i) h=(h^p[i])*0x9e3779b97f4a7c15ull; return h; }
static uint64_t prghash(void){ return fasth((u8*)P->exec.prg.data,P->exec.prg.size); }
static void mark(void){
	for (int i=0;i<nparts;++i) ph[i]=fasth(parts[i].p,parts[i].n);
	ps.size=P->exec.prg.size; ps.prgh=prghash(); memcpy(ps.name,P->res.prgname,9); memcpy(ps.pk,P->res.package,13); ps.memlen=P->res.mem_str.len;
	memset(P->res.regen_chr,0,sizeof P->res.regen_chr); P->res.regen_col=false;
}
// everything is as at mark(), except the listed parts
static void unchanged(const char* what, const u8* except, bool prg){
	mc_validated(1);
	for (int i=0;i<nparts;++i) if (parts[i].p!=except && fasth(parts[i].p,parts[i].n)!=ph[i]) mc_fail("%s changed a resource it does not name (part %d)",what,i);
	if (!prg) if (P->exec.prg.size!=ps.size || prghash()!=ps.prgh) mc_fail("%s changed the program",what);
	if (!prg) if (memcmp(ps.name,P->res.prgname,9)||memcmp(ps.pk,P->res.package,13)) mc_fail("%s changed PRGNAME$ or PACKAGE$",what);
	if (except!=P->res.mem.data && P->res.mem_str.len!=ps.memlen) mc_fail("%s changed the length of MEM$",what);
}
static void pattern(u8* p, int n, int k){ for (int i=0;i<n;++i) p[i]=k==0?0:k==1?0xff:k==2?(i*7+(i>>8)*13+1):(i*31+(i>>5))^0xa5; }
static void fill(const R* r, int k){ pattern(r->p,tsz[r->t],k); if (r->t==MEM){ u32 l=k==0?0:k==1?256:k==2?5:100; memcpy(r->p+512,&l,4); P->res.mem_str.len=l; } }
// ---- files
static u8 fb[4<<20]; static int fn;
static void fput(const char* n, const u8* d, int len){ char b[80]; sprintf(b,"programs/%s",n); FILE* f=__real_fopen(b,"wb"); if (!f) mc_fail("harness: cannot write %s",b); fwrite(d,1,len,f); fclose(f); }
static u8 rb[4<<20]; static int rn;
static bool fget(const char* n){ char b[80]; sprintf(b,"programs/%s",n); FILE* f=__real_fopen(b,"rb"); if (!f){ rn=-1; return false; } rn=fread(rb,1,sizeof rb,f); fclose(f); return true; }
static void clean(const char* d){ DIR* x=opendir(d); if (!x) return; struct dirent* e; while ((e=readdir(x))) if (strcmp(e->d_name,".")&&strcmp(e->d_name,"..")){ char b[400]; snprintf(b,sizeof b,"%s/%s",d,e->d_name); if (__real_unlink(b)) rmdir(b); } closedir(x); }
static int files(void){ DIR* x=opendir("programs"); int n=0; if (!x) return -1; struct dirent* e; while ((e=readdir(x))) if (e->d_name[0]!='.') ++n; closedir(x); return n; }
static void start(int page){
	setmode(0); clean("programs"); sys_reset(); escape[0]=0; watch=true; must("BGPAGE %d:SPPAGE %d:GPAGE %d",page,page,page); table(page); P->res.result=2;
}
static int go(const char* f, ...){ char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); P->res.result=2; int e=bas("%s",b); if (escape[0]) mc_fail("%s uses the file %s",b,escape); return e; }
static bool result(void){ int r=P->res.result; if (r!=0 && r!=1) mc_fail("RESULT is %d",r); return r; }
static bool regenok(const R* r, bool changed){ // display refresh request of exactly the changed bank
	for (int i=0;i<CHR_BANKS*2;++i){ bool me=r && r->t==CHR && P->res.chr[i]==r->p; if (me && changed && !P->res.regen_chr[i]) return false; }
	return !(r && r->t==COL && changed && !P->res.regen_col);
}
// ---- save and load of every resource
static void s_round(void){
	int page=mc_choose(2), i=mc_range(mc_thorough?120:120), k=mc_choose(4); start(page); if (i>=nrs) mc_skip(); R* r=&rs[i];
	mc_desc("%s page %d pattern %d",r->n,page,k); fill(r,k); static u8 keep[49152]; memcpy(keep,r->p,tsz[r->t]); u32 ml=P->res.mem_str.len; mark(); mc_nontrivial(mc_mix(i,page*10+k));
	int e=go("SAVE \"%s:FILE1\"",r->n); if (e) mc_fail("SAVE: %s",errname(e)); if (!result()) mc_fail("SAVE reports failure"); unchanged("SAVE",NULL,false); shows("1","RESULT");
	if (files()!=1) mc_fail("%d files in the folder after one SAVE",files()); fget("FILE1.PTC"); mc_state(fasth(rb,rn));
	fill(r,(k+1)&3); mark(); e=go("LOAD \"%s:FILE1\"",r->n); if (e) mc_fail("LOAD: %s",errname(e)); if (!result()) mc_fail("LOAD reports failure");
	if (memcmp(keep,r->p,tsz[r->t])) mc_fail("loading does not restore what was saved"); if (r->t==MEM && P->res.mem_str.len!=ml) mc_fail("MEM$ has %d characters, expected %d",(int)P->res.mem_str.len,(int)ml);
	unchanged("LOAD",r->p,false); if (!regenok(r,true)) mc_fail("loaded bank is not marked for display"); mc_validated(2);
	// again into every other bank of the same kind
	for (int j=0;j<nrs;++j) if (rs[j].t==r->t && rs[j].p!=r->p && (j%7==k || mc_thorough)){ mark(); e=go("LOAD \"%s:FILE1\"",rs[j].n); if (e||!result()) mc_fail("LOAD into %s failed",rs[j].n); if (memcmp(keep,rs[j].p,tsz[r->t])) mc_fail("loading into %s gives different data",rs[j].n); unchanged("LOAD",rs[j].p,false); if (!regenok(&rs[j],true)) mc_fail("loaded bank %s is not marked for display",rs[j].n); }
}
// ---- program texts
static void setprg(int n, int k){ u8* d=(u8*)P->exec.prg.data; for (int i=0;i<n;++i) d[i]=k==0?"A=1\r"[i&3]:k==1?i:(i*37+(i>>8)+5); P->exec.prg.size=n; }
static void s_text(void){
	static const int big[]={255,256,257,65535,65536,65537,131072,524284,524285,524286,524287,524288};
	int s=mc_range(mc_thorough?140:52), k=mc_choose(3), pre=mc_choose(2); int lim=mc_thorough?128:40; int n=s<lim?s:big[(s-lim)%12]; start(0); mc_desc("program of %d bytes pattern %d%s",n,k,pre?" typed prefix":""); 
	setprg(n,k); static u8 keep[524288]; memcpy(keep,P->exec.prg.data,n); mark(); mc_nontrivial(mc_mix(n,k*2+pre)); int e=go("SAVE \"%sTEXT\"",pre?"PRG:":""); if (e||!result()) mc_fail("SAVE failed"); unchanged("SAVE",NULL,false);
	must("NEW"); if (P->exec.prg.size) mc_fail("NEW leaves a program"); memset(P->exec.prg.data,'X',600); mark(); e=go("LOAD \"%sTEXT\"",pre?"":"PRG:"); if (e) mc_fail("LOAD: %s",errname(e)); if (!result()) mc_fail("LOAD reports failure");
	if ((int)P->exec.prg.size!=n || memcmp(keep,P->exec.prg.data,n)) mc_fail("loading does not restore the program"); unchanged("LOAD",NULL,true); shows("TEXT","PRGNAME$"); shows("0","PACKAGE$"); mc_state(prghash());
}
static void s_memtext(void){ // MEM$ through BASIC only
	int n=mc_range(257), k=mc_choose(3); start(0); if (!mc_thorough && n>20 && n<250 && n%10) mc_skip(); mc_desc("MEM$ of %d characters",n); mc_nontrivial(n*3+k);
	char c[8]; must("A$=\"\":FOR I=1 TO %d:A$=A$+CHR$((I*%d+%d)%%256):NEXT",n,k==0?0:k==1?1:7,k*60+1); strcpy(c,"A$");
	must("MEM$=%s",c); int e=go("SAVE \"MEM:T\""); if (e||!result()) mc_fail("SAVE failed"); must("MEM$=\"other\""); e=go("LOAD \"MEM:T\""); if (e||!result()) mc_fail("LOAD failed");
	shows("1","MEM$==A$"); char w[9]; sprintf(w,"%d",n); shows(w,"LEN(MEM$)"); mc_state(n*3+k);
}
// ---- file images
static int mk(int type, int fmt, int k, int cut){ // fmt 0 PETC, 1 PX01, 2.. SBCC; returns length in fb
	int n=0; memset(fb,0,64); static u8 d[49152]; if (type!=PRG){ pattern(d,tsz[type],k); if (type==MEM){ u32 l=77; memcpy(d+512,&l,4); } }
	if (fmt==1){ memcpy(fb,"PX01",4); n=36; u32 sz=tsz[type]+12; memcpy(fb+4,&sz,4); memcpy(fb+12,"HDRNAME",8); for (int i=20;i<36;++i) fb[i]=i*9; }
	if (fmt<=1){ memcpy(fb+n,ty[type],12); n+=12; if (type==PRG){ memset(fb+n,0,12); u32 sz=cut; memcpy(fb+n+8,&sz,4); n+=12; for (int i=0;i<cut;++i) fb[n++]="B=2\r"[i&3]; while (n&3) fb[n++]=0; } else { memcpy(fb+n,d,tsz[type]); n+=tsz[type]; } }
	else { // compressed, written by an independent encoder; bits per cache index = fmt-2
		int bits=fmt-2, size=tsz[type]; memcpy(fb,"SBCC",4); fb[4]=bits; fb[5]=size; fb[6]=size>>8; fb[7]=size>>16; n=8; u8 cache[128]; for (int i=0;i<128;++i) cache[i]=i; int nx=0; long bit=0; memset(fb+8,0,2*49152);
		#define PUT(v,b) do { for (int q_=(b)-1;q_>=0;--q_,++bit) if ((v)>>q_&1) fb[8+bit/8]|=128>>bit%8; } while (0)
		for (int i=0;i<size;++i){ int u=d[i], j; for (j=0;j<1<<bits;++j) if (cache[j]==u) break; if (j<1<<bits){ PUT(0,1); PUT(j,bits); } else { PUT(1,1); PUT(u,8); cache[nx]=u; nx=(nx+1)%(1<<bits); } }
		n=8+(bit+7)/8;
	}
	return n;
}
// the model of LOAD: 0 refused, 1 loaded (data in mb), 2 either
static u8 mb[524288+64]; static int mbn; static struct { const char* r; u8* d; } mp[46]; static int nmp;
static const char* const pkn[45]={"SPU0","SPU1","SPU2","SPU3","SPU4","SPU5","SPU6","SPU7","BGU0U","BGU1U","BGU2U","BGU3U","BGF0U","COL0U","COL1U","COL2U","SCU0U","SCU1U","GRP0","GRP1","GRP2","GRP3","MEM","SPD0","SPD1","SPD2","SPD3","BGU0L","BGU1L","BGU2L","BGU3L","BGF0L","COL0L","COL1L","COL2L","SCU0L","SCU1L","SPS0U","SPS1U","BGD0U","BGD1U","SPS0L","SPS1L","BGD0L","BGD1L"};
static int ptype(const char* n){ return n[0]=='G'?GRP:n[0]=='M'?MEM:n[0]=='C'?COL:n[1]=='C'?SCR:CHR; }
static u32 le(const u8* p){ return p[0]|p[1]<<8|p[2]<<16|(u32)p[3]<<24; }
static int model(int type, char* nm){
	const u8* f=fb; int n=fn, o; nmp=0;
	if (type==PRG){
		if (n>=60 && !memcmp(f,"PX01",4)){ if (memcmp(f+36,ty[PRG],12)) return 0; o=48; memcpy(nm,f+12,8); nm[8]=0; }
		else if (n>=24 && !memcmp(f,ty[PRG],12)) o=12; else return 0;
		uint64_t pk=(uint64_t)le(f+o)<<32|le(f+o+4); u32 sz=le(f+o+8); o+=12; if (sz>524288 || (long)sz>n-o) return 0; memcpy(mb,f+o,sz); mbn=sz; o+=(sz+3)/4*4;
		for (int i=0;i<45;++i) if (pk>>i&1){ int t=ptype(pkn[i]); if (n-o<12+tsz[t] || memcmp(f+o,ty[t],12)) return 0; o+=12; if (t==MEM && le(f+o+512)>256) return 0; mp[nmp].r=pkn[i]; mp[nmp++].d=fb+o; o+=tsz[t]; }
		return 1;
	}
	if (n>=8 && !memcmp(f,"SBCC",4)){
		if ((f[5]|f[6]<<8|f[7]<<16)!=tsz[type]) return 0; int bits=f[4]; mbn=tsz[type]; if (bits==255){ if (n-8<mbn) return 0; memcpy(mb,f+8,mbn); }
		else { if (bits>7) return 0; u8 c[128]; for (int i=0;i<128;++i) c[i]=i; int nx=0; long b=0, end=(n-8)*8L;
			#define GET(v,k) do { (v)=0; if (b+(k)>end) return 0; for (int q_=0;q_<(k);++q_,++b) (v)=(v)<<1|(f[8+b/8]>>(7-b%8)&1); } while (0)
			for (int i=0;i<mbn;++i){ int x,y; GET(x,1); if (x){ GET(y,8); mb[i]=c[nx]=y; nx=(nx+1)%(1<<bits); } else { GET(y,bits); mb[i]=c[y]; } } }
		return type==MEM && le(mb+512)>256 ? 0 : 1;
	}
	if (n>=48 && !memcmp(f,"PX01",4)){ o=48; if (memcmp(f+36,ty[type],12)) return 0; } else if (n>=12 && !memcmp(f,ty[type],12)) o=12; else return 0;
	if (n-o<tsz[type]) return 0; mbn=tsz[type]; memcpy(mb,f+o,mbn); return type==MEM && le(mb+512)>256 ? 0 : 1;
}
static const char* const nameof[]={"PRG","SPU3","SCU1L","GRP2","MEM","COL1U"};
static void try(int type, bool either){ // load fb[0..fn) as type and compare with the model
	fput("T.PTC",fb,fn); char nm[9]="T"; int m=model(type,nm); const R* r=type==PRG?NULL:rfind(nameof[type]); if (type==PRG) setprg(40,1); else fill(r,3); mark();
	int e=go("LOAD \"%s:T\"",nameof[type]); bool ok=!e && result(); mc_validated(1); if (e && P->res.result==1) mc_fail("RESULT is TRUE after an error");
	if (!either && ok!=(m==1)) mc_fail("LOAD %s, expected %s",ok?"succeeded":"failed",m?"success":"failure"); mc_state(mc_mix(mc_mix(type*2+ok,fn),fasth(fb,fn)));
	fget("T.PTC"); if (rn!=fn || memcmp(rb,fb,fn)) mc_fail("LOAD changed the file");
	if (!ok){ unchanged("a failed LOAD",NULL,false); return; }
	if (type!=PRG){ if (memcmp(r->p,mb,mbn)) mc_fail("loaded data differ from the file"); unchanged("LOAD",r->p,false); if (type==MEM && P->res.mem_str.len!=le(mb+512)) mc_fail("wrong length of MEM$"); if (!regenok(r,true)) mc_fail("loaded bank is not marked for display"); return; }
	if ((int)P->exec.prg.size!=mbn || memcmp(P->exec.prg.data,mb,mbn)) mc_fail("loaded program differs from the file"); if (strcmp(nm,P->res.prgname)) mc_fail("PRGNAME$ is %s, expected %s",P->res.prgname,nm);
	uint64_t pk=0; for (int i=0;i<12;++i) pk=pk<<4|(P->res.package[i]>='A'?P->res.package[i]-'A'+10:P->res.package[i]-'0'); int o=!memcmp(fb,"PX01",4)?48:12; uint64_t want=((uint64_t)le(fb+o)<<32|le(fb+o+4))&0xffffffffffffull; if (pk!=want) mc_fail("PACKAGE$ is %s, expected %llX",P->res.package,(unsigned long long)want);
	for (int i=0;i<nmp;++i){ R* q=rfind(mp[i].r); if (memcmp(q->p,mp[i].d,tsz[q->t])) mc_fail("packaged %s was not loaded",mp[i].r); if (!regenok(q,true)) mc_fail("loaded bank %s is not marked for display",q->n); if (q->t==MEM && P->res.mem_str.len!=le(mp[i].d+512)) mc_fail("wrong length of MEM$ after loading a package"); for (int j=0;j<nparts;++j) if (parts[j].p==q->p) ph[j]=fasth(q->p,tsz[q->t]); if (q->t==MEM) ps.memlen=P->res.mem_str.len; }
	unchanged("LOAD",NULL,true);
}
static void s_trunc(void){
	int t=mc_choose(6), fmt=mc_choose(t==PRG?2:5), k=mc_choose(2); int c=mc_range(t==GRP?1400:600); start(0); fn=mk(t,fmt<2?fmt:fmt==2?2:fmt==3?5:9,k?2:3,t==PRG?150:0); int full=fn;
	// every length near the start, then every 64th (thorough: every 8th) and the last 32
	int dense=t==PRG||t==MEM||t==COL?full:mc_thorough?200:80, step=mc_thorough?64:256; int lo; if (c<=dense) lo=c; else lo=dense+(c-dense)*step; 
	int tail=full-32; if (lo>tail && c>dense){ static int last; last=dense+(tail-dense)/step; lo=tail+(c-last); } if (lo>full) mc_skip(); 
	fn=lo; mc_desc("%s file, format %d, cut to %d of %d bytes",ty[t]+9,fmt,fn,full); mc_nontrivial(mc_mix(t*10+fmt,fn)); try(t,false);
}
static void s_corrupt(void){
	int t=mc_choose(6), fmt=mc_choose(3), o=mc_range(64), v=mc_range(mc_thorough?256:40); static const int q[]={0,1,2,3,4,5,6,7,8,9,10,13,16,31,32,48,51,64,65,67,71,76,77,80,82,83,88,99,127,128,129,150,151,152,200,254,255,12,36,40}; int val=mc_thorough?v:q[v];
	if (fmt==2&&t==PRG) mc_skip(); int hl=fmt==0?12:fmt==1?48:16; if (t==PRG) hl+=12; if (o>=hl && !(t==MEM && o>=hl && o<hl+4)) mc_skip(); int at=o; start(0); fn=mk(t,fmt==2?6:fmt,2,t==PRG?50:0); if (o>=hl) at=fn-4+(o-hl); if (t==MEM&&o>=hl&&fmt==2) mc_skip();
	mc_desc("%s file, format %d, byte %d becomes %d",ty[t]+9,fmt,at,val); fb[at]=val; mc_nontrivial(mc_mix(t*10+fmt,at*256+val)); bool either=fmt==1 && ((at>=4&&at<12)||(at>=20&&at<36)||(t!=PRG&&at>=12&&at<20)); 
	if (fmt==1&&t==PRG&&at>=12&&at<20&&val==0) mc_skip(); 
	try(t,either);
}
static void s_types(void){ // any file requested as any type, plus foreign files
	int f=mc_choose(10), t=mc_choose(6), fmt=mc_choose(3); if (fmt==2&&(f==PRG||f>5)) mc_skip(); start(0); static const char* const o[]={"","PX01","random text","PETC0300R"}; if (f<6) fn=mk(f,fmt==2?6:fmt,2,f==PRG?77:0); else { fn=strlen(o[f-6]); memcpy(fb,o[f-6],fn); }
	mc_desc("file %d format %d requested as %s",f,fmt,nameof[t]); mc_nontrivial(f*100+t*10+fmt); try(t,false);
	// a missing file, and a folder in place of the file
	clean("programs"); mark(); go("LOAD \"%s:NOPE\"",nameof[t]); if (result()) mc_fail("RESULT is TRUE for a missing file"); unchanged("a failed LOAD",NULL,false);
	mkdir("programs/DIR.PTC",0700); mark(); go("LOAD \"%s:DIR\"",nameof[t]); if (result()) mc_fail("RESULT is TRUE for a folder"); unchanged("a failed LOAD",NULL,false);
	go("SAVE \"%s:DIR\"",nameof[t]); if (result()) mc_fail("RESULT is TRUE though SAVE cannot replace a folder"); unchanged("a failed SAVE",NULL,false);
}
static void s_package(void){
	int a=mc_range(45), b=mc_range(mc_thorough?45:8), fault=mc_choose(7), fmt=mc_choose(2); int bb=mc_thorough?b:(a*5+b*11+3)%45; if (mc_thorough ? b<a : (b && bb<=a)) mc_skip(); if (!mc_thorough&&!b) bb=a; start(mc_choose(2)); 
	fn=mk(PRG,fmt,0,30+a%4); int o=fmt?48:12; uint64_t pk=1ull<<a|1ull<<bb; u32 hi=pk>>32, lo=pk; memcpy(fb+o,&hi,4); memcpy(fb+o+4,&lo,4); int first=0;
	for (int i=0;i<45;++i) if (pk>>i&1){ int t=ptype(pkn[i]); if (!first) first=fn; else if (fault==3) fb[first+9]^=1; memcpy(fb+fn,ty[t],12); if (fault==1 && i==(a>bb?a:bb)) fb[fn+9]^=1; fn+=12; pattern(fb+fn,tsz[t],2+(i&1)); if (t==MEM){ u32 l=fault==4?257:33; memcpy(fb+fn+512,&l,4); } fn+=tsz[t]; }
	if (fault==2) fn-=1; if (fault==5) fn-=513; if (fault==6) memcpy(fb+fn,"trailing",8), fn+=8; mc_desc("package %s %s fault %d format %d",pkn[a],pkn[bb],fault,fmt); mc_nontrivial(mc_mix(a*45+bb,fault*2+fmt)); try(PRG,false);
	if (fault==0){ char w[16]; sprintf(w,"%llX",(unsigned long long)pk); shows(w,"PACKAGE$"); }
}
// ---- disk full at every position
static void s_full(void){
	int t=mc_choose(6), had=mc_choose(3), c=mc_range(t==GRP?900:620); start(0); int size=t==PRG?12+12+200:12+tsz[t]; int dense=t==PRG||t==MEM||t==COL?size+3:64, step=mc_thorough?32:256; int L=c<dense?c:dense+(c-dense)*step; int tail=size-8; if (c>=dense && L>tail) L=tail+(c-dense-(tail-dense)/step); if (L>size+2) mc_skip();
	const R* r=t==PRG?NULL:rfind(nameof[t]); if (t==PRG) setprg(200,2); else fill(r,2); mc_desc("SAVE \"%s:F\" with room for %d of %d bytes%s",nameof[t],L,size,had==1?", replacing a file of the same type":had==2?", replacing another file":""); mc_nontrivial(mc_mix(t*3+had,L));
	static u8 old[60000]; int oldn=0; if (had){ oldn=had==1?size:100; for (int i=0;i<oldn;++i) old[i]=i*3; fput("F.PTC",old,oldn); } fput("G.PTC",(u8*)"neighbour",9); mark();
	struct rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); struct rlimit nl={L,rl.rlim_max}; setrlimit(RLIMIT_FSIZE,&nl); P->res.result=2; int e=bas("SAVE \"%s:F\"",nameof[t]); setrlimit(RLIMIT_FSIZE,&rl); if (escape[0]) mc_fail("uses the file %s",escape);
	bool ok=!e && result(); unchanged("SAVE",NULL,false); mc_validated(1); mc_state(mc_mix(L,t*2+ok)); bool there=fget("F.PTC");
	if (L>=size && !ok) mc_fail("SAVE failed though there is room");
	if (ok){ if (!there) mc_fail("RESULT is TRUE but there is no file"); memcpy(fb,rb,rn); fn=rn; fput("T.PTC",fb,fn); char nm[9]="T"; int m=model(t,nm); if (!m) mc_fail("RESULT is TRUE but the file is incomplete (%d bytes)",rn); if (t==PRG ? mbn!=200||memcmp(mb,P->exec.prg.data,200) : memcmp(mb,r->p,mbn)) mc_fail("the file does not hold what was saved"); }
	else { if (had ? !there || rn!=oldn || memcmp(rb,old,rn) : there) mc_fail(had?"a failed SAVE destroyed the existing file":"a failed SAVE left a damaged file"); }
	if (!fget("G.PTC") || rn!=9 || memcmp(rb,"neighbour",9)) mc_fail("another file was changed"); if (!there && ok) mc_fail("no file");
	__real_unlink("programs/G.PTC"); if (files()!=(there?1+(ok?1:0):0)) mc_fail("SAVE left an extra file behind");
	// and afterwards saving works again
	if (!ok){ go("SAVE \"%s:F\"",nameof[t]); if (!result()) mc_fail("SAVE fails after the disk has room again"); }
}
// ---- names
static const char* const verbs[]={"LOAD","SAVE","EXEC","APPEND"};
static bool legal(const char* s, int n, int v){ // [type:]NAME
	int c=-1; for (int i=0;i<n;++i) if (s[i]==':'){ c=i; break; }
	int from=c<0?0:c+1; if (n-from<1||n-from>8) return false;
	for (int i=from;i<n;++i) if (!(s[i]=='_'||(s[i]>='0'&&s[i]<='9')||(s[i]>='A'&&s[i]<='Z')||(s[i]>='a'&&s[i]<='z'))) return false;
	if (c<0) return true; char t[8]; if (c>5) return false; memcpy(t,s,c); t[c]=0; (void)v; if (!strcmp(t,"PRG")) return true; for (int i=0;i<nrs;++i) if (!strcmp(t,rs[i].n)) return true; return false;
}
static void name_case(const char* s, int n, int v){
	// the folder holds A.PTC (a program); its parent and siblings hold programs too
	mark(); char lit[200]; int o=sprintf(lit,"\""); for (int i=0;i<n;++i){ u8 ch=s[i]; if (ch<32||ch>126||ch=='"') o+=sprintf(lit+o,"\"+CHR$(%d)+\"",ch); else lit[o++]=ch; } lit[o++]='"'; lit[o]=0;
	must("N$=%s",lit); mark(); int before=files(); int e=go("%s N$",verbs[v]); bool ok=!e && P->res.result==1; mc_validated(1); bool lg=legal(s,n,v);
	if (!lg){ if (!e) mc_fail("an illegal name was accepted"); if (P->res.result==1) mc_fail("RESULT is TRUE after a refused name"); unchanged("a refused statement",NULL,false); if (files()!=before) mc_fail("a refused statement changed the folder"); }
	(void)ok;
	if (v==1 && lg && e) mc_fail("a legal name was refused: %s",errname(e));
	if (v!=1 && files()!=before) mc_fail("%s changed the folder",verbs[v]);
	// nothing outside was touched
	FILE* f=__real_fopen("outside/A.PTC","rb"); char b[80]={0}; if (!f) mc_fail("a file outside the folder is gone"); int q=fread(b,1,79,f); fclose(f); if (q!=44 || memcmp(b+24,"OUTSIDE=1",9)) mc_fail("a file outside the folder was changed"); 
	DIR* d=opendir("."); int cnt=0; struct dirent* x; while ((x=readdir(d))) if (x->d_name[0]!='.') ++cnt; closedir(d); if (cnt!=3) mc_fail("a file appeared outside the folder"); d=opendir("outside"); cnt=0; while ((x=readdir(d))) if (x->d_name[0]!='.') ++cnt; closedir(d); if (cnt!=1) mc_fail("a file appeared outside the folder");
	if (v!=1 && !e && P->exec.prg.size>=9 && memmem(P->exec.prg.data,P->exec.prg.size,"OUTSIDE",7)) mc_fail("a program from outside the folder was loaded");
}
static void outside(void){
	static u8 b[44]; memcpy(b,ty[PRG],12); b[20]=20; memcpy(b+24,"OUTSIDE=1:X=2'.......",20); mkdir("outside",0700); FILE* f=__real_fopen("outside/A.PTC","wb"); if (f){ fwrite(b,1,44,f); fclose(f); } f=__real_fopen("A.PTC","wb"); if (f){ fwrite(b,1,44,f); fclose(f); }
	memcpy(b+24,"INSIDE=1:X=2'......\r",20); fput("A.PTC",b,44);
}
static void s_names(void){
	static const char al[]="A1_./:\\ -a*"; int v=mc_choose(4), pre=mc_choose(6), L=mc_choose(mc_thorough?5:4); static const char* const pf[]={"","PRG:","MEM:","../","AAAAAA","GRP5:"}; char s[40]; strcpy(s,pf[pre]); int n=strlen(s); for (int i=0;i<L;++i) s[n++]=al[mc_choose(11)]; s[n]=0; mc_desc("%s \"%s\"",verbs[v],s);
	start(0); outside(); setprg(8,0); mc_nontrivial(mc_hash(s,n)*4+v); mc_state(mc_hash(s,n)); name_case(s,n,v);
}
static void s_chars(void){ // every character code at every position
	int v=mc_choose(4), c=mc_range(256), pos=mc_choose(10), len=mc_choose(3); int n=len==0?1:len==1?4:9; if (pos>=n) mc_skip(); char s[16]; memset(s,'A',n); s[pos]=c; if (!c && pos) mc_skip(); if (c==0 && n==1) mc_skip(); mc_desc("%s name of %d with character %d at %d",verbs[v],n,c,pos); if (!c) mc_skip();
	start(0); outside(); setprg(8,0); mc_nontrivial(mc_mix(c*16+pos,v*3+len)); mc_state(mc_mix(c,pos)); name_case(s,n,v);
}
static void s_long(void){ // names and type parts of every length
	int v=mc_choose(4), a=mc_range(14), b=mc_range(14); char s[60]; int n=0; static const char t[]="PRGXYZABCDEFGH"; for (int i=0;i<a;++i) s[n++]=t[i]; if (a) s[n++]=':'; for (int i=0;i<b;++i) s[n++]='B'; if (a>=4&&a<=5&&b>0&&b<=8) mc_skip(); // text after PRG is ignored
	s[n]=0; mc_desc("%s \"%s\"",verbs[v],s); start(0); outside(); setprg(8,0); mc_nontrivial(a*100+b*4+v); mc_state(a*14+b); name_case(s,n,v);
}
// ---- APPEND
// ---- FILES: the names of exactly the files which can be named, one per line
static int fmust[64]; static char fname[64][24]; static int nfn;
static void fadd(const char* n){ if (!strcmp(n,".")||!strcmp(n,"..")||strlen(n)>20) mc_skip(); u8 d[24]={0}; memcpy(d,"PETC0300RPRG",12); fput(n,d,24); const char* x=strchr(n,'.'); int l=x?x-n:0; bool ok=l>=1&&l<=8; for (int i=0;i<l;++i) ok=ok&&(isalnum((u8)n[i])||n[i]=='_'); int m=!ok?0:!strcmp(x,".PTC")?1:2; if (!m) return; char b[24]; snprintf(b,sizeof b,"%.*s",l,n); for (int i=0;i<nfn;++i) if (!strcmp(fname[i],b)){ if (m!=fmust[i]) fmust[i]=fmust[i]==1||m==1?3:2; else if (m==2) fmust[i]=2; return; } strcpy(fname[nfn],b); fmust[nfn++]=m; }
static void flist(void){ must("CLS"); must("FILES"); int seen[64]={0}, y=0; for (;y<24;++y){ char r[40]; snprintf(r,sizeof r,"%s",sys_row(y)); int l=strlen(r); while (l&&r[l-1]==' ') r[--l]=0; if (!l) break; int i=0; while (i<nfn&&strcmp(r,fname[i])) ++i; if (i==nfn) mc_fail("FILES lists \"%s\"",r); if (seen[i]++&&fmust[i]==1) mc_fail("FILES lists \"%s\" twice",r); } for (int i=0;i<nfn;++i) if ((fmust[i]&1)&&!seen[i]) mc_fail("FILES does not list \"%s\"",fname[i]); for (int i=y;i<24;++i) for (const char* r=sys_row(i);*r;++r) if (*r!=' ') mc_fail("FILES leaves an empty line"); if (P->console.x||P->console.y!=y) mc_fail("FILES leaves the cursor at %d,%d after %d names",P->console.x,P->console.y,y); if (nfn) mc_nontrivial(mc_hash(fname,sizeof fname)); mc_state(mc_hash(fname,sizeof fname)); mc_validated(1+y); mc_outcome(mc_mix(y,nfn)); }
static void s_files(void){ static const char al[]="A1_.- aZ"; static const char* const pf[]={"","AB","ABCDEF","ABCDEFGH","x"}; int pre=mc_choose(5), L=mc_choose(mc_thorough?6:5), ext=mc_choose(3); memset(fname,0,sizeof fname); nfn=0; start(0); char n[40]; strcpy(n,pf[pre]); int k=strlen(n); for (int i=0;i<L;++i) n[k++]=al[mc_choose(8)]; n[k]=0; strcat(n,ext==0?".PTC":ext==1?"":".TXT"); if (!n[0]) mc_skip(); mc_desc("file \"%s\"",n); fadd(n); if (strcmp(n,"K.PTC")) fadd("K.PTC"); flist(); }
static void s_fileset(void){ static const char* const fs[]={"A.PTC","B_1.PTC","ABCDEFGH.PTC","ABCDEFGHI.PTC",".PTC",".X","NOEXT","A-B.PTC","9.PTC","low.PTC","ABCDEFGHIJKLMNO","C.TXT"}; int m=mc_range(4096); memset(fname,0,sizeof fname); nfn=0; start(0); for (int i=0;i<12;++i) if (m>>i&1){ fadd(fs[i]); mc_desc(" %s",fs[i]); } flist(); clean("programs"); unlink("programs/.PTC"); unlink("programs/.X"); }
static void s_append(void){
	static const int cs[]={0,1,5,40,524283,524284,524287,524288}; int c=mc_choose(8), n=mc_range(12), fmt=mc_choose(2), cut=mc_choose(4); int have=cs[c]; start(0); fn=mk(PRG,fmt,0,n); int full=(fmt?60:24)+n; if (cut==1) fn=full-1; else if (cut==2) fn=full-3; else if (cut==3) fn=fmt?59:23; else fn=full; if (n==0&&(cut==1||cut==2)) mc_skip(); if (n<3&&cut==2) mc_skip();
	fput("T.PTC",fb,fn); setprg(have,1); static char keep[524288]; memcpy(keep,P->exec.prg.data,have); mark(); mc_desc("APPEND %d bytes (fault %d format %d) to %d",n,cut,fmt,have); mc_nontrivial(mc_mix(have,n*8+cut*2+fmt));
	int e=go("APPEND \"T\""); bool ok=!e && result(); int sz=P->exec.prg.size; mc_validated(1); mc_state(mc_mix(sz,ok)); if (sz<have || memcmp(keep,P->exec.prg.data,have)) mc_fail("the existing text was changed");
	bool fits=have+n<=524288;
	if (cut && (fits || cut==3)){ if (ok) mc_fail("RESULT is TRUE for an incomplete file"); if (sz!=have) mc_fail("text of an incomplete file was added"); }
	if (!cut && fits){ if (!ok) mc_fail("APPEND failed"); if (sz!=have+n) mc_fail("%d bytes were added, expected %d",sz-have,n); }
	if (sz>524288) mc_fail("program larger than the program memory"); if (sz-have>n) mc_fail("too much was added"); for (int i=0;i<sz-have;++i) if (P->exec.prg.data[have+i]!="B=2\r"[i&3]) mc_fail("added text differs from the file"); unchanged("APPEND",NULL,true);
}
static void s_appendtype(void){ int f=mc_choose(6), fmt=mc_choose(3), v=mc_choose(2); if (f==PRG&&fmt==2) mc_skip(); start(0); fn=mk(f,fmt==2?6:fmt,2,f==PRG?8:0); fput("T.PTC",fb,fn); setprg(10,1); mark(); mc_desc("%s of file type %d format %d",v?"EXEC":"APPEND",f,fmt); mc_nontrivial(f*10+fmt*2+v); mc_state(f*10+fmt); int e=go("%s \"T\"",v?"EXEC":"APPEND"); bool ok=!e&&result(); mc_validated(1); if (ok!=(f==PRG)) mc_fail("%s",ok?"a file of another type was accepted":"refused"); if (!ok) unchanged("a failed statement",NULL,false); }
// ---- histories
typedef struct { int t; int k; int n; } F; // what a file holds
static void s_hist(void){
	start(0); F file[2]={{-1,0,0},{-1,0,0}}; int prg=0, mem=0; static const char* const tx[]={"","X=1\r","X=22\rY=2\r","X=1\rX=22\rY=2\r"}; char cur[200]=""; char fc[2][200]={"",""}; char mcur[40]="", fm[2][40]={"",""}; (void)prg; (void)mem;
	int depth=mc_thorough?6:4; must("X=0:MEM$=\"\""); 
	for (int d=0;d<depth;++d){
		int op=mc_choose(14), f=op&1; static const char fnm[]="AB"; P->res.result=2; int e=0, want=2;
		switch (op){
			case 0: case 1: mc_desc("SAVE %c,",fnm[f]); e=go("SAVE \"%c\"",fnm[f]); want=1; file[f].t=PRG; strcpy(fc[f],cur); break;
			case 2: case 3: mc_desc("LOAD %c,",fnm[f]); e=go("LOAD \"%c\"",fnm[f]); want=file[f].t==PRG; if (want) strcpy(cur,fc[f]); break;
			case 4: case 5: mc_desc("APPEND %c,",fnm[f]); e=go("APPEND \"%c\"",fnm[f]); want=file[f].t==PRG; if (want) strcat(cur,fc[f]); break;
			case 6: case 7: mc_desc("SAVE MEM:%c,",fnm[f]); e=go("SAVE \"MEM:%c\"",fnm[f]); want=1; file[f].t=MEM; strcpy(fm[f],mcur); break;
			case 8: case 9: mc_desc("LOAD MEM:%c,",fnm[f]); e=go("LOAD \"MEM:%c\"",fnm[f]); want=file[f].t==MEM; if (want) strcpy(mcur,fm[f]); break;
			case 10: mc_desc("type,"); strcpy(cur,tx[1+d%3]); memcpy(P->exec.prg.data,cur,strlen(cur)); P->exec.prg.size=strlen(cur); break;
			case 11: mc_desc("NEW,"); must("NEW"); cur[0]=0; break;
			case 12: mc_desc("MEM$,"); sprintf(mcur,"text%d",d*d); must("MEM$=\"%s\"",mcur); break;
			case 13: mc_desc("EXEC A,"); must("X=-1"); e=go("EXEC \"A\":X=-5"); want=file[0].t==PRG; if (want) strcpy(cur,fc[0]); { const char* q=want?cur:NULL; int last=want?-1:-5; if (q) for (const char* z=q;*z;++z) if (*z=='X') last=atoi(z+2); if (sys_num("X")!=last*4096) mc_fail("after EXEC X is %d, expected %d",sys_num("X")/4096,last); } break;
		}
		if (e) mc_fail("failed: %s",errname(e)); if (want!=2 && P->res.result!=want) mc_fail("RESULT is %d, expected %d",P->res.result,want); mc_validated(1);
		if (P->exec.prg.size!=strlen(cur) || memcmp(cur,P->exec.prg.data,strlen(cur))) mc_fail("program differs from the model"); shows(mcur,"MEM$");
		uint64_t h=mc_hash(cur,strlen(cur)); for (int i=0;i<2;++i) h=mc_mix(mc_mix(mc_mix(h,file[i].t),mc_hash(fc[i],strlen(fc[i]))),mc_hash(fm[i],strlen(fm[i]))); mc_state(h);
	}
	mc_nontrivial(mc_hash(cur,strlen(cur))+depth);
}
static void boot(void){
	sys_plain=false; sys_restore_big=true; sys_cfg.prg=MAX_SOURCE_SIZE; sys_boot_small(64,32,256); signal(SIGXFSZ,SIG_IGN);
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("programs",0777); 
	int q=chown(".",65534,65534); q|=chown("programs",65534,65534); if (!q && getuid()==0){ q=setgid(65534); q=setuid(65534); } // nothing real is writable for this user
	P->res.search_path="programs/"; table(0); mkparts(); for (int i=0;i<nparts;++i) for (int j=0;j<parts[i].n;++j) parts[i].p[j]=i*17+j*3+(j>>8); u32 l=9; memcpy(P->res.mem.data+512,&l,4); P->res.mem_str.len=9; sys_snapshot();
}
const mc_suite mc_suites[]={ {"roundtrip",s_round,MC_QT,boot},{"text",s_text,MC_QT,boot},{"memtext",s_memtext,MC_QT,boot},{"truncated",s_trunc,MC_QT,boot},{"corrupt",s_corrupt,MC_QT,boot},{"types",s_types,MC_QT,boot},{"package",s_package,MC_QT,boot},{"diskfull",s_full,MC_QT,boot},{"names",s_names,MC_QT,boot},{"characters",s_chars,MC_QT,boot},{"lengths",s_long,MC_QT,boot},{"append",s_append,MC_QT,boot},{"append-type",s_appendtype,MC_QT,boot},{"history",s_hist,MC_QT,boot},{"files",s_files,MC_QT,boot},{"fileset",s_fileset,MC_QT,boot} };
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

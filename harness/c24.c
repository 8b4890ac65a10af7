// C24: memory extension: PEEK/POKE/MEMCOPY/MEMFILL/ADDR/PTR against a byte array.
#include "bas.h"
#include <limits.h>
const char* mc_rule = "all widths x offsets in a window x boundary values; all addresses around both ends of the exposed memory, zero and the limits of the number range; all source/destination/size triples in a window and across the end; all sequences of accesses up to the stated length; every variable kind and resource name with offsets around its size; counted by operation and operands";
#define BASE 0x02000000L
extern void* sbc_membase;
static u8* W; static long WA; // free memory: nothing else uses it
static u8 shadow[64];
static fixp adr(const void* p){ return (const u8*)p-(u8*)sbc_membase+BASE; }
static void setv(const char* n, fixp v){ struct named_var* x=sys_find(n,VAR_NUMBER); if (!x) mc_fail("variable %s missing",n); x->value.number=v; }
static void start(void){
	sys_reset(); setmode(mc_choose(2)*2); must("MEMSAFE=TRUE:A=0:B=0:C=0:R=0");
	W=(u8*)sbc_membase+MAX_MEMORY-4096; WA=adr(W); for (int i=-64;i<128;++i) W[i]=0x40+i; for (int i=0;i<64;++i) shadow[i]=0x40+i;
	memset((u8*)sbc_membase+MAX_MEMORY-64,0x55,64);
}
static void check_window(const char* what){ mc_validated(1); for (int i=0;i<64;++i) if (W[i]!=shadow[i]) mc_fail("after %s byte %d of the window is %02x, expected %02x",what,i,W[i],shadow[i]); for (int i=-64;i<0;++i) if (W[i]!=(u8)(0x40+i)) mc_fail("%s changed a byte before the window",what); for (int i=64;i<128;++i) if (W[i]!=(u8)(0x40+i)) mc_fail("%s changed a byte after the window",what); }
static const char* const pk[]={"PEEK","PEEKH","PEEKB"}; static const char* const po[]={"POKE","POKEH","POKEB"}; static const int wd[]={4,2,1};
static const fixp vals[]={0,1,4096,-4096,4096*127,4096*128,4096*255,4096*256,4096*32767,4096*32768,4096*65535,4096*65536,-4096*128,-4096*32768,INT_MAX,INT_MIN,0x12345678,0x7f80ff01,2048,-2048};
static u32 enc(int w, fixp v){ return w==0?(u32)v:w==1?(u16)(v>>12):(u8)(v>>12); }
static fixp dec(int w, const u8* b){ u32 x=0; for (int i=0;i<wd[w];++i) x|=(u32)b[i]<<8*i; return w==0?(fixp)x:(fixp)(x<<12); }
static void s_width(void){
	int w=mc_choose(3), o=mc_choose(12), k=mc_range(20), cst=mc_choose(2); start(); fixp v=vals[k]; char s[80];
	setv("A",WA+o); setv("B",v); mc_desc("%s window+%d value %08x",po[w],o,(unsigned)v);
	if (cst && ((v&4095)||v==INT_MIN)) mc_skip();
	if (cst) sprintf(s,"%s A,%d",po[w],v>>12); else sprintf(s,"%s A,B",po[w]); must("%s",s);
	u32 x=enc(w,v); for (int i=0;i<wd[w];++i) shadow[o+i]=x>>8*i; check_window(s);
	for (int r=0;r<3;++r) for (int q=0;q<14;++q){ setv("A",WA+q); must("R=%s(A)",pk[r]); mc_validated(1); if (sys_num("R")!=dec(r,shadow+q)) mc_fail("%s at offset %d is %08x, expected %08x",pk[r],q,(unsigned)sys_num("R"),(unsigned)dec(r,shadow+q)); }
	check_window("reading"); mc_nontrivial(mc_mix(w*100+o,k*2+cst)); mc_state(mc_hash(shadow,64));
}
static long edge(int i){
	if (i<17) return BASE-8+i; if (i<42) return BASE+MAX_MEMORY-16+i-17;
	static const long t[]={0,1,-1,4,4096,INT_MIN,INT_MIN+1,INT_MAX,INT_MAX-3,BASE/2,-BASE,0x01ffffff,BASE+2L*MAX_MEMORY,0x10000000,-MAX_MEMORY,MAX_MEMORY}; return t[i-42];
}
#define NEDGE 58
static void s_edge(void){
	int w=mc_choose(3), i=mc_range(NEDGE), rd=mc_choose(2); start(); long a=edge(i); bool in=a>=BASE&&a+wd[w]<=BASE+MAX_MEMORY; u8* h=(u8*)sbc_membase+(a-BASE);
	setv("A",a); setv("B",0); setv("R",77); mc_desc("%s at %lx",rd?pk[w]:po[w],a); mc_nontrivial(mc_mix(a,w*2+rd)); mc_state(mc_mix(a,w)); mc_validated(1);
	u8 tail[64]; memcpy(tail,(u8*)sbc_membase+MAX_MEMORY-64,64);
	if (rd){ int e=bas("R=%s(A)",pk[w]); if (in && e) mc_fail("refused: %s",errname(e)); if (!in && !e) mc_fail("accepted"); if (!in && sys_num("R")!=77) mc_fail("refused but assigned"); 
		if (in && a>BASE+64 && sys_num("R")!=dec(w,h)) mc_fail("is %08x, expected %08x",(unsigned)sys_num("R"),(unsigned)dec(w,h)); 
	} else {
		u8 old[4]={0}; if (in) memcpy(old,h,wd[w]); setv("B",in?dec(w,old):0x5a5a5a5a); bool high=a>BASE+MAX_MEMORY-64; if (in&&high) setv("B",0x12345678);
		int e=bas("%s A,B",po[w]); if (in && e) mc_fail("refused: %s",errname(e)); if (!in && !e) mc_fail("accepted");
		if (in&&high){ u32 x=enc(w,0x12345678); for (int k=0;k<wd[w];++k) tail[64-(BASE+MAX_MEMORY-a)+k]=x>>8*k; }
	}
	if (memcmp(tail,(u8*)sbc_membase+MAX_MEMORY-64,64)) mc_fail("the last bytes of memory are wrong afterwards"); check_window("the access");
	if (!a){ must("MEMSAFE=FALSE"); if (rd?!bas("R=%s(0)",pk[w]):!bas("%s 0,1",po[w])) mc_fail("null address accepted without MEMSAFE"); }
}
static void s_move(void){
	int op=mc_choose(2), d=mc_choose(12), s=mc_choose(12), n=mc_choose(14)-1; if (op && s) mc_skip(); start();
	setv("A",WA+d); setv("B",WA+s); setv("C",n*4096); char t[60]; int fv=op?n*37+d:0; if (op) sprintf(t,"MEMFILL A,%d,C",fv&255); else strcpy(t,"MEMCOPY A,B,C"); mc_desc("%s dest +%d source +%d size %d",op?"MEMFILL":"MEMCOPY",d,s,n);
	int e=bas("%s",t); mc_validated(1); mc_nontrivial(mc_mix(op*1000+d,s*100+n)); bool overlap=!op && n>0 && d<s+n && s<d+n; bool adj=!op && n>=0 && (d==s+n||s==d+n||(n==0&&d==s));
	if (n<0||overlap){ if (!e) mc_fail("accepted"); check_window("a refused statement"); return; }
	if (e && !adj) mc_fail("refused: %s",errname(e));
	if (!e){ if (op) memset(shadow+d,fv,n); else memcpy(shadow+d,shadow+s,n); }
	check_window(t); mc_state(mc_hash(shadow,64));
}
static void s_moveedge(void){ // ranges touching the ends of memory
	int op=mc_choose(3), i=mc_range(NEDGE), k=mc_choose(8); static const int sz[]={0,1,2,3,8,16,524287,-1}; int n=sz[k]; start(); long a=edge(i);
	bool in=a>=BASE&&a<BASE+MAX_MEMORY&&n>=0&&a+n<=BASE+MAX_MEMORY, near=in&&a+n>=BASE+MAX_MEMORY-2, low=a>=BASE&&a<BASE+0x10000;
	static u8 keep[64]; memcpy(keep,(u8*)sbc_membase+MAX_MEMORY-64,64); u8 tail[64]; memcpy(tail,keep,64);
	if (low && op!=1 && n>0){ if (!in) mc_skip(); mc_skip(); } // writing over the system itself is the program's own fault
	if (op==1 && n>4000 && in) mc_skip();
	setv("A",op==1?WA+8:a); setv("B",op==1?a:WA+40); setv("C",n*4096); mc_desc("%s address %lx size %d",op==0?"MEMCOPY to":op==1?"MEMCOPY from":"MEMFILL",a,n);
	int e=op==2?bas("MEMFILL A,7,C"):bas("MEMCOPY A,B,C"); mc_validated(1); mc_nontrivial(mc_mix(a,op*10+k)); mc_state(mc_mix(a,k));
	if (!in && !e) mc_fail("accepted"); if (in && e && !near) mc_fail("refused: %s",errname(e));
	if (!e && n>0 && !low){ long o=a-(BASE+MAX_MEMORY-64); if (op==1) memcpy(shadow+8,o>=0?keep+o:(u8*)sbc_membase+(a-BASE),n); else for (int j=0;j<n;++j) tail[o+j]=op==2?7:shadow[40+j]; }
	else if (!e && n>0 && op==1) memcpy(shadow+8,W+8,n); // system memory: content not predicted
	if (memcmp(tail,(u8*)sbc_membase+MAX_MEMORY-64,64)) mc_fail("the last bytes of memory are wrong afterwards"); check_window("the statement");
}
static void s_null(void){
	static const char* const t[]={"MEMCOPY 0,A,1","MEMCOPY A,0,1","MEMFILL 0,1,1","MEMCOPY 0,0,0","MEMFILL 0,1,0","R=PEEK(0)","POKE 0,1","R=ADDR(\"*\",0)","MEMCOPY A,B,\"1\"","POKE A","POKE A,\"1\"","POKEB \"A\",1","R=PEEK()","R=PEEK(1,2)","MEMFILL A,1","R=ADDR()","R=ADDR(1)","S$=PTR$(\"1\")","R=ADDR(\"\")","R=ADDR(\"&\")","R=ADDR(\".\")","R=ADDR(\"!\")","R=ADDR(\"XYZ\")","R=ADDR(\"!FOO\")","R=ADDR(\"GRP4\")","R=ADDR(\"&A B\")","R=ADDR(\"&AAAAAAAAAAAAAAAAA\")","R=ADDR(\"GRP0X1\")","R=ADDR(\"&$\")","R=ADDR(\"&[]\")"};
	int i=mc_range(sizeof t/sizeof*t), ms=mc_choose(2); start(); setv("A",WA); setv("B",WA+32); setv("R",77); if (ms) must("MEMSAFE=FALSE"); mc_desc("%s memsafe %d",t[i],!ms);
	int e=bas("%s",t[i]); mc_validated(1); if (!e) mc_fail("accepted"); if (sys_num("R")!=77) mc_fail("refused but assigned"); check_window("a refused statement"); mc_nontrivial(i*2+ms); mc_state(i*2+ms);
}
static void seq(int depth){
	start(); u8* s=shadow; 
	for (int d=0;d<depth;++d){
		int op=mc_choose(9); mc_desc("op%d ",op); char t[60];
		switch (op){
			case 0: setv("A",WA+1); setv("B",0x11223344); must("POKE A,B"); s[1]=0x44;s[2]=0x33;s[3]=0x22;s[4]=0x11; break;
			case 1: setv("A",WA+4); must("POKEH A,43981"); s[4]=0xcd;s[5]=0xab; break;
			case 2: setv("A",WA+2); must("POKEB A,PEEKB(A)+1"); s[2]++; break;
			case 3: setv("A",WA+6); setv("B",WA); must("MEMCOPY A,B,3"); memcpy(s+6,s,3); break;
			case 4: setv("A",WA+3); must("MEMFILL A,PEEKB(A),4"); memset(s+3,s[3],4); break;
			case 5: setv("A",WA); setv("B",WA+3); must("POKE A,PEEK(B)"); memmove(s,s+3,4); break;
			case 6: setv("A",WA); setv("B",WA+2); if (!bas("MEMCOPY A,B,5")) mc_fail("overlap accepted"); break;
			case 7: setv("A",0); if (!bas("POKE A,1")) mc_fail("null accepted"); break;
			case 8: setv("A",WA+5); must("POKEH A,PEEKH(A)*2"); { u16 h=(s[5]|s[6]<<8); if (h>=0x8000){ } long v=h<0x8000?h:h; v*=2; long lim=524287; (void)lim; s[5]=v; s[6]=v>>8; } break;
		}
		sprintf(t,"operation %d",op); check_window(t); mc_state(mc_hash(shadow,16));
	}
	mc_nontrivial(mc_hash(shadow,16)+mode);
}
static void s_seq(void){ seq(mc_thorough?6:4); }
// ---- addresses of variables
static void s_var(void){
	int k=mc_choose(8), md; start(); md=mode; (void)md;
	must("N=5:S$=\"hello\"*2:DIM D(4),E$(3),F(2,3)"); must("D(2)=9:F(1,2)=8:E$(1)=\"abcd\"+\"\":M=7:T$=\"other\"");
	mc_desc("kind %d",k); mc_nontrivial(k*3+mode); mc_state(k*3+mode);
	switch (k){
		case 0: must("R=ADDR(\"&N\")"); if (sys_num("R")!=adr(&sys_find("N",VAR_NUMBER)->value.number)) mc_fail("ADDR is not the variable's address"); shows("5","PEEK(ADDR(\"&N\"))"); must("POKE ADDR(\"&N\"),-12.5"); shows("-12.5","N"); shows("7","M"); break;
		case 1: must("POKEB ADDR(\"&S$\")+0/1,ASC(\"J\")"); shows("Jellohello","S$"); must("R=ADDR(\"&S$\",3)"); must("POKEB R,65"); shows("JelAohello","S$"); shows("111","PEEKB(ADDR(\"&S$\",4))"); shows("other","T$"); break;
		case 2: must("R=ADDR(\"&D[]\")"); { struct named_var* v=sys_find("D",VAR_ARRAY|VAR_NUMBER); if (!v||sys_num("R")!=adr(v->value.ptr)) mc_fail("ADDR is not the array's address"); int o=(u8*)&arr_entry(v->value.ptr,2,0)->number-(u8*)v->value.ptr; must("R=ADDR(\"&D[]\",%d)",o); must("POKE R,3.25"); shows("3.25","D[2]"); shows("0","D[1]"); shows("0","D[3]"); } break;
		case 3: { struct named_var* v=sys_find("F",VAR_ARRAY|VAR_NUMBER); int o=(u8*)&arr_entry(v->value.ptr,1,2)->number-(u8*)v->value.ptr; shows("8","PEEK(ADDR(\"&F[]\",%d))",o); } break;
		case 4: must("R=ADDR(\".N\")"); if (sys_num("R")!=adr(sys_find("N",VAR_NUMBER))) mc_fail("ADDR of the entry is wrong"); must("R=ADDR(\".S$\")"); if (sys_num("R")!=adr(sys_find("S",VAR_STRING))) mc_fail("ADDR of the entry is wrong"); break;
		case 5: must("R=ADDR(\"&NEWONE\")"); must("POKE R,4"); shows("4","NEWONE"); break;
		case 6: must("R=ADDR(\".E$[]\")"); if (sys_num("R")!=adr(sys_find("E",VAR_ARRAY|VAR_STRING))) mc_fail("ADDR of the entry is wrong"); must("R=ADDR(\"&AAAAAAAAAAAAAAAA\"):POKE R,2"); shows("2","AAAAAAAAAAAAAAAA"); break;
		case 7: { struct named_var* v=sys_find("S",VAR_STRING); must("R=ADDR(\".S$\")"); int o=(u8*)&v->value.ptr-(u8*)v; setv("A",sys_num("R")+o); must("R=ADDR(\"*\",A)"); if (sys_num("R")!=adr(v->value.ptr)) mc_fail("ADDR(\"*\") does not follow the pointer"); } break;
	}
	shows("other","T$"); shows("7","M"); shows("abcd","E$[1]");
}
// ---- addresses of resources
static struct { char n[8]; u8* p; int size; } rs[200]; static int nrs;
static void radd(const char* b, int i, const char* s, void* p, int size){ if (i<0) sprintf(rs[nrs].n,"%s",b); else sprintf(rs[nrs].n,"%s%d%s",b,i,s); rs[nrs].p=p; rs[nrs++].size=size; }
static void table(void){
	nrs=0; struct resources* r=&P->res; 
	for (int sc=0;sc<3;++sc){ const char* s=sc==0?"U":sc==1?"L":""; int q=sc==1; // without a letter: current page, the upper screen here
		for (int i=0;i<4;++i) radd("BGU",i,s,r->chr[8+i+CHR_BANKS*q],CHR_SIZE);
		for (int i=0;i<2;++i) radd("BGD",i,s,r->chr[4+i+CHR_BANKS*q],CHR_SIZE);
		radd("BGF",0,s,r->chr[CHR_BANKS*q],CHR_SIZE);
		for (int i=0;i<2;++i) radd("SPS",i,s,r->chr[20+i+CHR_BANKS*q],CHR_SIZE);
		for (int i=0;i<3;++i) radd("COL",i,s,r->col[i+COL_BANKS*q],COL_SIZE);
		for (int i=0;i<2;++i) radd("SCU",i,s,r->scr[2+i+SCR_BANKS*q],SCR_SIZE);
		if (sc!=1) for (int i=0;i<8;++i) radd("SPU",i,s,r->chr[12+i],CHR_SIZE);
		if (sc!=0) for (int i=0;i<4;++i) radd("SPD",i,s,r->chr[12+i+CHR_BANKS],CHR_SIZE);
	}
	for (int i=0;i<4;++i) radd("GRP",i,"",r->grp[i],GRP_SIZE);
	radd("MEM",-1,"",r->mem.data,MEM_SIZE); radd("GRP",-1,"",r->grp[0],GRP_SIZE); radd("BGU",-1,"",r->chr[8],CHR_SIZE); radd("SPU",-1,"",r->chr[12],CHR_SIZE); radd("COL",-1,"",r->col[0],COL_SIZE); radd("SPD",-1,"",r->chr[12+CHR_BANKS],CHR_SIZE); radd("SCU",-1,"",r->scr[2],SCR_SIZE);
}
static void s_res(void){
	if (!nrs) table(); int i=mc_range(nrs), k=mc_choose(9); start(); int sz=rs[i].size; int of[]={0,1,31,sz/2,sz-1,sz,sz+1,-1,-sz}; int o=of[k];
	bool in=o>=0&&o<sz; setv("R",77); mc_desc("ADDR(\"%s\",%d)",rs[i].n,o); mc_nontrivial(i*10+k); mc_state(i*10+k);
	int e=bas("R=ADDR(\"%s\",%d)",rs[i].n,o); mc_validated(1); if (in&&e) mc_fail("refused: %s",errname(e)); if (!in){ if (!e) mc_fail("an offset outside the resource was accepted"); if (sys_num("R")!=77) mc_fail("refused but assigned"); return; }
	if (sys_num("R")!=adr(rs[i].p+o)) mc_fail("is %x, expected %x",(unsigned)sys_num("R"),(unsigned)adr(rs[i].p+o));
	if (k==0){ int e2=bas("R=ADDR(\"%s\")",rs[i].n); if (e2||sys_num("R")!=adr(rs[i].p)) mc_fail("ADDR without an offset differs"); }
}
static void s_anchor(void){ // the addresses are those of what the other statements read and write
	int k=mc_choose(6); start(); mc_desc("anchor %d",k); mc_nontrivial(k*3+mode); mc_state(k*3+mode);
	switch (k){
		case 0: must("GPAGE 0,1,1:GCLS 0:GPSET 5,3,9"); { int found=-1; for (int i=0;i<GRP_SIZE;++i) if (P->res.grp[1][i]){ if (found>=0) mc_fail("two pixels"); found=i; } must("R=ADDR(\"GRP1\",%d)",found); shows("9","PEEKB(R)"); must("POKEB R,77"); shows("77","GSPOIT(5,3)"); } break;
		case 1: must("POKEH ADDR(\"COL1\",2*7),31"); must("COLREAD(\"SP\",7),R,B,C"); shows("255","R"); shows("0","B"); break;
		case 2: must("POKEB ADDR(\"SPU2\",32*5),&HA3"); must("CHRREAD(\"SPU2\",5),S$"); shows("3A","LEFT$(S$,2)"); break;
		case 3: must("POKEH ADDR(\"SCU0\"),5+4096"); must("BGREAD(0,0,0),R"); break;
		case 4: must("MEM$=\"abc\""); shows("3","PEEKB(ADDR(\"MEM\",512))*0+LEN(MEM$)"); must("POKEH ADDR(\"MEM\"),PEEKH(ADDR(\"MEM\",2))"); shows("bbc","MEM$"); break;
		case 5: must("LOCATE 0,0:?\"Z\""); must("R=ADDR(\"!CONSOLE\")"); if (sys_num("R")!=adr(&P->console)) mc_fail("!CONSOLE"); break;
	}
}
static void s_int(void){
	static const char* const n[]={"CONSOLE","BG","SPRITE","GRAPHICS","PANEL","RESOURCE","INPUT","VAR","STR","ARRAY","SYSTEM","EXEC","SOURCE","BYTECODE"};
	int i=mc_range(14), k=mc_choose(6); start(); struct ptc* p=P; void* a[]={&p->console,&p->background,&p->sprites,&p->graphics,&p->panel,&p->res,&p->input,&p->vars,&p->strs,&p->arrs,p,&p->exec,&p->exec.prg,&p->exec.code};
	int s[]={sizeof p->console,sizeof p->background,sizeof p->sprites,sizeof p->graphics,sizeof p->panel,sizeof p->res,sizeof p->input,sizeof p->vars,sizeof p->strs,sizeof p->arrs,sizeof *p,sizeof p->exec,sizeof p->exec.prg,sizeof p->exec.code};
	int of[]={0,1,s[i]-1,s[i],-1,s[i]+5}; bool in=of[k]>=0&&of[k]<s[i]; setv("R",77); mc_desc("ADDR(\"!%s\",%d)",n[i],of[k]); mc_nontrivial(i*10+k); mc_state(i*10+k); if (of[k]>524287) mc_skip();
	int e=bas("R=ADDR(\"!%s\",%d)",n[i],of[k]); mc_validated(1); if (in&&e) mc_fail("refused: %s",errname(e)); if (!in){ if (!e) mc_fail("accepted"); if (sys_num("R")!=77) mc_fail("assigned"); return; }
	if (sys_num("R")!=adr((u8*)a[i]+of[k])) mc_fail("wrong address");
}
static void s_deref(void){
	int i=mc_range(NEDGE); start(); long a=edge(i); bool in=a>=BASE&&a+8<=BASE+MAX_MEMORY; setv("A",a); setv("R",77); mc_desc("ADDR(\"*\",%lx)",a);
	u8* h=(u8*)sbc_membase+(a-BASE); u8* to=W+5; if (in&&a>BASE+64){ memcpy(h,&to,sizeof to); }
	int e=bas("R=ADDR(\"*\",A)"); mc_validated(1); if (in&&e) mc_fail("refused: %s",errname(e)); if (!in&&!e) mc_fail("accepted"); if (e&&sys_num("R")!=77) mc_fail("assigned");
	if (in&&a>BASE+64&&sys_num("R")!=WA+5) mc_fail("does not follow the pointer"); mc_nontrivial(i); mc_state(i);
}
static void s_ptr(void){
	int b=mc_choose(33), dl=mc_choose(5)-2; fixp v=(fixp)((b==32?0:1u<<b)+(u32)dl); start(); setv("A",v); char w[20]; sprintf(w,"0x%08X",(u32)v); mc_desc("PTR(%08x)",(u32)v); shows(w,"PTR$(A)"); mc_nontrivial(v); mc_state(v);
}
static void s_safe(void){ // values of the MEMSAFE variable
	static const char* const t[]={"1","0","TRUE","FALSE","-1","0.25","524287","\"1\""}; int i=mc_choose(8); start(); mc_desc("MEMSAFE=%s",t[i]); int e=bas("MEMSAFE=%s",t[i]); mc_validated(1); mc_nontrivial(i);
	if (i==7){ if (!e) mc_fail("accepted"); shows("1","MEMSAFE"); return; } if (e) mc_fail("refused: %s",errname(e)); shows(i==1||i==3?"0":"1","MEMSAFE"); mc_state(i);
}
static void boot(void){ sys_plain=true; sys_boot_small(64,32,256); }
static void bootr(void){ boot(); table(); }
static void boota(void){ sys_plain=true; sys_restore_big=true; sys_boot_small(64,32,256); }
const mc_suite mc_suites[] = {
	{"width",s_width,MC_QT,boot},{"edge",s_edge,MC_QT,boot},{"move",s_move,MC_QT,boot},{"moveedge",s_moveedge,MC_QT,boot},{"null",s_null,MC_QT,boot},{"seq",s_seq,MC_QT,boot},
	{"var",s_var,MC_QT,boot},{"res",s_res,MC_QT,bootr},{"anchor",s_anchor,MC_QT,boota},{"int",s_int,MC_QT,boot},{"deref",s_deref,MC_QT,boot},{"ptr",s_ptr,MC_QT,boot},{"safe",s_safe,MC_QT,boot},
};
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

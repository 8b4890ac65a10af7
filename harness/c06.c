// C06: strings are values, their storage is reclaimed.
#include "bas.h"
const char* mc_rule = "all sequences up to the stated length over the suites' string statements (assignment, concatenation, string functions, arrays, SWAP, READ, MEM$, failing statements, CLEAR), all three lookup modes, and every statement repeated past the capacity and with 0..4 free strings; after every sequence each value is compared with a value model and the number of strings that can still be stored is counted; non-trivial = at least one string stored, counted by sequence";
#define N 9
static void b_small(void){ sys_boot_small(0,N,0); }
typedef struct { char v[6][300]; int n[6]; } M; // A$ B$ C$(0) C$(1) MEM$ and the text READ delivers
static M m;
static const char* const vn[]={"A$","B$","C$(0)","C$(1)","MEM$"};
static void set(int i, const char* s, int n){ char t[300]; memcpy(t,s,n); memcpy(m.v[i],t,n); m.n[i]=n; m.v[i][n]=0; }
static void cat(int d, const char* a, int na, const char* b, int nb){ char t[600]; memcpy(t,a,na); memcpy(t+na,b,nb); set(d,t,na+nb); }
static int sub(int d, const char* s, int n, int from, int len){ if (from>n) from=n; if (len>n-from) len=n-from; set(d,s+from,len); return 0; }
static int lit(int d, const char* s){ set(d,s,strlen(s)); return 0; }
// each operation: BASIC text, model returning the expected error
#define A m.v[0],m.n[0]
#define B m.v[1],m.n[1]
typedef struct { const char* t; int (*f)(void); } op;
static int o_lit(void){ return lit(0,"ab"); }
static int o_lit1(void){ return lit(1,"k"); }
static int o_emp(void){ return lit(0,""); }
static int o_ab(void){ set(0,B); return 0; }
static int o_ba(void){ set(1,A); return 0; }
static int o_self(void){ return 0; }
static int o_app(void){ if (m.n[0]+1>256) return ERR_STRING_TOO_LONG; cat(0,A,"c",1); return 0; }
static int o_cat(void){ if (m.n[0]+m.n[1]>256) return ERR_STRING_TOO_LONG; cat(0,B,A); return 0; }
static int o_rep(void){ if (m.n[0]*40>256) return ERR_STRING_TOO_LONG; char t[300]; int n=m.n[0]; for (int i=0;i<40;++i) memcpy(t+i*n,m.v[0],n); set(0,t,n*40); return 0; }
static int o_left(void){ return sub(0,B,0,1); }
static int o_mid(void){ return sub(0,B,1,2); }
static int o_right(void){ return m.n[0]>1 ? sub(0,A,m.n[0]-1,1) : 0; }
static int o_subst(void){ if (m.n[1]<1) { lit(0,"Z"); return 0; } cat(0,"Z",1,m.v[1]+1,m.n[1]-1); return 0; }
static int o_chr(void){ return lit(0,"A"); }
static int o_str(void){ return lit(1,"-5"); }
static int o_hex(void){ return lit(0,"1F"); }
static int o_c0a(void){ set(2,A); return 0; }
static int o_c1c0(void){ set(3,m.v[2],m.n[2]); return 0; }
static int o_bc1(void){ set(1,m.v[3],m.n[3]); return 0; }
static int o_c0e(void){ return lit(2,""); }
static int swp(int i,int j){ char t[300]; int n=m.n[i]; memcpy(t,m.v[i],n); set(i,m.v[j],m.n[j]); set(j,t,n); return 0; }
static int o_swab(void){ return swp(0,1); }
static int o_swac(void){ return swp(0,2); }
static int o_read(void){ lit(0,"x y"); return lit(3,"Q"); }
static int o_if(void){ if (m.n[0]==m.n[1] && !memcmp(m.v[0],m.v[1],m.n[0])) lit(0,"eq"); return 0; }
static int o_chrread(void){ char z[65]; memset(z,'0',64); set(0,z,64); return 0; }
static int o_bgread(void){ return lit(1,"0000"); }
static int o_mema(void){ set(4,A); return 0; }
static int o_amem(void){ set(0,m.v[4],m.n[4]); return 0; }
static int o_mlit(void){ return lit(4,"mn"); }
static int o_memp(void){ return lit(4,""); }
static int o_cmem(void){ set(2,m.v[4],m.n[4]); return 0; }
static int o_expr(void){ return m.n[0]+m.n[1]+1>256 ? ERR_STRING_TOO_LONG : 0; }
static int o_e1(void){ return ERR_OUT_OF_RANGE; }
static int o_e2(void){ return ERR_STRING_TOO_LONG; }
static int o_e3(void){ return m.n[0]+1>256 ? ERR_STRING_TOO_LONG : ERR_OUT_OF_RANGE; }
static int o_e4(void){ return ERR_DIVIDE_BY_ZERO; }
static int o_e5(void){ return ERR_SUBSCRIPT_OUT_OF_RANGE_X; }
static int o_e6(void){ return -1; } // any error
static int o_clr(void){ for (int i=0;i<4;++i) lit(i,""); return 0; }
static const op ops[]={
 {"A$=\"ab\"",o_lit},{"B$=\"k\"",o_lit1},{"A$=\"\"",o_emp},{"A$=B$",o_ab},{"B$=A$",o_ba},{"A$=A$",o_self},{"A$=A$+\"c\"",o_app},{"A$=B$+A$",o_cat},{"A$=A$*40",o_rep},
 {"A$=LEFT$(B$,1)",o_left},{"A$=MID$(B$,1,2)",o_mid},{"A$=RIGHT$(A$,1)",o_right},{"A$=SUBST$(B$,0,1,\"Z\")",o_subst},{"A$=CHR$(65)",o_chr},{"B$=STR$(-5)",o_str},{"A$=HEX$(31)",o_hex},
 {"C$(0)=A$",o_c0a},{"C$(1)=C$(0)",o_c1c0},{"B$=C$(1)",o_bc1},{"C$(0)=\"\"",o_c0e},{"SWAP A$,B$",o_swab},{"SWAP A$,C$(0)",o_swac},{"READ A$,C$(1)\rDATA \"x y\",Q",o_read},
 {"IF A$==B$ THEN A$=\"eq\"",o_if},{"CHRREAD \"BGU0\",0,A$",o_chrread},{"BGREAD (0,0,0),B$",o_bgread},{"MEM$=A$",o_mema},{"A$=MEM$",o_amem},{"MEM$=\"mn\"",o_mlit},{"C$(0)=MEM$",o_cmem},{"MEM$=\"\"",o_memp},
 {"X=LEN(\"q\"+A$+B$)",o_expr},{"X=INSTR(A$+\"q\",B$)+ASC(\"q\"+A$)",o_expr},
 {"B$=\"x\"+LEFT$(\"q\"+\"w\",-1)",o_e1},{"A$=(\"a\"*200)+(\"b\"*100)",o_e2},{"A$=A$+\"b\"+CHR$(300)",o_e3},{"A$=B$+STR$(1/0)",o_e4},{"C$(55)=\"z\"+\"y\"",o_e5},{"CHRREAD \"ZZ\"+\"Z\",0,A$",o_e6},{"CLEAR:DIM C$(2)",o_clr},
};
#define NOP ((int)(sizeof ops/sizeof*ops))
static int expect(int k){ M s=m; int e=ops[k].f(); if (e) m=s; return e; }
static struct string* strv(int i){
	if (i==4) return P->res.mem_ptr;
	if (i<2){ struct named_var* v=sys_find(i?"B":"A",VAR_STRING); return v?v->value.ptr:NULL; }
	struct named_var* v=sys_find("C",VAR_STRING|VAR_ARRAY); return v&&v->value.ptr?arr_entry(v->value.ptr,i-2,0)->ptr:NULL;
}
static void values(const char* after){
	for (int i=0;i<5;++i){ u8 q[600]; struct string* s=strv(i); int n=s?sys_strv(s,q):0; mc_validated(1);
		if (n!=m.n[i]||memcmp(q,m.v[i],n)) mc_fail("after %s: %s is \"%.*s\", expected \"%.*s\"",after,vn[i],n,q,m.n[i],m.v[i]); }
}
// store different strings everywhere, then count how many more fit
static void capacity(int cap){
	for (int i=0;i<4;++i) must("%s=\"w%d\"",vn[i],i);
	int k=0; while (k<cap+2 && !bas("Z$(%d)=\"n%d\"",k,k)) ++k;
	mc_validated(1); if (k!=cap-4) mc_fail("%d of %d strings can still be stored, expected %d",k,cap,cap-4);
	for (int i=0;i<k;++i){ char w[9]; sprintf(w,"n%d",i); u8 q[600]; struct named_var* v=sys_find("Z",VAR_STRING|VAR_ARRAY); int n=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,q); if (n!=(int)strlen(w)||memcmp(q,w,n)) mc_fail("Z$(%d) is %.*s",i,n,q); }
	for (int i=0;i<4;++i){ char w[9]; sprintf(w,"w%d",i); u8 q[600]; int n=sys_strv(strv(i),q); if (n!=2||memcmp(q,w,2)) mc_fail("%s is %.*s",vn[i],n,q); }
}
static void setup(void){ sys_reset(); memset(&m,0,sizeof m); setmode(mc_choose(3)); must("DIM C$(2):DIM Z$(20):A$=\"\":B$=\"\""); }
static void s_seq(void){
	int depth=mc_thorough?4:3; setup();
	uint64_t h=0;
	for (int d=0;d<depth;++d){
		int k=mc_choose(NOP); mc_desc("%s; ",ops[k].t); 
		int want=expect(k), e=bas("%s",ops[k].t);
		if (k==NOP-1) must("DIM Z$(20)");
		if (want<0 ? !e : e!=want) mc_fail("%s: %s, expected %s",ops[k].t,errname(e),want<0?"an error":errname(want));
		values(ops[k].t); mc_state(mc_hash(&m,sizeof m)); h=mc_mix(h,k);
	}
	capacity(N); mc_nontrivial(mc_mix(h,mode)); mc_outcome(mc_hash(&m,sizeof m));
}
// the same statements separated by :, in one program (no clean-up between them)
static void s_prog(void){
	setup(); char src[1000]; *src=0; int want=0; 
	for (int d=0;d<3;++d){ int k=mc_choose(NOP); if (!strncmp(ops[k].t,"READ",4)||!strncmp(ops[k].t,"IF",2)||k==NOP-1) mc_skip(); if (!want) want=expect(k); if (d) strcat(src,":"); strcat(src,ops[k].t); }
	mc_desc("%s",src); int e=bas("%s",src); if (want<0 ? !e : e!=want) mc_fail("%s, expected %s",errname(e),want<0?"an error":errname(want));
	values("the program"); capacity(N); mc_nontrivial(mc_hash(src,strlen(src))); mc_state(mc_hash(&m,sizeof m));
}
// every statement taking or making strings, over and over
static const char* const loops[]={"A$=\"x\"","A$=A$+\"\"","A$=B$+\"k\"","A$=(\"a\"+\"b\")+(\"c\"+\"d\")","A$=STR$(1)+STR$(2)","A$=LEFT$(\"ab\"+\"c\",2)","A$=RIGHT$(STR$(123),2)","A$=MID$(\"a\"+\"bc\",1,1)","A$=SUBST$(\"a\"+\"b\",0,1,\"c\"+\"d\")","A$=HEX$(200,4)","A$=(\"a\"+\"b\")*3","A$=\"ab\"*0","A$=MID$(\"abc\",5,1)","A$=LEFT$(\"a\"+\"b\",0)","A$=INKEY$()","A$=TIME$","A$=DATE$","A$=PRGNAME$","A$=PACKAGE$","A$=PTR$(5)","A$=MEM$","MEM$=\"m\"+\"n\"",
 "X=LEN(\"a\"+\"b\")","X=ASC(\"a\"+\"b\")","X=VAL(\"1\"+\"2\")","X=INSTR(\"a\"+\"b\",\"b\"+\"\")","X=(\"a\"+\"b\"==\"a\"+\"b\")","X=(\"a\"+\"b\"!=\"c\"+\"\")","X=(\"a\"+\"b\"<\"c\"+\"\")","X=(\"a\"+\"b\">=\"c\"+\"\")","PRINT \"a\"+\"b\",\"c\"+\"d\";STR$(1)","IF \"a\"+\"b\"==\"ab\" THEN X=1","GOSUB \"@\"+\"L\"\rEND\r@L\rRETURN","ON 0 GOSUB \"@\"+\"L\"\rEND\r@L\rRETURN","GOTO \"@\"+\"L\"\r@L","ON 0 GOTO \"@\"+\"L\",\"@\"+\"M\"\r@L\r@M","ON 1 GOTO \"@\"+\"L\",\"@\"+\"M\"\r@L\r@M","RESTORE \"@\"+\"L\"\r@L\rDATA 1","READ A$\rDATA one","CHRREAD \"BGU\"+\"0\",0,A$","CHRSET \"BGU\"+\"0\",0,\"0\"*64","BGREAD (0,0,0),A$","CHRINIT \"BGU\"+\"0\"","COLINIT \"B\"+\"G\",1","COLINIT \"B\"+\"G\"","COLSET \"B\"+\"G\",1,\"0\"+\"01000\"","COLREAD (\"B\"+\"G\",1),R,G,B","GPUTCHR 0,0,\"BGU\"+\"0\",0,0,1","BGPUT 0,0,0,\"0\"+\"001\"","BGFILL 0,0,0,1,1,\"0\"+\"001\"","PNLTYPE \"O\"+\"FF\"","PNLSTR 0,0,\"a\"+\"b\"","PNLSTR 0,0,\"a\"+\"b\",0","KEY 1,\"a\"+\"b\"","DTREAD (\"2020/\"+\"01/01\"),Y,M,D","TMREAD (\"20:\"+\"01:01\"),Y,M,D","SWAP A$,B$","A$=B$","DIM_","SAVE \"MEM:\"+\"TTT\"","LOAD \"MEM:\"+\"TTT\",0","LOAD \"MEM:\"+\"NON\",0","X=CHKCHR(0,0)","X=ADDR(\"B\"+\"GU0\")","X=ADDR(\"B\"+\"GU0\",2)","POKE ADDR(\"A\"+\"$\"),0","TALK \"a\"+\"b\"","BGMPLAY \"a\"+\"b\"","BGMPLAY \"a\"+\"b\",\"c\"+\"d\"","BGMSET 128,\"a\"+\"b\"","BGMPRG 224,\"a\"+\"b\"","BGMSETD 128,\"@\"+\"L\"\r@L","EXEC \"NON\"+\"E\"","FILES \"M\"+\"EM\"",
 // statements that fail
 "A$=\"a\"+\"b\"+CHR$(999)","A$=LEFT$(\"a\"+\"b\",-1)","A$=MID$(\"a\"+\"b\",-1,2)","A$=MID$(\"a\"+\"b\",1,-2)","A$=RIGHT$(\"a\"+\"b\",-1)","A$=SUBST$(\"a\"+\"b\",3,1,\"c\"+\"d\")","A$=SUBST$(\"a\"*200,0,1,\"c\"*200)","A$=(\"a\"+\"b\")*200","A$=(\"a\"*200)+(\"b\"*200)","A$=HEX$(70000,2)","X=ASC(\"\"+\"\")","X=VAL(\"&\"+\"Z\")","X=INSTR(\"a\"+\"b\",\"b\"+\"c\",-1)","GOTO \"@\"+\"NONE\"","GOSUB \"x\"+\"y\"","RESTORE \"@\"+\"NONE\"","COLSET \"X\"+\"Y\",1,\"0\"+\"0\"","CHRSET \"BGU\"+\"0\",300,\"0\"*64","CHRSET \"BGU\"+\"0\",3,\"0\"*6","KEY 9,\"a\"+\"b\"","KEY 1,\"a\"*100+\"b\"","PNLTYPE \"X\"+\"Y\"","READ A$,X\rDATA a,b","READ A$","SAVE \"BAD:\"+\"T\"","LOAD \"BAD:\"+\"T\"","DTREAD (\"2020/\"+\"1/01\"),Y,M,D","PRINT \"a\"+\"b\",1/0","C$(9,9)=\"a\"+\"b\"","C$(99)=\"a\"+\"b\"","A$=C$(77)+\"q\"","IF \"a\"+\"b\"==STR$(1/0) THEN X=1","X=ADDR(\"X\"+\"YZ$\")","X=PEEK(0)","BGPUT 0,0,0,\"X\"+\"1\"","FILES \"NO\"+\"NE\"",
};
static void b_loop(void){ sys_boot_small(0,N,0); }
static void s_loop(void){
	int k=mc_range(sizeof loops/sizeof*loops); int pre=mc_choose(2); setup(); mc_desc("%s x40",loops[k]); if (pre) must("A$=\"pa\":B$=\"pb\":C$(0)=\"pc\":C$(1)=B$");
	if (!strcmp(loops[k],"DIM_")) mc_skip();
	int e0=bas("%s",loops[k]); mc_trans(1);
	char sb_[600]; u8 q[600]; 
	for (int i=0;i<40;++i){ int e=bas("%s",loops[k]); if (e!=e0) mc_fail("repetition %d: %s, first %s",i,errname(e),errname(e0)); if (e==ERR_OUT_OF_MEMORY) mc_fail("out of memory after %d repetitions",i); }
	int n=sys_strv(strv(2),q); if (n!=(pre?2:0)||memcmp(q,"pc",n)) mc_fail("C$(0) changed"); n=sys_strv(strv(3),q); if (strncmp(loops[k],"SWAP",4) && (n!=(pre?2:0)||memcmp(q,"pb",n))) mc_fail("C$(1) changed");
	(void)sb_; mc_validated(40); 
	// repeated inside one program
	if (!e0 && !strchr(loops[k],'\r') && strncmp(loops[k],"IF",2)){ int e=bas("FOR I=1 TO 30:%s:NEXT",loops[k]); if (e) mc_fail("in a loop: %s",errname(e)); }
	capacity(N); mc_nontrivial(k*6+mode*2+pre); mc_state(k); mc_outcome(e0);
}
// few free strings: a statement works or reports out of memory and changes nothing
static void s_full(void){
	int k=mc_choose(NOP), fill=mc_choose(6), pre=mc_choose(3); setup();
	if (k==NOP-1) mc_skip();
	const char* a=pre==0?"":pre==1?"ab":"k"; must("A$=\"%s\":B$=\"%s\":C$(0)=\"c0\":C$(1)=B$",a,pre==2?"":"longer"); lit(0,a); lit(1,pre==2?"":"longer"); lit(2,"c0"); lit(3,m.v[1]);
	// occupy all but `fill` strings
	int z=0; while (!bas("Z$(%d)=\"f%d\"",z,z)) ++z; for (int i=0;i<fill&&i<z;++i) must("Z$(%d)=Z$(%d)",z-1-i,0);
	int fr=fill<z?fill:z-1;
	mc_desc("%d free strings, A$=\"%s\" B$=\"%s\": %s",fr,m.v[0],m.v[1],ops[k].t);
	M s=m; int want=expect(k), e=bas("%s",ops[k].t); mc_validated(1);
	bool same = want<0 ? e : e==want;
	if (!same){ if (e!=ERR_OUT_OF_MEMORY) mc_fail("%s, expected %s or out of memory",errname(e),errname(want)); if (fr>=4) mc_fail("out of memory with %d free strings",fr); if (strncmp(ops[k].t,"READ",4)) m=s; else { m=s; u8 q[600]; int n=sys_strv(strv(0),q); if (n==3&&!memcmp(q,"x y",3)) lit(0,"x y"); } }
	values(ops[k].t);
	for (int i=0;i<z;++i){ u8 q[600]; char w[9]; sprintf(w,"f%d",(i>=z-fill&&z-fill>=0)||(fill>=z)?0:i); struct named_var* v=sys_find("Z",VAR_STRING|VAR_ARRAY); int n=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,q); if (n!=(int)strlen(w)||memcmp(q,w,n)) mc_fail("Z$(%d) is %.*s, expected %s",i,n,q,w); }
	for (int i=0;i<z;++i) must("Z$(%d)=Z$(0)",i);
	must("CLEAR:DIM C$(2):DIM Z$(20)"); capacity(N);
	mc_nontrivial(mc_mix(k*8+fill,mode*4+pre)); mc_state(mc_hash(&m,sizeof m)); mc_outcome(e);
}
// strings kept anywhere (every element of arrays of every shape) survive every kind of event
static void s_shape(void){
	static const struct { int x,y; } sh[]={{1,0},{7,0},{1,1},{2,3},{3,2},{1,6},{6,1},{2,2}};
	static const char* const ev[]={"","X=1/0","A$=\"q\"+\"w\"+CHR$(300)","A$=S$(99)","PRINT LEFT$(\"a\"+\"b\",-1)","ACLS","CLS","GOSUB \"@\"+\"NO\"","READ A$","DIM S$(3)","STOP","Q$=\"z\":X=1/0","SWAP S$(%s),S$(%s)"};
	int k=mc_range(8), e=mc_choose(sizeof ev/sizeof*ev), part=mc_choose(3); sys_reset(); setmode(mc_choose(3)); int x=sh[k].x,y=sh[k].y,n=y?x*y:x;
	if (y) must("DIM S$(%d,%d),Z$(20)",x,y); else must("DIM S$(%d),Z$(20)",x);
	char at[8][16]; for (int i=0;i<n;++i) if (y) sprintf(at[i],"%d,%d",i%x,i/x); else sprintf(at[i],"%d",i);
	// part 0: every element; 1: only the last; 2: every other one
	int used=0; int has[8]={0}; for (int i=0;i<n;++i) if (part==0 || (part==1&&i==n-1) || (part==2&&i%2==1)){ must("S$(%s)=\"s%d\"",at[i],i); has[i]=1; ++used; }
	must("LONGNAME$=\"v\""); ++used; // and a variable
	mc_desc("S$ %d,%d part %d; %s",x,y,part,ev[e]);
	int swap=e==12; char t[99]; if (swap) sprintf(t,ev[e],at[0],at[n-1]); else strcpy(t,ev[e]);
	if (*t){ bas("%s",t); mc_trans(1); } if (e==11) ++used;
	int z=0; while (z<N+2 && !bas("Z$(%d)=\"n%d\"",z,z)) ++z;
	mc_validated(1); if (z!=N-used) mc_fail("%d of %d strings can still be stored, expected %d",z,N,N-used);
	for (int i=0;i<n;++i){ int o=swap ? (i==0?n-1:i==n-1?0:i) : i; char w[9]=""; if (has[o]) sprintf(w,"s%d",o); u8 q[600]; struct named_var* v=sys_find("S",VAR_STRING|VAR_ARRAY); int l=sys_strv(arr_entry(v->value.ptr,i%x,i/x)->ptr,q);
		if (l!=(int)strlen(w)||memcmp(q,w,l)) mc_fail("S$(%s) is \"%.*s\", expected \"%s\"",at[i],l,q,w); }
	u8 q[600]; struct named_var* v=sys_find("LONGNAME",VAR_STRING); int l=sys_strv(v->value.ptr,q); if (l!=1||*q!='v') mc_fail("LONGNAME$ is \"%.*s\"",l,q);
	for (int i=0;i<z;++i){ char w[9]; sprintf(w,"n%d",i); v=sys_find("Z",VAR_STRING|VAR_ARRAY); l=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,q); if (l!=(int)strlen(w)||memcmp(q,w,l)) mc_fail("Z$(%d) is \"%.*s\"",i,l,q); }
	mc_nontrivial(mc_mix(mc_mix(k,e),part*4+mode)); mc_state(mc_mix(k*3+part,e)); mc_outcome(z);
}
// one string held by any number of places stays until the last of them is overwritten
static void b_refs(void){ sys_boot_small(0,8,2048); }
static void s_refs(void){
	static const int ns[]={1,2,3,7,8,15,16,31,32,63,64,126,127,128,129,254,255,256,257,258,300,510,511,512,513,514,700,767,768,769,1000,1022,1023,1024,1025,1026};
	int n=ns[mc_range(36)], how=mc_choose(5), drop=mc_choose(4); if (how==2 && n>6) mc_skip(); sys_reset(); setmode(mc_choose(3)); mc_desc("%d holders, way %d, then %d; ",n,how,drop);
	must("DIM S$(%d),Z$(20)",n); must("T$=\"sh\"+\"ared\":K$=\"k\"");
	must(how==0?"FOR I=0 TO %d:S$(I)=T$:NEXT":how==1?"S$(0)=T$:FOR I=1 TO %d:S$(I)=S$(I-1):NEXT":how==2?"FOR I=0 TO %d:S$(I)=MID$(T$,0,6):NEXT":how==3?"U$=T$:FOR I=0 TO %d:S$(I)=U$:NEXT:U$=K$":"FOR I=0 TO %d:S$(I)=T$:SWAP S$(I),T$:NEXT",n-1);
	int own= how==2 ? n : 0;
	int has=n; if (drop==1) must("T$=K$"); if (drop==2){ must("T$=K$:FOR I=0 TO %d:S$(I)=K$:NEXT",n-1); has=0; } if (drop==3){ must("T$=K$:FOR I=1 TO %d:S$(I)=K$:NEXT",n-1); has=1; }
	int used = 1 + (drop==2?0 : drop==3?1 : how==2 ? own+(drop==0) : 1);
	int z=0; while (z<12 && !bas("Z$(%d)=\"n%d\"",z,z)) ++z;
	mc_validated(1); if (z!=8-used) mc_fail("%d of 8 strings can still be stored, expected %d",z,8-used);
	u8 q[600]; struct named_var* v=sys_find("S",VAR_STRING|VAR_ARRAY); for (int i=0;i<n;++i){ int l=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,q); const char* w=i<has?"shared":"k"; if (l!=(int)strlen(w)||memcmp(q,w,l)) mc_fail("S$(%d) is \"%.*s\", expected \"%s\"",i,l,q,w); }
	v=sys_find("T",VAR_STRING); int l=sys_strv(v->value.ptr,q); if (l!=(drop?1:6)||memcmp(q,drop?"k":"shared",l)) mc_fail("T$ is \"%.*s\"",l,q);
	v=sys_find("Z",VAR_STRING|VAR_ARRAY); for (int i=0;i<z;++i){ char w[9]; sprintf(w,"n%d",i); l=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,q); if (l!=(int)strlen(w)||memcmp(q,w,l)) mc_fail("Z$(%d) is \"%.*s\"",i,l,q); }
	mc_nontrivial(mc_mix(n*8+how,drop*4+mode)); mc_state(mc_mix(n*8+how,drop)); mc_outcome(z);
}
// the whole string memory of the system: 4096 strings
static void b_all(void){ sys_boot_small(0,4096,20000); }
static void s_all(void){
	static const int ns[]={255,256,257,511,512,513,1000,1023,1024,1025,2047,2048,2049,3000,4090,4094,4095,4096}; int n=ns[mc_range(18)], w=mc_choose(5), v=mc_choose(3); sys_reset(); setmode(mc_choose(3)); must("CLEAR");
	mc_desc("%d strings, then %d by way %d; ",n,v,w); must("DIM S$(4097),Z$(4200):T$=\"k\"");
	// n strings in use, T$ among them
	must(w==0?"FOR I=0 TO %d:S$(I)=STR$(I):NEXT":w==1?"FOR I=%d TO 0 STEP -1:S$(I)=STR$(I):NEXT":w==2?"FOR I=0 TO %d:S$(I)=HEX$(I):S$(I)=STR$(I):NEXT":w==3?"FOR I=0 TO %d:S$(I)=STR$(I):SWAP S$(I),T$:SWAP S$(I),T$:NEXT":"FOR I=0 TO %d:S$(I)=MID$(STR$(I),0,9):NEXT",n-3-(n>4090)*0);
	int used=n-2+1; int freed=0; // S$(0..n-3) and T$
	if (v==1){ must("FOR I=0 TO %d STEP 2:S$(I)=T$:NEXT",n-3); freed=(n-3)/2+1; } if (v==2){ must("FOR I=%d TO %d:S$(I)=T$:NEXT",n/2,n-3); freed=n-2-n/2; }
	used-=freed; int e=bas("FOR I=0 TO 4199:Z$(I)=\"z\":NEXT"); struct named_var* iv=sys_find("I",VAR_NUMBER); int z=iv->value.number>>12; mc_validated(1);
	if (e!=ERR_OUT_OF_MEMORY) mc_fail("the string memory is never exhausted: %s",errname(e)); if (z!=4096-used) mc_fail("%d more strings could be stored, expected %d",z,4096-used);
	u8 q[600]; struct named_var* s=sys_find("S",VAR_STRING|VAR_ARRAY); for (int i=0;i<n-2;++i){ char x[20]; sprintf(x,"%d",i); if ((v==1&&i%2==0)||(v==2&&i>=n/2)) strcpy(x,"k"); int l=sys_strv(arr_entry(s->value.ptr,i,0)->ptr,q); q[l<0?0:l]=0; if (strcmp((char*)q,x)) mc_fail("S$(%d) is \"%s\", expected \"%s\"",i,q,x); }
	s=sys_find("Z",VAR_STRING|VAR_ARRAY); for (int i=0;i<z;++i){ int l=sys_strv(arr_entry(s->value.ptr,i,0)->ptr,q); if (l!=1||*q!='z') mc_fail("Z$(%d) is damaged",i); }
	s=sys_find("T",VAR_STRING); int l=sys_strv(s->value.ptr,q); if (l!=1||*q!='k') mc_fail("T$ is damaged");
	must("CLEAR:A$=\"ok\""); s=sys_find("A",VAR_STRING); l=sys_strv(s->value.ptr,q); if (l!=2||memcmp(q,"ok",2)) mc_fail("A$ is damaged"); must("CLEAR");
	mc_nontrivial(mc_mix(n*8+w,v*4+mode)); mc_state(mc_mix(n*8+w,v)); mc_outcome(z);
}
const mc_suite mc_suites[]={{"all",s_all,MC_QT,b_all},{"refs",s_refs,MC_QT,b_refs},{"seq",s_seq,MC_QT,b_small},{"prog",s_prog,MC_T,b_small},{"loop",s_loop,MC_QT,b_loop},{"full",s_full,MC_QT,b_small},{"shape",s_shape,MC_QT,b_small}};
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

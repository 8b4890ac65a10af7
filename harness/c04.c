// C04: variables are independent, persistent, typed, limited.
#include "bas.h"
const char* mc_rule = "all ordered pairs of names x all four variable types x all lookup modes; all sequences of the variable operations up to the stated length over tables of 2..4 slots; all table sizes x name families filled to capacity; all target/value type combinations; non-trivial = at least two variables or a refused operation, counted by program text";
enum { TN, TS, TAN, TAS };
static const char* const tsuf[] = {"","$","[%d]","$[%d]"};
static void ref_(char* o, const char* n, int t, int ix){ strcpy(o,n); if (t==TS||t==TAS) strcat(o,"$"); if (t>=TAN) sprintf(o+strlen(o),"[%d]",ix); }

// ---- pairs of names
static char nm[160][24]; static int nnm;
static void mk_names(bool big){
	nnm=0; static const char a1[]="ABa", a2[]="ABa1_";
	for (int i=0;i<3;++i){ sprintf(nm[nnm++],"%c",a1[i]);
		for (int j=0;j<5;++j){ sprintf(nm[nnm++],"%c%c",a1[i],a2[j]);
			if (big) for (int k=0;k<5;++k) sprintf(nm[nnm++],"%c%c%c",a1[i],a2[j],a2[k]); } }
}
static void mk_long(void){
	nnm=0;
	for (int l=1;l<=18;++l){ memset(nm[nnm],'A',l); nm[nnm][l]=0; ++nnm; }
	static const char* const s[]={"AAAAAAAAAAAAAAAB","BAAAAAAAAAAAAAAA","AAAAAAABAAAAAAAA","AAAAAAAAAAAAAAAa","AAAAAAAAAAAAAAB","AAAAAAAAAAAAAA1","AAAAAAAAAAAAAAA_",
	 "FORA","PRINTX","IFX","TOX","ORB","NOTE","ANDY","REMARK","DATAX","TRUEX","LABELX","NEXTI","PIX","FORAAAAAAAAAAAAA","LENX","MEMX","TIMEA","A1B2C3D4E5F6G7H8","A1B2C3D4E5F6G7H9","_A","_","__","MAINCNTLM","ICONPUSEICONPAGE","KEYBOARDFUNCNO","maincntlm"};
	for (unsigned i=0;i<sizeof s/sizeof*s;++i) strcpy(nm[nnm++],s[i]);
}
static void assign(const char* r, int t, int v){
	char b[200]; if (t==TS||t==TAS) sprintf(b,"%s=\"s%d\"\r",r,v); else sprintf(b,"%s=%d\r",r,v);
	int e=sys_run(b,opts()); mc_desc("%.60s ",b);
	if (e) mc_fail("%s failed: %s",b,errname(e));
}
static void expect(const char* r, int t, int v){
	char x[40]; if (v==-1) strcpy(x, (t==TS||t==TAS)?"":"0"); else if (t==TS||t==TAS) sprintf(x,"s%d",v); else sprintf(x,"%d",v);
	int e; const char* g=sys_eval(r,opts(),&e); mc_validated(1);
	if (e) mc_fail("reading %s failed: %s",r,errname(e));
	if (strcmp(g,x)) mc_fail("%s is %s, expected %s",r,g,x);
}
static void pair(int i, int j, int t1, int t2){
	char a[60],b[60]; ref_(a,nm[i],t1,2); ref_(b,nm[j],t2,2);
	bool bad1=strlen(nm[i])>16, bad2=strlen(nm[j])>16;
	mc_desc("[%s %s] ",a,b);
	mc_nontrivial(mc_mix(mc_hash(a,strlen(a)),mc_mix(mc_hash(b,strlen(b)),mode)));
	if (bad1||bad2){
		if (!bad1) assign(a,t1,7);
		char s[100]; sprintf(s,"%s=%s\r",bad2?b:a,((bad2?t2:t1)&1)?"\"x\"":"1");
		if (!sys_run(s,opts())) mc_fail("a name of more than 16 characters was accepted");
		if (!bad1) expect(a,t1,7);
		if (!bad2) expect(b,t2,-1);
		return;
	}
	expect(b,t2,-1);
	assign(a,t1,11); 
	bool same = t1==t2 && !strcmp(nm[i],nm[j]);
	expect(b,t2,same?11:-1);
	assign(b,t2,22);
	expect(a,t1,same?22:11); expect(b,t2,22);
	if (t1>=TAN){ char c[60]; ref_(c,nm[i],t1,3); expect(c,t1,-1); }
	mc_state(sys_hash_vars());
}
static void s_pairs(void){
	mk_names(mc_thorough); int i=mc_range(nnm), j=mc_range(nnm);
	int t1=mc_choose(4), t2=mc_choose(4);
	sys_reset(); setmode(mc_choose(3)); pair(i,j,t1,t2);
}
static void s_long(void){
	mk_long(); int i=mc_range(nnm), j=mc_range(nnm);
	int t1=mc_choose(4), t2=mc_choose(4); 
	if (!mc_thorough && (t1>TS || t2==TAS || t2==TAN)) mc_skip();
	sys_reset(); setmode(mc_choose(3)); pair(i,j,t1,t2);
}
// ---- sequences of operations over a small table
static void seq(int cap, int depth){
	static const char* const N[]={"A","B","C","A1"}; enum {NV=6};
	static const struct { const char* n; int t; } vs[NV]={{"A",TN},{"B",TN},{"A",TS},{"A",TAN},{"C1",TN},{"A",TAS}};
	(void)N;
	sys_reset(); setmode(mc_choose(3));
	bool known[NV]={0}; int val[NV]; int used=0;
	for (int i=0;i<NV;++i) val[i]=-1;
	int big=0; bool live[NV]={0};
	for (int d=0;d<depth;++d){
		int op=mc_choose(3*NV+3);
		mc_desc("; ");
		if (op==3*NV){
			if (sys_run("CLEAR\r",opts())) mc_fail("CLEAR failed");
			mc_desc("CLEAR");
			for (int i=0;i<NV;++i){ val[i]=-1; live[i]=false; if (mode!=2) known[i]=false; }
			if (mode!=2) used=0;
		} else if (op==3*NV+2){ // creates the array unless it exists
			if (mode==2 && !known[3]) mc_skip(); // DIM names the array without binding the entry to the code
			int e=sys_run("DIM A[10]\r",opts()); mc_desc("DIM A[10]"); mc_validated(1); bool room=known[3]||used<cap;
			if (live[3]){ if (!e) mc_fail("DIM of an existing array is accepted"); }
			else if (!room){ ++big; if (e!=ERR_OUT_OF_MEMORY) mc_fail("DIM with a full table gives '%s'",errname(e)); }
			else { if (e) mc_fail("DIM fails with '%s'",errname(e)); if (!known[3]){ known[3]=true; ++used; } live[3]=true; val[3]=-1; }
		} else if (op==3*NV+1){
			char x[20]; int e; sprintf(x,"%d",cap-used);
			const char* g=sys_eval("FREEVAR",opts(),&e); mc_desc("FREEVAR");
			if (e||strcmp(g,x)) mc_fail("FREEVAR is %s, expected %s",g,x);
		} else {
			int v=op/3, k=op%3; char r[40],s[80]; ref_(r,vs[v].n,vs[v].t,3);
			bool str=vs[v].t==TS||vs[v].t==TAS;
			int e; const char* g=NULL;
			if (k==0){ if (str) sprintf(s,"%s=\"s%d\"\r",r,d); else sprintf(s,"%s=%d\r",r,d); e=sys_run(s,opts()); }
			else if (k==1){ sprintf(s,"?%s",r); g=sys_eval(r,opts(),&e); }
			else { // statement that fails after naming the variable
				if (str) sprintf(s,"%s=CHR$(-1)\r",r); else sprintf(s,"%s=1/0\r",r);
				e=sys_run(s,opts()); if (!e) mc_fail("%s reported no error",s);
			}
			mc_desc("%s",s); mc_validated(1);
			bool room = known[v] || used<cap;
			if (!room){
				++big;
				if (k<2 && e!=ERR_OUT_OF_MEMORY) mc_fail("%s with a full table gives '%s'",s,errname(e));
			} else {
				if (!known[v]){ known[v]=true; ++used; }
				live[v]=true;
				if (k<2 && e) mc_fail("%s fails with '%s' although %d of %d slots are used",s,errname(e),used,cap);
				if (k==0) val[v]=d;
				if (k==1){ char x[20]; if (val[v]<0) strcpy(x,str?"":"0"); else sprintf(x,str?"s%d":"%d",val[v]); if (strcmp(g,x)) mc_fail("%s shows %s, expected %s",s,g,x); }
			}
		}
		// every known variable still has its value
		uint64_t h=mode;
		for (int i=0;i<NV;++i){
			h=mc_mix(h,known[i]*100+live[i]*1000+val[i]+2);
		}
		mc_state(h);
	}
	for (int i=0;i<NV;++i) if (known[i]){ char r[40]; ref_(r,vs[i].n,vs[i].t,3); expect(r,vs[i].t,val[i]); }
	mc_nontrivial(mc_mix(sys_hash_vars(),mode)); mc_outcome(mc_mix(sys_hash_vars(),big));
}
static void b2(void){ sys_boot_small(2,0,0); }
static void b4(void){ sys_boot_small(4,0,0); }
static void s_seq2(void){ seq(2, mc_thorough?4:3); }
static void s_seq4(void){ seq(4, mc_thorough?5:4); }
// ---- whole tables
static void famname(char* o, int fam, int i){
	switch (fam){
		case 0: if (i<26) sprintf(o,"%c",'A'+i); else sprintf(o,"%c%c",'A'+i/26-1,'A'+i%26); break;
		case 1: sprintf(o,"V%d",i); break;
		case 2: sprintf(o,"A%03d",i*7%1000); break;
		case 3: sprintf(o,"LONGVARIABLE%04d",i); break;
		case 4: sprintf(o,"%c_%c",'A'+i%26,'A'+i/26); break;
		case 7: sprintf(o,"%c%dZ",'A'+i%26,i/26); break;
		case 5: sprintf(o,"%c%c",'a'+i%26,'A'+i/26); break;
		default:{ int n=1+i%15; sprintf(o,"%c",'A'+i/15); for (int k=1;k<n;++k) o[k]='A'; o[n]=0; }
	}
}
static void fill(int cap){
	int fam=mc_choose(8), ord=mc_choose(3), tp=mc_choose(3); if (cap==2048 && ((fam!=1&&fam!=3&&fam!=7) || (!mc_thorough && (ord==1 || tp==1)))) mc_skip(); // (the other families do not have that many names)
	sys_reset(); setmode(mc_choose(3)); mc_desc("cap %d family %d order %d types %d",cap,fam,ord,tp);
	if (fam==6 && cap>256) mc_skip();
	char r[60],n[40];
	for (int k=0;k<cap;++k){
		int i = ord==0?k: ord==1?cap-1-k : (k*37+5)%cap;  // 37 odd: a permutation of 2^n
		famname(n,fam,i); int t = tp==2 ? i%2 : tp; 
		ref_(r,n,t?TS:TN,0); 
		char b[80]; if (t) sprintf(b,"%s=\"s%d\"\r",r,i); else sprintf(b,"%s=%d\r",r,i);
		int e=sys_run(b,opts()); 
		if (e) mc_fail("variable %d of %d (%s) refused: %s",k+1,cap,r,errname(e));
	}
	int e=sys_run("ZZZ9=1\r",opts()); if (e!=ERR_OUT_OF_MEMORY) mc_fail("variable beyond the capacity: %s",errname(e));
	e=sys_run("ZZZ9$=\"a\"\r",opts()); if (e!=ERR_OUT_OF_MEMORY) mc_fail("variable beyond the capacity: %s",errname(e));
	if (mode==2){ // a line that cannot be compiled has no effect at all
		famname(n,fam,0); int t=tp==2?0:tp; ref_(r,n,t?TS:TN,0); char b[160]; sprintf(b,t?"%s=\"lost\":ZZZ9=1\r":"%s=777:ZZZ9=1\r",r);
		e=sys_run(b,opts()); if (e!=ERR_OUT_OF_MEMORY) mc_fail("variable beyond the capacity, second statement: %s",errname(e)); }
	for (int i=0;i<cap;++i){ famname(n,fam,i); int t=tp==2?i%2:tp; ref_(r,n,t?TS:TN,0); expect(r,t?TS:TN,i); }
	mc_nontrivial(mc_mix(fam*10+ord,mc_mix(cap,tp*3+mode))); mc_state(sys_hash_vars());
	if (sys_run("CLEAR\r",opts())) mc_fail("CLEAR failed");
	for (int i=0;i<cap;++i){ famname(n,fam,i); int t=tp==2?i%2:tp; ref_(r,n,t?TS:TN,0); expect(r,t?TS:TN,-1); }
}
// ---- slots used again after CLEAR by names of another length
static void rname(char* o, int len, int i, int k){ memset(o,'A'+k,len); o[0]='A'+i; o[len]=0; }
static void s_reuse(void){
	int l1=mc_range(16)+1, l2=mc_range(16)+1, t1=mc_choose(2), t2=mc_choose(2), how=mc_choose(3);
	enum { CAP=16 }; sys_reset(); setmode(mc_choose(3)); char n[24],r[40];
	for (int i=0;i<CAP;++i){ rname(n,l1,i,25); ref_(r,n,t1,0); assign(r,t1,i); }
	if (mode==2 && how==0) how=2;  // entries are kept: every name must still be found, nothing else fits
	if (sys_run("CLEAR\r",opts())) mc_fail("CLEAR failed");
	if (mode!=2){
		for (int i=0;i<CAP;++i){ rname(n,l2,how==1?CAP-1-i:i,l1==l2?22:25); ref_(r,n,t2,0); if (how==2) expect(r,t2,-1); assign(r,t2,i+40); }
		for (int i=0;i<CAP;++i){ rname(n,l2,how==1?CAP-1-i:i,l1==l2?22:25); ref_(r,n,t2,0); expect(r,t2,i+40); }
		shows("0","FREEVAR");
	} else for (int i=0;i<CAP;++i){ rname(n,l1,i,25); ref_(r,n,t1,0); expect(r,t1,-1); assign(r,t1,i+40); expect(r,t1,i+40); }
	mc_nontrivial(mc_mix(l1*100+l2,how*100+t1*10+t2+mode*1000)); mc_state(sys_hash_vars());
}
static void breuse(void){ sys_boot_small(16,48,0); }
#define FILL(n) static void bf##n(void){ sys_boot_small(n,n<16?16:n+8,0); } static void s_fill##n(void){ fill(n); }
FILL(1) FILL(8) FILL(16) FILL(64) FILL(128)
static void bf2048(void){ sys_restore_big=true; sys_boot_small(2048,2100,0); }
static void s_fill2048(void){ fill(2048); }
// ---- typed assignment
static void s_types(void){
	static const char* const pre="N=3:S$=\"t\":A[1]=5:B$[1]=\"u\"\r";
	static const char* const tg[]={"X","X$","Y[1]","Y$[1]","N","S$","A[1]","B$[1]","Z[1,2]","Z$[1,2]"};
	static const struct { const char* e; bool str; const char* v; } vals[]={
		{"7",0,"7"},{"\"q\"",1,"q"},{"N",0,"3"},{"S$",1,"t"},{"A[1]",0,"5"},{"B$[1]",1,"u"},{"N+1",0,"4"},{"S$+\"k\"",1,"tk"},{"LEN(S$)",0,"1"},{"CHR$(65)",1,"A"},
		{"S$==\"t\"",0,"1"},{"STR$(5)",1,"5"},{"VAL(\"8\")",0,"8"},{"-N",0,"-3"},{"S$*2",1,"tt"},{"TRUE",0,"1"},{"PRGNAME$",1,""},{"(N)",0,"3"},{"(S$)",1,"t"},{"LEFT$(S$,1)",1,"t"},{"&HF",0,"15"},{"!N",0,"0"} };
	int t=mc_choose(10), v=mc_choose(22); 
	sys_reset(); setmode(mc_choose(3)); if (sys_run(pre,opts())) mc_fail("setup failed");
	bool ts=strchr(tg[t],'$'); char b[100]; 
	int init=mc_choose(2); if (init){ sprintf(b,"%s=%s\r",tg[t],ts?"\"w\"":"9"); sys_run(b,opts()); }
	char old[40]; strcpy(old,sys_eval(tg[t],opts(),NULL));
	// value after the optional initial assignment
	char want[40]; strcpy(want,vals[v].v);
	int ge; { const char* g=sys_eval(vals[v].e,opts(),&ge); if (ge) mc_fail("%s: %s",vals[v].e,errname(ge)); strcpy(want,g); }
	if (!init && strcmp(want,vals[v].v)) mc_fail("%s is %s, expected %s",vals[v].e,want,vals[v].v);
	sprintf(b,"%s=%s\r",tg[t],vals[v].e); mc_desc("%s",b);
	int e=sys_run(b,opts()); bool ok = ts==vals[v].str;
	if (ok && e) mc_fail("refused: %s",errname(e));
	if (!ok && !e) mc_fail("a value of the wrong type was assigned");
	const char* g=sys_eval(tg[t],opts(),NULL); mc_validated(2);
	if (strcmp(g,ok?want:old)) mc_fail("%s is %s afterwards, expected %s",tg[t],g,ok?want:old);
	mc_nontrivial(mc_hash(b,strlen(b))+mode*3+init); mc_state(sys_hash_vars());
}
// ---- SWAP exchanges exactly the two variables
static void s_swap(void){
	static const char* const v[]={"N","M","S$","T$","A[0]","A[1]","B$[0]","B$[1]"};
	static const char* const ini[]={"1","2","\"a\"","\"b\"","3","4","\"c\"","\"d\""}; static const char* const sh[]={"1","2","a","b","3","4","c","d"};
	int n=mc_choose(mc_thorough?3:2)+1; 
	sys_reset(); setmode(mc_choose(3)); char b[100]; int cur[8];
	for (int i=0;i<8;++i){ sprintf(b,"%s=%s\r",v[i],ini[i]); if (sys_run(b,opts())) mc_fail("setup"); cur[i]=i; }
	for (int k=0;k<n;++k){
		int i=mc_choose(8), j=mc_choose(8); sprintf(b,"SWAP %s,%s\r",v[i],v[j]); mc_desc("%s",b);
		int e=sys_run(b,opts()); bool ok=!strchr(v[i],'$')==!strchr(v[j],'$');
		if (ok && e) mc_fail("refused: %s",errname(e)); if (!ok && !e) mc_fail("types mixed without an error");
		if (ok){ int t=cur[i]; cur[i]=cur[j]; cur[j]=t; }
		mc_state(sys_hash_vars());
	}
	for (int i=0;i<8;++i){ const char* g=sys_eval(v[i],opts(),NULL); mc_validated(1); if (strcmp(g,sh[cur[i]])) mc_fail("%s is %s, expected %s",v[i],g,sh[cur[i]]); }
	mc_nontrivial(sys_hash_vars()+mode);
}
// ---- values persist over all other kinds of statements and over programs
static void s_keep(void){
	static const char* const st[]={"CLS","LOCATE 3,3","?\"HI\"","FOR I=0 TO 3:NEXT","GOSUB @S:END:@S:RETURN","VSYNC 1","ACLS","WAIT 2","COLOR 1","DIM Q(5,5)","READ R:DATA 4","Z$=\"x\"*9","X=1/0","GOTO @NO","COLOR 99","NEXT","RESTORE @D:@D:DATA 1","SORT 0,3,V","SPSET 0,0,0,0,0,0","BGPUT 0,1,1,0,0,0,0","GLINE 0,0,5,5","END","STOP","KEY 1,\"A\"","SWAP X,Y","?FREEVAR","?A$(1","ELSE","BADWORD"};
	int n=sizeof st/sizeof*st, a=mc_range(n), b=mc_range(n);
	sys_reset(); setmode(mc_choose(3));
	if (sys_run("A=1:A$=\"two\":B[3]=4:B$[2]=\"six\":LONGNAME1=7:V[0]=0\r",opts())) mc_fail("setup");
	char s[200]; sprintf(s,"%s\r",st[a]); sys_run(s,opts()); sprintf(s,"%s\r",st[b]); sys_run(s,opts()); mc_desc("%s / %s",st[a],st[b]);
	static const char* const r[]={"A","A$","B[3]","B$[2]","LONGNAME1"}; static const char* const w[]={"1","two","4","six","7"};
	for (int i=0;i<5;++i){ int e; const char* g=sys_eval(r[i],opts(),&e); mc_validated(1); if (e||strcmp(g,w[i])) mc_fail("%s is %s (%s), expected %s",r[i],g,errname(e),w[i]); }
	mc_nontrivial(a*100+b+mode*10000); mc_state(sys_hash_vars());
}
static void bkeep(void){ sys_boot_small(64,32,1024); }
static void s_keepq(void){ s_keep(); }
// ---- a full table of names that differ in one character, or of all the beginnings of one word
static void s_alike(void){
	static const char* const word[]={"AAAAAAAAAAAAAAAA","QBCDEFGHIJKLMNOP","PPPPPPPPPPPPPPPP","A1234567890_____","zyxwvutsrqponmlk"};
	int L=mc_range(17), p=mc_choose(16), w=mc_choose(5), ord=mc_choose(3), t=mc_choose(4); if (L ? p>=L : p>1) mc_skip(); enum { CAP=16 };
	sys_reset(); setmode(mc_choose(3)); mc_desc("%s length %d position %d ",word[w],L,p); char n[CAP][24],r[60];
	for (int i=0;i<CAP;++i) if (L){ strcpy(n[i],word[w]); n[i][L]=0; n[i][p]="ABPQRSTUVWXYZabc"[i]; if (p&&i>10&&word[w][1]!='P') n[i][p]="01234"[i-11]; } else { int l=p?16-i:i+1; strcpy(n[i],word[w]); n[i][l]=0; }
	for (int i=0;i<CAP;++i) for (int j=0;j<i;++j) if (!strcmp(n[i],n[j])) mc_skip();
	for (int i=0;i<CAP;++i) if (!strcmp(n[i],"PI")||!strcmp(n[i],"TO")||!strcmp(n[i],"ON")||!strcmp(n[i],"IF")||!strcmp(n[i],"OR")) mc_skip();
	int q[CAP]; for (int i=0;i<CAP;++i) q[i]=ord==0?i:ord==1?CAP-1-i:(i*7+3)%CAP;
	for (int k=0;k<CAP;++k){ int i=q[k]; ref_(r,n[i],t,2); assign(r,t,i); }
	for (int i=0;i<CAP;++i){ ref_(r,n[i],t,2); expect(r,t,i); }
	shows("0","FREEVAR"); for (int k=0;k<CAP;++k){ int i=q[k]; ref_(r,n[i],t,2); assign(r,t,99-i); }
	for (int i=0;i<CAP;++i){ ref_(r,n[i],t,2); expect(r,t,99-i); }
	mc_nontrivial(mc_mix(L*20+p,mc_mix(w*4+t,ord*3+mode))); mc_state(sys_hash_vars());
}
static void b_alike(void){ sys_boot_small(16,40,400); }
const mc_suite mc_suites[] = {
	{"pairs",s_pairs,MC_QT,sys_boot},{"long",s_long,MC_QT,sys_boot},{"types",s_types,MC_QT,sys_boot},{"swap",s_swap,MC_QT,sys_boot},{"keep",s_keepq,MC_QT,bkeep},
	{"reuse",s_reuse,MC_QT,breuse},{"seq2",s_seq2,MC_QT,b2},{"seq4",s_seq4,MC_QT,b4},
	{"fill1",s_fill1,MC_QT,bf1},{"fill8",s_fill8,MC_QT,bf8},{"fill16",s_fill16,MC_QT,bf16},{"fill64",s_fill64,MC_QT,bf64},{"fill128",s_fill128,MC_QT,bf128},{"fill2048",s_fill2048,MC_QT,bf2048},
 {"alike",s_alike,MC_QT,b_alike}};
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

// C22: every statement, function and system variable with every kind sequence and value
// combination of the stated bounds: it works or it is rejected without any effect, and a
// probe program run afterwards (and on the next line) computes the fixed answers.
#include "bas.h"
#include <unistd.h>
#include <dirent.h>
#include <math.h>
#include <sys/stat.h>
const char* mc_rule = "every keyword x every sequence of argument kinds up to the stated length; every keyword template x every value of the stated sets in every single position and pair of positions (all combinations up to three arguments); every omitted argument; every system variable x every way of assigning x every value; every sequence of direct mode lines up to the stated depth; counted by keyword, kinds and position";
typedef struct { const char* n; const char* sig; int fl; } K;
enum { FLOW=1, STUB=2, KEEP=4 /* may leave a partial effect */, NOT=8 /* never works */, NOPROBE=16, BIG=32, FIL=64 };
static const K cmds[]={
 {"LOCATE","NN"},{"COLOR","N,NN"},{"CLS","0"},{"VISIBLE","*",KEEP},{"ACLS","0",KEEP},{"VSYNC","N"},{"WAIT","N"},
 {"APPEND","S",FIL|KEEP},{"BEEP","0,N,NN,NNN,NNNN"},{"BGCLIP","NNNN"},{"BGCLR","0,N",BIG},{"BGCOPY","NNNNNNN",BIG},{"BGFILL","NNNNNN,NNNNNS,NNNNNNNNN",BIG},
 {"BGMCLEAR","0,N"},{"BGMPLAY","N,S,NN,SS,NNN,SSS,SSSS,SSSSS,SSSSSS,SSSSSSS,SSSSSSSS,SSSSSSSSS"},{"BGMPRG","NS,NNS,NNNNNS,NNNNNNS"},{"BGMSET","NS,NSS,NSSS,NSSSS,NSSSSS,NSSSSSS,NSSSSSSS,NSSSSSSSS,NSSSSSSSSS"},{"BGMSETD","NL"},{"BGMSETV","NNN"},{"BGMSTOP","0,N,NN"},{"BGMVOL","N,NN"},
 {"BGOFS","NNN,NNNN"},{"BGPAGE","N"},{"BGPUT","NNNN,NNNS,NNNNNNN",BIG},{"BGREAD","NNNn,NNNs,NNNnnnn"},{"BREPEAT","N,NNN"},{"CHRINIT","S",BIG|KEEP},{"CHRREAD","SNs"},
 {"CHRSET","SNS",BIG},{"CLEAR","0"},{"COLINIT","0,S,SN",BIG|KEEP},{"COLREAD","SNnnn"},{"COLSET","SNS",BIG},{"CONT","0",NOT},{"DELETE","S",NOT},{"DTREAD","Snnn"},
 {"EXEC","S",FLOW|FIL|KEEP},{"FILES","0",FIL|KEEP},{"GBOX","NNNN,NNNNN",BIG},{"GCIRCLE","NNN,NNNN,NNNNNN",BIG},{"GCLS","0,N",BIG},{"GCOLOR","N"},{"GCOPY","NNNNNNN,NNNNNNNN",BIG},{"GDRAWMD","N"},
 {"GFILL","NNNN,NNNNN",BIG},{"GLINE","NNNN,NNNNN",BIG},{"GPAGE","N,NNN"},{"GPAINT","NN,NNN,NNNN",BIG|KEEP},{"GPSET","NN,NNN",BIG},{"GPRIO","N"},{"GPUTCHR","NNSNNN",BIG},{"ICONCLR","0,N"},{"ICONSET","NN"},
 {"KEY","NS"},{"LIST","",NOT},{"LOAD","S,SN",BIG|FIL|KEEP},{"NEW","0"},{"PNLSTR","NNS,NNSN"},{"PNLTYPE","S"},{"REBOOT","",NOT},{"RECVFILE","",NOT},{"RENAME","SS",NOT},
 {"RUN","0",FLOW|KEEP},{"SAVE","S",FIL|KEEP},{"SENDFILE","S",NOT},{"SPANGLE","NN,NNN,NNNN"},{"SPANIM","NNN,NNNN"},{"SPCHR","NN,NNNNNN"},{"SPCLR","0,N"},{"SPCOL","NNNNNN,NNNNNNN"},
 {"SPCOLVEC","NNN"},{"SPHOME","NNN"},{"SPOFS","NNN,NNNN"},{"SPPAGE","N"},{"SPREAD","Nn,Nnn,Nnnn,Nnnnn,Nnnnnn"},{"SPSCALE","NN,NNN"},{"SPSET","NNNNNN,NNNNNNNN"},{"SPSETV","NNN"},{"SWAP","nn,ss"},{"TMREAD","Snnn"},
 {"TALK","S"},{"TALKSTOP","0"},{"POKE","NN",BIG},{"POKEH","NN",BIG},{"POKEB","NN",BIG},{"MEMCOPY","NNN",BIG},{"MEMFILL","NNN",BIG},{"RESTORE","L"},
};
enum { NC=sizeof cmds/sizeof *cmds };
static const K funcs[]={
 {"ABS","N"},{"ASC","S"},{"ATAN","N,NN"},{"BGCHK","N"},{"BGMCHK","0,N"},{"BGMGETV","NN",NOT},{"BTRIG","0"},{"BUTTON","0,N"},{"CHKCHR","NN"},{"CHR$","N"},{"COS","N"},{"DEG","N"},{"EXP","N"},{"FLOOR","N"},
 {"GSPOIT","NN,NNN"},{"HEX$","N,NN"},{"ICONCHK","0"},{"INKEY$","0"},{"INSTR","SS,SSN"},{"LEFT$","SN"},{"LEN","S"},{"LOG","N"},{"MID$","SNN"},{"PI","0"},{"POW","NN"},{"RAD","N"},{"RIGHT$","SN"},
 {"RND","N"},{"SGN","N"},{"SIN","N"},{"SPCHK","N"},{"SPGETV","NN"},{"SPHIT","N,NN"},{"SPHITSP","NN"},{"SQR","N"},{"STR$","N"},{"SUBST$","SNNS"},{"TAN","N"},{"VAL","S"},{"TALKCHK","0"},
 {"PEEK","N"},{"PEEKH","N"},{"PEEKB","N"},{"ADDR","S,SN"},{"PTR$","N"},{"SPHITRC","",NOT},
};
enum { NF=sizeof funcs/sizeof *funcs };
static bool retstr(const char* f){ return f[strlen(f)-1]=='$'; }
// ---- own reading of a signature: does a kind sequence fit?
static bool fit1(char k, char s){ switch (s){ case 'N': return k=='N'||k=='n'||k=='w'; case 'S': return k=='S'||k=='s'||k=='W'; case 'n': return k=='n'; case 's': return k=='s'; case 'L': return k=='L'||k=='S'||k=='s'||k=='W'; } return false; }
static bool fit(const char* k, const char* sig){
	int n=strlen(k);
	for (const char* p=sig;*p;){ const char* e=strchr(p,','); int l=e?e-p:(int)strlen(p);
		if ((n==0&&l==1&&*p=='0')) return true;
		if (l==n&&*p!='0'&&*p!='*'){ int i=0; while (i<n&&fit1(k[i],p[i])) ++i; if (i==n) return true; }
		p+=l; if (*p==',') ++p; }
	return false;
}
static const char* sigargs(char s){ switch (s){ case 'N': return "1"; case 'S': return "\"A\""; case 'n': return "V"; case 's': return "V$"; case 'L': return "@LB"; case 'w': return "TABSTEP"; case 'W': return "MEM$"; } return "?"; }
// ---- files for the file statements
static void w(const char* f, const void* d, int n){ FILE* h=fopen(f,"wb"); fwrite(d,1,n,h); fclose(h); }
static void files(void){
	DIR* d=opendir("programs"); struct dirent* e; char b[300];
	while ((e=readdir(d))) if (e->d_name[0]!='.'){ snprintf(b,sizeof b,"programs/%s",e->d_name); unlink(b); }
	closedir(d);
	char m[12+36+8]; memset(m,0,sizeof m);
	// header: 36 bytes PX01... is optional, the plain form starts with the type
	const char* prg="Q=7\r"; u8 p[36+24]; memset(p,0,sizeof p); memcpy(p,"PETC0300RPRG",12); p[20]=4; memcpy(p+24,prg,4); w("programs/PRGX.PTC",p,28);
	static u8 mem[12+516]; memset(mem,0,sizeof mem); memcpy(mem,"PETC0200RMEM",12); mem[12]='M'; mem[12+512]=1; w("programs/MEMX.PTC",mem,sizeof mem);
}
static int broke; static bool nt_;
#define NT_() (nt_=true)
static void slept(void){ inc_time(&P->time); if (sys_sleeps==3 && !P->exec.error){ P->exec.error=ERR_BREAK; broke=1; } }
static bool isbig, isfil;
static void start(int fl){
	sys_restore_big = (fl&BIG)!=0; isbig=sys_restore_big; isfil=(fl&FIL)!=0;
	sys_reset(); broke=0; if (isfil) files();
}
static void boot_(void){
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort();
	if (mkdir("programs",0700)) {} int qq=chown(".",65534,65534); qq|=chown("programs",65534,65534); if (!qq&&getuid()==0){ qq=setgid(65534); qq=setuid(65534); } // nothing real is writable for this user
	sys_cfg.prg=4096; sys_restore_big=true; sys_boot();
	P->console.test_mode=false; P->res.search_path="programs/"; sys_on_sleep=slept; sys_sleep_limit=400;
	static const char* const live[]={"CLEAR:V=5:V$=\"vv\":DIM A[4],A$[4],B[2,3]\rA$[1]=\"el\":A[1]=3:W=0:X=0:Y$=\"\":Z=0:U=0:Q=0:R=0:R$=\"\"\rMEM$=\"mm\":MEMSAFE=1:SPSET 1,3,2,1,0,1:SPSET 2,3,0,0,0,0:SPOFS 1,20,20:CLS\r",
		// everything is in the middle of something
		"SPSET 3,64,1,0,1,2:SPOFS 1,100,80,60:SPANGLE 1,90,50,1:SPSCALE 1,150,60:SPANIM 1,3,5:SPCOL 1,1,2,7,9,1,5:SPCOLVEC 1,3,4\rSPSETV 1,2,17:SPHOME 1,3,4:SPOFS 3,7,9:SPSET 5,20,0,0,0,3\rSPPAGE 1:SPSET 4,5,1,0,0,1:SPOFS 4,50,60,30:SPANIM 4,2,7,3:SPPAGE 0\r",
		"BGOFS 0,40,50,100:BGOFS 1,3,4:BGCLIP 2,3,20,21:BGFILL 0,4,4,9,9,17:BGFILL 1,6,6,12,12,33\rBGPAGE 1:BGOFS 0,8,9,50:BGFILL 0,2,2,7,7,9:BGPAGE 0\rGPAGE 1,2,3:GCOLOR 9:GFILL 3,4,90,80,12:GPAGE 0,1,0:GCOLOR 7:GFILL 10,12,60,50,6:GPRIO 2:GDRAWMD 1\r",
		"KEY 1,\"KKK\":KEY 3,\"xy\":ICONSET 1,5:ICONSET 2,6:ICONPMAX=3:ICONPAGE=2:ICONPUSE=1:BREPEAT 1,20,5:BREPEAT 3,9,4\rVISIBLE 1,1,0,1,1,0:COLSET \"BG\",3,\"102030\":COLSET \"GRP\",4,\"F0E0D0\":CHRSET \"BGU1\",7,\"0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF\"\rPNLTYPE \"KYM\":PNLSTR 3,4,\"panel\",5:COLOR 3,4:LOCATE 4,5:?\"text\":TABSTEP=3\r",NULL};
	int e=0; for (int i=0;live[i]&&!e;++i) e=sys_run(live[i],0);
	if (e){ fprintf(stderr,"boot: %s\n",errname(e)); exit(3); }
	set_inkey(&P->input,to_wide('k')); set_inkey(&P->input,to_wide('l')); for (int i=0;i<5;++i){ set_input(&P->input,0x11); set_touch(&P->input,true,40,50); inc_time(&P->time); step_sprites(P); step_background(P); }
	memcpy(P->exec.prg.data,"Q=9\r",4); P->exec.prg.size=4;
	sys_snapshot();
	int n; struct bytecode* b=sys_bc(); void* q;
	q=sys_block(b->data,&n); sys_ignore(q,n); q=sys_block(b->line_length,&n); if (q) sys_ignore(q,n); q=sys_block(b->labels.entry,&n); if (q) sys_ignore(q,n);
	sys_ignore(&P->exec,sizeof P->exec); sys_ignore(&P->exec_old,sizeof P->exec_old); sys_ignore(&P->stack,sizeof P->stack); sys_ignore(&P->calls,sizeof P->calls); sys_ignore(&P->time,sizeof P->time);
	sys_ignore(&P->res.result,sizeof P->res.result); sys_ignore(&P->vars.error,sizeof P->vars.error);
	q=sys_block(P->strs.strs,&n); sys_ignore(q,n); q=sys_block(P->strs.strs[0].ptr.s,&n); if (q) sys_ignore(q,n);
	sys_ignore(&P->strs,sizeof P->strs); sys_ignore(&P->memapi,sizeof P->memapi);
}
static const char* where(const void* p){
	static char b[120]; const u8* q=p; u8* s=(u8*)P;
	#define IN(m) if (q>=(u8*)&P->m&&q<(u8*)&P->m+sizeof P->m) { snprintf(b,sizeof b,#m "+%d",(int)(q-(u8*)&P->m)); return b; }
	IN(console) IN(background) IN(sprites) IN(graphics) IN(panel) IN(res) IN(input) IN(vars) IN(arrs)
	int n; u8* k=sys_block(p,&n); snprintf(b,sizeof b,"block of %d bytes +%d%s",n,(int)(q-k),k==s?" (system)":""); return b;
}
// ---- the program run afterwards
static const char probe_src[]="W=0:Z=1+2*3:Y$=\"P\"+STR$(Z)\rFOR X=1 TO 3:W=W+X:NEXT\rIF W==6 THEN GOSUB @PQ ELSE W=0\rON 1 GOTO @PA,@PB\r@PA\rW=0\r@PB\rRESTORE @PD:READ U\r@PD\rDATA 42\rEND\r@PQ\rV=LEN(Y$):RETURN\r";
static void valid_state(const char* what){
	struct console* c=&P->console;
	if (c->x>CONSOLE_WIDTH||c->y>CONSOLE_HEIGHT) mc_fail("%s leaves the text cursor at %d,%d",what,c->x,c->y);
	if (c->tabstep>16) mc_fail("%s leaves TABSTEP %d",what,c->tabstep);
	bool ok; int ref=sys_ref_strings(&ok), live=sys_live_strings(); if (!ok||ref!=live) mc_fail("%s leaks a string: %d in use, %d held by variables",what,live,ref);
}
static void probe(const char* what){
	int e=sys_run(probe_src,0);
	if (e) mc_fail("after %s the probe program fails: %s",what,errname(e));
	if (sys_num("Z")!=INT_TO_FP(7)||sys_num("W")!=INT_TO_FP(6)||strcmp(sys_strz("Y"),"P7")||sys_num("V")!=INT_TO_FP(2)||sys_num("U")!=INT_TO_FP(42))
		mc_fail("after %s the probe program computes Z=%d W=%d Y$=%s V=%d U=%d",what,(int)sys_num("Z")/4096,(int)sys_num("W")/4096,sys_strz("Y"),(int)sys_num("V")/4096,(int)sys_num("U")/4096);
	if (P->stack.stack_i||P->calls.stack_i) mc_fail("after %s the stacks are not empty (%d,%d)",what,P->stack.stack_i,P->calls.stack_i);
	mc_validated(1);
}
static bool is_test(int e){ return e>=ERR_TEST_COMMAND&&e<=ERR_TEST_STACK; }
// run the statement on its own line before "Q=3"; returns the error
static int stmt(const char* s, const K* k){
	static char b[3000]; snprintf(b,sizeof b,"%s\rQ=3\r@LB\r",s);
	mc_desc("%s ",s); if (nt_){ mc_nontrivial(mc_hash(s,strlen(s))); nt_=false; }
	uint64_t h=sys_hash_vars();
	int e=sys_run(b,0);
	if (e){
		if (broke&&sys_sleeps>8) mc_fail("%s goes on after a break (%d sleeps)",s,sys_sleeps);
		if (!(k->fl&KEEP)){
			const void* d=sys_diff(); if (d) mc_fail("%s fails (%s) but changes %s from %d to %d",s,errname(e),where(d),sys_image(d),*(const u8*)d);
			if (sys_hash_vars()!=h) mc_fail("%s fails (%s) but changes a variable",s,errname(e));
		}
	} else if (!(k->fl&FLOW)){
		struct named_var* q=sys_find("Q",VAR_NUMBER); if (!strcmp(k->n,"CLEAR")||1) if (!q||q->value.number!=INT_TO_FP(3)) mc_fail("the line after %s is not executed",s);
	}
	valid_state(s);
	return e;
}
static void b_kinds(void){
	int i=mc_choose(NC+NF); const K* k=i<NC?&cmds[i]:&funcs[i-NC]; bool f=i>=NC;
	int n=mc_choose(mc_thorough?6:5); static const char kc[]="NSnsLwW"; char ks[8]={0}; char a[200]="",s[300];
	for (int j=0;j<n;++j){ ks[j]=kc[mc_choose(7)]; if (j) strcat(a,","); strcat(a,sigargs(ks[j])); }
	int r=f?mc_choose(3):0; // result into a number, into a string, discarded into PRINT
	if (f){ if (r==2) snprintf(s,sizeof s,"?%s(%s)",k->n,a); else snprintf(s,sizeof s,"%s=%s(%s)",r?"R$":"R",k->n,a); }
	else if (!strcmp(k->n,"BGREAD")&&n>=3){ char* c=a; for (int j=0;j<3;++j){ c=strchr(c,','); if (!c) break; ++c; } if (c) snprintf(s,sizeof s,"BGREAD (%.*s),%s",(int)(c-1-a),a,c); else snprintf(s,sizeof s,"BGREAD (%s)",a); }
	else if ((!strcmp(k->n,"CHRREAD")||!strcmp(k->n,"COLREAD"))&&n>=2){ char* c=strchr(strchr(a,',')+1,','); if (c) snprintf(s,sizeof s,"%s (%.*s),%s",k->n,(int)(c-a),a,c+1); else snprintf(s,sizeof s,"%s (%s)",k->n,a); }
	else snprintf(s,sizeof s,"%s %s",k->n,a);
	bool any=k->sig[0]=='*', good=fit(ks,k->sig);
	if (f&&r<2&&retstr(k->n)!=r) good=false;
	K kk=*k; if (f&&r==2) kk.fl|=KEEP;
	start(kk.fl); NT_();
	int e=stmt(s,&kk);
	if (!good&&!any&&!e) mc_fail("%s is accepted although its arguments are of the wrong kind or number",s);
	if (good&&is_test(e)&&!(k->fl&NOT)) mc_fail("%s is rejected as malformed (%s)",s,errname(e));
	if ((k->fl&NOT)&&!e) mc_fail("%s is not implemented but succeeds",s);
	mc_state(mc_mix(mc_mix(i,good),n)); mc_outcome(e?good?"error":"wrong kinds rejected":"ran");
	probe(s);
}

// every form of every signature with every single kind (thorough: pair of kinds) replaced, one argument dropped or one added
static void put_args(char* s, int sz, const K* k, bool f, int r, const char* ks){
	int n=strlen(ks); char in[300]="", out[300]=""; int cut=!strcmp(k->n,"BGREAD")?3:!strcmp(k->n,"CHRREAD")||!strcmp(k->n,"COLREAD")?2:!strcmp(k->n,"DTREAD")||!strcmp(k->n,"TMREAD")||!strcmp(k->n,"SPREAD")?1:0;
	for (int j=0;j<n;++j){ char* o=j<cut?in:out; if (*o) strcat(o,","); strcat(o,sigargs(ks[j])); }
	if (f){ if (r==2) snprintf(s,sz,"?%s(%s)",k->n,out); else snprintf(s,sz,"%s=%s(%s)",r?"R$":"R",k->n,out); }
	else if (cut) snprintf(s,sz,"%s (%s)%s%s",k->n,in,*out?",":"",out); else snprintf(s,sz,"%s %s",k->n,out);
}
static void b_forms(void){
	int i=mc_choose(NC+NF); const K* k=i<NC?&cmds[i]:&funcs[i-NC]; bool f=i>=NC;
	const char* forms[16]; int nf=0; for (const char* p=k->sig;*p;){ forms[nf++]=p; const char* e=strchr(p,','); if (!e) break; p=e+1; }
	if (!nf||k->sig[0]=='*') { mc_skip(); return; }
	const char* fo=forms[mc_choose(nf)]; int n=strcspn(fo,","); if (n==1&&*fo=='0') n=0; char ks[16]={0}; memcpy(ks,fo,n);
	static const char kc[]="NSnsLwW"; int how=mc_choose(n?4:2);
	if (how==1){ ks[n]=kc[mc_choose(7)]; ++n; } else if (how==2){ int d=mc_choose(n); memmove(ks+d,ks+d+1,n-d); --n; } else if (how==3){ int a=mc_choose(n); ks[a]=kc[mc_choose(7)]; int b=a+mc_choose(n-a); if (b!=a) ks[b]=kc[mc_choose(7)]; }
	char s[400]; put_args(s,sizeof s,k,f,retstr(k->n),ks); bool good=fit(ks,k->sig);
	start(k->fl); NT_(); int e=stmt(s,k);
	if (!good&&!e) mc_fail("%s is accepted although its arguments are of the wrong kind or number",s);
	if (good&&is_test(e)&&!(k->fl&NOT)) mc_fail("%s is rejected as malformed (%s)",s,errname(e));
	mc_state(mc_mix(mc_mix(i,good),n)); probe(s);
}
// ---- values
typedef struct { const char* t; const char* base; int fl; } T;
static const T tmpl[]={
 {"LOCATE $,$","1|2"},{"COLOR $,$","1|2"},{"COLOR $","1"},{"CLS",""},{"VISIBLE $,$,$,$,$,$","1|0|1|0|1|0",KEEP},{"VISIBLE ,,$,,,$","1|0",KEEP},{"VSYNC $","1"},{"WAIT $","1"},{"TABSTEP=$","3"},{"MEM$=$","\"A\""},{"MEMSAFE=$","1"},{"ICONPUSE=$","1"},{"ICONPAGE=$","0"},{"ICONPMAX=$","1"},
 {"BEEP $,$,$,$","1|0|64|64"},{"BGCLIP $,$,$,$","0|0|20|20"},{"BGCLR $","0",BIG},{"BGCOPY $,$,$,$,$,$,$","0|1|2|5|6|7|8",BIG},{"BGFILL $,$,$,$,$,$","0|0|0|3|3|5",BIG},{"BGFILL $,$,$,$,$,$","0|0|0|3|3|\"0123\"",BIG},{"BGFILL $,$,$,$,$,$,$,$,$","0|0|0|3|3|5|1|0|1",BIG},
 {"BGOFS $,$,$","0|1|2"},{"BGOFS $,$,$,$","0|1|2|3"},{"BGPAGE $","0"},{"BGPUT $,$,$,$","0|1|2|5",BIG},{"BGPUT $,$,$,$","0|1|2|\"0123\"",BIG},{"BGPUT $,$,$,$,$,$,$","0|1|2|5|6|0|1",BIG},{"BGREAD ($,$,$),V","0|1|2"},{"BGREAD ($,$,$),V$","0|1|2"},{"BGREAD ($,$,$),V,W,X,Z","0|1|2"},
 {"BREPEAT $","1"},{"BREPEAT $,$,$","1|2|3"},{"CHRINIT $","\"BGU0\"",BIG|KEEP},{"CHRREAD ($,$),V$","\"BGU0\"|1"},{"CHRSET $,$,$","\"BGU0\"|1|\"0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF0123456789ABCDEF\"",BIG},{"COLINIT $","\"BG\"",BIG|KEEP},{"COLINIT $,$","\"BG\"|1",BIG|KEEP},{"COLREAD ($,$),V,W,X","\"BG\"|1"},{"COLSET $,$,$","\"BG\"|1|\"102030\"",BIG},
 {"DTREAD $,V,W,X","\"2011/05/04\""},{"TMREAD $,V,W,X","\"10:20:30\""},{"DTREAD ($),V,W,X","\"2011/05/04\""},{"EXEC $","\"PRG:PRGX\"",FLOW|FIL|KEEP},{"LOAD $","\"MEM:MEMX\"",BIG|FIL|KEEP},{"LOAD $,$","\"MEM:MEMX\"|0",BIG|FIL|KEEP},{"SAVE $","\"MEM:MEMY\"",FIL|KEEP},{"APPEND $","\"PRG:PRGX\"",FIL|KEEP},
 {"GBOX $,$,$,$","10|20|30|40",BIG},{"GBOX $,$,$,$,$","10|20|30|40|5",BIG},{"GCIRCLE $,$,$","60|70|20",BIG},{"GCIRCLE $,$,$,$","60|70|20|7",BIG},{"GCIRCLE $,$,$,$,$,$","60|70|20|7|0|90",BIG},{"GCLS $","3",BIG},{"GCOLOR $","3"},{"GCOPY $,$,$,$,$,$,$","10|10|20|20|40|40|1",BIG},{"GCOPY $,$,$,$,$,$,$,$","0|10|10|20|20|40|40|1",BIG},{"GDRAWMD $","1"},
 {"GFILL $,$,$,$,$","10|20|30|40|5",BIG},{"GLINE $,$,$,$,$","10|20|30|40|5",BIG},{"GPAGE $","0"},{"GPAGE $,$,$","0|1|2"},{"GPAINT $,$","4|5",BIG|KEEP},{"GPAINT $,$,$,$","4|5|6|7",BIG|KEEP},{"GPSET $,$,$","4|5|6",BIG},{"GPRIO $","1"},{"GPUTCHR $,$,$,$,$,$","10|20|\"BGU0\"|1|2|1",BIG},
 {"ICONCLR $","1"},{"ICONSET $,$","1|2"},{"KEY $,$","1|\"A\""},{"PNLSTR $,$,$","1|2|\"A\""},{"PNLSTR $,$,$,$","1|2|\"A\"|3"},{"PNLTYPE $","\"OFF\""},
 {"SPANGLE $,$","1|45"},{"SPANGLE $,$,$","1|45|10"},{"SPANGLE $,$,$,$","1|45|10|1"},{"SPANIM $,$,$","1|2|3"},{"SPANIM $,$,$,$","1|2|3|4"},{"SPCHR $,$","1|4"},{"SPCHR $,$,$,$,$,$","1|4|1|0|1|1"},{"SPCLR $","1"},{"SPCOL $,$,$,$,$,$","1|0|0|8|8|1"},{"SPCOL $,$,$,$,$,$,$","1|0|0|8|8|1|3"},{"SPCOLVEC $,$,$","1|2|3"},
 {"SPHOME $,$,$","1|2|3"},{"SPOFS $,$,$","1|30|40"},{"SPOFS $,$,$,$","1|30|40|10"},{"SPPAGE $","0"},{"SPREAD ($),V","1"},{"SPREAD ($),V,W,X,Z,U","1"},{"SPSCALE $,$","1|50"},{"SPSCALE $,$,$","1|50|10"},{"SPSET $,$,$,$,$,$","3|4|1|0|1|1"},{"SPSET $,$,$,$,$,$,$,$","3|4|1|0|1|1|16|16"},{"SPSETV $,$,$","1|2|3"},
 {"A[$]=$","1|2"},{"B[$,$]=$","1|2|7"},{"R=B[$,$]","1|2"},{"A$[$]=$","1|\"A\""},{"R=A[$]","1"},{"DIM NA[$]","3"},{"DIM NA[$,$]","3|2"},{"DIM NA$[$]","3"},{"SWAP A[$],A[$]","1|2"},{"SORT $,$,A","0|3",KEEP},{"RSORT $,$,A,A$","0|3",KEEP},{"SORT $,$,A$,A","0|3",KEEP},
 {"R=$+$","1|2"},{"R=$-$","1|2"},{"R=$*$","1|2"},{"R=$/$","1|2"},{"R=$%$","1|2"},{"R=$ AND $","1|2"},{"R=$ OR $","1|2"},{"R=$ XOR $","1|2"},{"R=NOT $","1"},{"R=!$","1"},{"R=-$","1"},{"R=$<$","1|2"},{"R=$==$","1|2"},{"R$=$+$","\"A\"|\"B\""},{"R$=$*$","\"A\"|3"},{"R=$>=$","\"A\"|\"B\""},{"R=$!=$","\"A\"|\"B\""},
 {"ON $ GOTO @LB,@LB","0",FLOW},{"ON $ GOSUB @LB","1",FLOW},{"IF $ THEN R=1 ELSE R=2","1"},{"FOR R=$ TO $ STEP $:R=$:NEXT","1|1|1|3",KEEP|NOPROBE},{"GOTO $","\"@LB\"",FLOW},{"GOSUB $","\"@LB\"",FLOW},{"RESTORE $","\"@LB\""},{"?$,$;$","1|\"A\"|2",KEEP},{"IF $ GOTO @LB","1",FLOW},
 {"R=ABS($)","1"},{"R=ASC($)","\"A\""},{"R=ATAN($)","1"},{"R=ATAN($,$)","1|2"},{"R=BGCHK($)","0"},{"R=BTRIG()",""},{"R=BUTTON($)","0"},{"R=CHKCHR($,$)","1|2"},{"R$=CHR$($)","65"},{"R=COS($)","1"},{"R=DEG($)","1"},{"R=EXP($)","1"},{"R=FLOOR($)","1"},{"R=GSPOIT($,$)","1|2"},{"R=GSPOIT($,$,$)","0|1|2"},{"R$=HEX$($)","1"},{"R$=HEX$($,$)","1|4"},{"R=INSTR($,$)","\"AB\"|\"B\""},{"R=INSTR($,$,$)","\"AB\"|\"B\"|0"},
 {"R$=LEFT$($,$)","\"ABC\"|2"},{"R=LEN($)","\"A\""},{"R=LOG($)","1"},{"R$=MID$($,$,$)","\"ABC\"|1|1"},{"R=POW($,$)","2|3"},{"R=RAD($)","1"},{"R$=RIGHT$($,$)","\"ABC\"|2"},{"R=RND($)","5"},{"R=SGN($)","1"},{"R=SIN($)","1"},{"R=SPCHK($)","1"},{"R=SPGETV($,$)","1|2"},{"R=SPHIT($)","1"},{"R=SPHIT($,$)","1|2"},{"R=SPHITSP($,$)","1|2"},{"R=SQR($)","1"},{"R$=STR$($)","1"},{"R$=SUBST$($,$,$,$)","\"ABC\"|1|1|\"X\""},{"R=TAN($)","1"},{"R=VAL($)","\"1\""},
 {"R=PEEK($)","ADDR(\"MEM\")"},{"R=PEEKH($)","ADDR(\"MEM\")"},{"R=PEEKB($)","ADDR(\"MEM\")"},{"R=ADDR($)","\"GRP0\""},{"R=ADDR($,$)","\"GRP0\"|1"},{"R$=PTR$($)","ADDR(\"MEM\")"},
 {"READ V",""},{"READ V$",""},{"INPUT V","",KEEP},{"INPUT \"A\";V,V$","",KEEP},{"LINPUT V$","",KEEP},{"GCLS",""  ,BIG},{"RETURN",""},{"NEXT",""},{"NEXT V",""},{"RUN","",FLOW|KEEP},{"STOP","",FLOW},{"END","",FLOW},
};
enum { NT=sizeof tmpl/sizeof *tmpl };
static const char* const nums[]={"0","1","-1","2","3","0.5","-0.5","15","16","31","32","63","64","99","100","127","128","192","255","256","257","511","512","4095","4096","32767","32768","-32768","65535","65536","131072","262144","524287","-524287","524287.999","-2","-256","(-524287-1)"};
static const char* const nums2[]={"0","1","-1","0.5","16","64","255","256","32768","65536","524287","(-524287-1)"};
static char strsbuf[16][300]; static const char* strs_[16]; static const char* const strs0[]={"","A","0","-1","SPU0","BGU0L","BGU0","GRP0","GRP3","MEM","BG","SP","@LB","FFFF"};
static int nstr;
static void mkstr(void){ if (nstr) return; for (;nstr<14;++nstr){ sprintf(strsbuf[nstr],"\"%s\"",strs0[nstr]); strs_[nstr]=strsbuf[nstr]; } char* c=strsbuf[nstr]; *c++='"'; for (int i=0;i<200;++i) *c++='0'+i%10; *c++='"'; *c=0; strs_[nstr]=strsbuf[nstr]; ++nstr; sprintf(strsbuf[nstr],"\"\xff\xe0\x80\""); strs_[nstr]=strsbuf[nstr]; ++nstr; }
static bool vtrivial;
static void b_values(void){
	mkstr(); int t=mc_choose(NT); const T* m=&tmpl[t]; char bb[300]; strcpy(bb,m->base); char* v[12]; int n=0; for (char* p=strtok(bb,"|");p;p=strtok(NULL,"|")) v[n++]=p;
	bool all=n<=3&&mc_thorough;
	int i=-1,j=-1; int cnt=n+n*(n-1)/2+1; int sel=all?0:mc_choose(cnt);
	const char* a[12]; for (int q=0;q<n;++q) a[q]=v[q];
	#define PICK(q,full) (v[q][0]=='"' ? strs_[mc_choose(nstr)] : (full) ? nums[mc_choose(38)] : nums2[mc_choose(12)])
	if (all){ for (int q=0;q<n;++q) a[q]=PICK(q,true); }
	else if (sel&&sel<=n){ i=sel-1; a[i]=PICK(i,true); }
	else if (sel){ int q=sel-n-1; for (i=0;i<n;++i) for (j=i+1;j<n;++j) if (q--==0) goto got; got: a[i]=PICK(i,mc_thorough); a[j]=PICK(j,mc_thorough); }
	char s[2000]; char* o=s; int q=0; for (const char* p=m->t;*p;++p) if (*p=='$'&&(p==m->t||p[-1]==' '||p[-1]=='('||p[-1]==','||p[-1]=='='||p[-1]=='['||p[-1]=='+'||p[-1]=='-'||p[-1]=='*'||p[-1]=='/'||p[-1]=='%'||p[-1]=='<'||p[-1]=='!'||p[-1]==';'||p[-1]=='?')) o+=sprintf(o,"%s",a[q++]); else *o++=*p; *o=0;
	if (q!=n){ fprintf(stderr,"template %s: %d of %d\n",m->t,q,n); exit(3); }
	K k={m->t,"",m->fl};
	bool loops=(m->fl&NOPROBE); // FOR with step 0 or a reset counter: the loop may be endless
	if (loops&&strcmp(a[2],"0")==0) { mc_skip(); return; }
	if (loops&&(sel==0||(i!=2&&j!=2&&i!=3&&j!=3&&0))) {}
	start(m->fl); if (sel||all) NT_();
	int e;
	if (loops){ // one pass: leave the loop at once
		char f[600]; snprintf(f,sizeof f,"FOR R=%s TO %s STEP %s:V=%s:GOTO @LB:NEXT",a[0],a[1],a[2],a[3]); k.fl|=FLOW; e=stmt(f,&k); strcpy(s,f);
	} else e=stmt(s,&k);
	if (is_test(e)) mc_fail("%s is rejected as malformed (%s)",s,errname(e));
	if (!sel&&!all&&e&&e!=ERR_BREAK&&strncmp(m->t,"CHRINIT",7)&&strcmp(m->t,"READ V")&&strcmp(m->t,"READ V$")&&strcmp(m->t,"NEXT")&&strcmp(m->t,"NEXT V")&&strcmp(m->t,"RETURN")&&strcmp(m->t,"GCIRCLE $,$,$,$,$,$")&&strcmp(m->t,"GOSUB $")) mc_fail("%s with ordinary arguments fails: %s",s,errname(e));
	mc_state(mc_mix(mc_mix(t,e),sel)); mc_outcome(e?"rejected":"ran");
	probe(s);
}
static void b_omit(void){
	int i=mc_choose(NC+NF); const K* k=i<NC?&cmds[i]:&funcs[i-NC]; bool f=i>=NC; int n=2+mc_choose(mc_thorough?4:3); int om=1+mc_choose((1<<n)-1);
	char a[200]="",s[300]; for (int j=0;j<n;++j){ if (j) strcat(a,","); if (!(om>>j&1)) strcat(a,mc_choose(2)?"\"A\"":"1"); }
	if (f) snprintf(s,sizeof s,"%s=%s(%s)",retstr(k->n)?"R$":"R",k->n,a); else snprintf(s,sizeof s,"%s %s",k->n,a);
	if (!strcmp(k->n,"VISIBLE")) { mc_skip(); return; }
	start(k->fl); NT_(); int e=stmt(s,k);
	if (!e) mc_fail("%s is accepted although arguments are missing",s);
	mc_state(mc_mix(i,om)); probe(s);
}
// ---- system variables
typedef struct { const char* n; bool str, wr; const char* lo; const char* hi; } SV;
static const SV svs[]={{"TRUE"},{"FALSE"},{"CANCEL"},{"VERSION"},{"TIME$",1},{"DATE$",1},{"MAINCNTL"},{"MAINCNTH"},{"FREEVAR"},{"FREEMEM"},{"PRGNAME$",1},{"PACKAGE$",1},{"RESULT"},{"TCHST"},{"TCHX"},{"TCHY"},{"TCHTIME"},{"CSRX"},{"CSRY"},{"TABSTEP",0,1},{"SPHITNO"},{"KEYBOARD"},{"FUNCNO"},{"ICONPUSE",0,1},{"ICONPAGE",0,1},{"ICONPMAX",0,1},{"ERL"},{"ERR"},{"MEM$",1,1},{"MEMSAFE",0,1}};
enum { NSV=sizeof svs/sizeof *svs };
static void b_sysvar(void){
	int i=mc_choose(NSV); const SV* s=&svs[i]; mkstr();
	static const char* const way[]={"%s=%s","FOR %s=%s TO 3:NEXT","READ %s 'x%s","%s[0]=%s","SWAP %s,V'%s","SWAP V$,%s'%s","INPUT %s'%s","LINPUT %s'%s","BGREAD (0,0,0),%s'%s","CHRREAD (\"BGU0\",0),%s'%s","COLREAD (\"BG\",0),V,W,%s'%s","DTREAD \"2000/01/01\",V,W,%s'%s","SPREAD (1),%s'%s","SPREAD (1),V,%s'%s","DIM %s[3]'%s","NEXT %s'%s","SORT 0,2,A,%s'%s"};
	int wy=mc_choose(17); const char* v=wy?s->str?"\"A\"":"1":s->str?strs_[mc_choose(nstr)]:nums[mc_choose(38)];
	if (!wy&&mc_choose(2)) v=s->str?"1":"\"A\""; // wrong type
	bool wrong=(v[0]=='"')!=s->str;
	char b[700]; snprintf(b,sizeof b,way[wy],s->n,v);
	start(0); NT_();
	char q[100]; snprintf(q,sizeof q,"R%s=%s\r",s->str?"$":"",s->n); 
	K k={"sysvar","",wy==6||wy==7?KEEP:0}; 
	int e=stmt(b,&k);
	bool may=s->wr&&wy==0&&!wrong;
	if (!may&&!e) mc_fail("%s is accepted",b);
	if (may){ double d=v[0]=='"'?0:strtod(v[0]=='('?"-524288":v,NULL); int n=(int)floor(d); bool in=true;
		if (!strcmp(s->n,"TABSTEP")){ if (e) mc_fail("%s is rejected",b); sys_run("R=TABSTEP:CLS:?1,2;:X=CSRX\r",0); int r=sys_num("R"); if (r&4095||r<0||r>16*4096||(n>=1&&n<=16&&r!=n*4096)) mc_fail("%s reads back %g",b,r/4096.0); r/=4096; int x=r<=1?2:(1+r-1)/r*r+1; if (r>1&&sys_num("X")!=x*4096) mc_fail("after %s, reading %d, the second item ends at column %d, expected %d",b,r,sys_num("X")/4096,x); } else if (!strcmp(s->n,"ICONPUSE")||!strcmp(s->n,"MEMSAFE")) in=true; else if (!strcmp(s->n,"ICONPMAX")) in=n>=0&&n<=15; else if (!strcmp(s->n,"ICONPAGE")) in=n>=0&&n<=0; else if (s->str) in=true;
		if (s->str&&(in!=!e)) mc_fail("%s %s (%s)",b,e?"is rejected although it is in range":"is accepted although it is out of range",errname(e));
		if (!e){ char z[200]; static u8 g[600]; int e2=sys_run(q,0); if (e2) mc_fail("%s cannot be read after %s",s->n,b); int l=0;
			if (s->str){ l=sys_str("R",g); if (l!=(int)strlen(v)-2||memcmp(g,v+1,l)) mc_fail("%s reads back another string",b); }
			else if (!strcmp(s->n,"ICONPUSE")||!strcmp(s->n,"MEMSAFE")){ int w=n?1:0; if (d==floor(d)&&sys_num("R")!=INT_TO_FP(w)&&sys_num("R")!=INT_TO_FP(n)) mc_fail("%s reads back %g",b,sys_num("R")/4096.0); }
			(void)z; }
	}
	mc_state(mc_mix(mc_mix(i,wy),e)); probe(b);
}

// ---- a system variable is accepted exactly where a value of its kind is
static void b_uses(void){
	static const struct { const char* t; char need; } ctx[]={{"R=%s",'N'},{"R$=%s",'S'},{"R=-%s",'N'},{"R=!%s",'N'},{"R=NOT %s",'N'},{"R=ABS(%s)",'N'},{"R=SGN(%s)",'N'},{"R$=STR$(%s)",'N'},{"R$=HEX$(%s)",'N'},{"R$=CHR$(%s)",'N'},{"R=LEN(%s)",'S'},{"R=ASC(%s)",'S'},{"R=VAL(%s)",'S'},{"R$=LEFT$(%s,1)",'S'},{"R$=LEFT$(\"x\",%s)",'N'},{"R$=MID$(%s,0,1)",'S'},{"R$=MID$(\"x\",%s,1)",'N'},{"R$=MID$(\"x\",0,%s)",'N'},{"R=INSTR(%s,\"x\")",'S'},{"R=INSTR(\"x\",%s)",'S'},{"R$=SUBST$(\"xy\",0,1,%s)",'S'},{"R$=SUBST$(%s,0,1,\"x\")",'S'},{"R=A[%s]",'N'},{"A[0]=%s",'N'},{"A$[0]=%s",'S'},{"A[0,%s]=1",'N'},{"DIM T[%s]",'N'},{"IF %s THEN R=1",'N'},{"IF %s GOTO @LB ELSE R=2",'N'},{"ON %s GOTO @LB,@LB",'N'},{"ON %s GOSUB @NO",'N'},{"FOR I=%s TO 0:NEXT",'N'},{"FOR I=1 TO MIN[:NEXT",'X'},{"LOCATE %s,0",'N'},{"COLOR 0,%s",'N'},{"GPSET 0,0,%s",'N'},{"BGREAD (0,0,%s),V",'N'},{"KEY 1,%s",'S'},{"PNLSTR 0,0,%s",'S'},{"CHRSET \"SPU0\",0,%s",'S'},{"BGCHK(%s)",'X'},{"?%s",'A'},{"?1,%s;2",'A'},{"INPUT %s;V",'X'},{"R=(%s)+1",'N'},{"R$=(%s)+\"\"",'S'}};
	enum { NCX=sizeof ctx/sizeof *ctx }; static const char* const op[]={"+","-","*","/","%"," AND "," OR "," XOR ","==","!=","<","<=",">",">="};
	int i=mc_choose(NSV), w=mc_choose(NCX+NSV+3); const SV* s=&svs[i]; char b[200]; bool ok;
	if (w<NCX){ if (ctx[w].need=='X') { mc_skip(); return; } snprintf(b,sizeof b,ctx[w].t,s->n); ok=ctx[w].need=='A'||(ctx[w].need=='S')==s->str; }
	else { static const SV other[]={{"1"},{"\"A\"",true},{"A[1]"}}; w-=NCX; const SV* t=w<NSV?&svs[w]:&other[w-NSV]; int o=mc_choose(14), r=mc_choose(2); const SV *x=s,*y=t; if (w>=NSV&&mc_choose(2)){ x=t; y=s; }
		snprintf(b,sizeof b,"R%s=%s%s%s",r?"$":"",x->n,op[o],y->n);
		if (!o) ok=x->str==y->str&&x->str==(bool)r; else if (o==2) ok=!y->str&&x->str==(bool)r; else ok=o<8?!x->str&&!y->str&&!r:x->str==y->str&&!r; }
	start(0); NT_(); K k={"sysvar","",KEEP|FLOW}; sys_run("R=7:R$=\"r\":V=1:A[1]=3\r",0);
	int e=stmt(b,&k);
	if (ok&&is_test(e)) mc_fail("%s is rejected (%s)",b,errname(e));
	if (!ok&&!is_test(e)) mc_fail("%s is accepted although the kinds do not fit (%s)",b,errname(e));
	mc_state(mc_mix(mc_hash(b,strlen(b)),e)); mc_outcome(ok?"fits":"refused"); probe(b);
}

// ---- the value a line leaves in a system variable is legal however the line ends
static void b_assigned(void){
	static const char* const tails[]={"",":NEXT",":STOP",":END",":A=1/0",":RETURN",":GOTO @NO",":GOTO @OK",":GOSUB @OK",":A=\"x\"",":LOCATE 1,2,3,4",":IF 0 THEN A=1",":IF 1 THEN A=1 ELSE A=2",":DATA 1",":'x",":ON 1 GOTO @OK",":RUN",":EXEC \"NOFILE\"",":?A(3)",":CLEAR"};
	static const char* const nm[]={"TABSTEP","ICONPMAX","ICONPAGE","ICONPUSE"}; static const char* const vs[]={"0","1","4","15","16","17","99","-1","2.5","524287","(-524287-1)"};
	char b[300]=""; int n=mc_range(2)+1; for (int i=0;i<n;++i){ int w=mc_choose(5); if (w==4){ static const char* const st[]={"\"\"","\"q\"","CHR$(65)+\"b\"","\"x\"*256","\"x\"*300"}; sprintf(b+strlen(b),"%sMEM$=%s",i?":":"",st[mc_choose(5)]); } else sprintf(b+strlen(b),"%s%s=%s",i?":":"",nm[w],vs[mc_choose(11)]); }
	strcat(b,tails[mc_choose(sizeof tails/sizeof *tails)]); strcat(b,"\rEND\r@OK\rB=3\rEND\r"); mc_desc("%s",b);
	start(0); NT_(); int e=sys_run(b,0);
	int e2=sys_run("R=TABSTEP:S=ICONPMAX:T=ICONPAGE:U=ICONPUSE:L=LEN(MEM$)\r",0); if (e2) mc_fail("the system variables cannot be read: %s",errname(e2));
	fixp r=sys_num("R"), s=sys_num("S"), t=sys_num("T"), u=sys_num("U"), l=sys_num("L");
	if (r&4095||r<FIXP_1||r>INT_TO_FP(16)) mc_fail("leaves TABSTEP=%g",r/4096.0);
	if (s&4095||s<0) mc_fail("leaves ICONPMAX=%g",s/4096.0);
	if (t&4095||t<0) mc_fail("leaves ICONPAGE=%g",t/4096.0);
	if (u!=0&&u!=FIXP_1) mc_fail("leaves ICONPUSE=%g",u/4096.0);
	if (l<0||l>INT_TO_FP(256)) mc_fail("leaves %g characters in MEM$",l/4096.0);
	e2=sys_run("CLS:?1,2:R$=MEM$\r",0); if (e2) mc_fail("afterwards PRINT gives %s",errname(e2));
	mc_validated(5); mc_state(mc_mix(mc_mix(mc_mix(r,s),mc_mix(t,u)),mc_mix(l,e))); probe(b);
}

// ---- the direct mode: sequences of typed lines through the real main loop
enum { UNK=-999999 };
static struct { int a; int prog; /* 0 none 1 PRGX 2 PRGY 9 unknown */ bool full, dim; } M;
enum { ANY=-1, ANYERR=-2 };
typedef struct { const char* ev; } L;
static const char* const lines[]={
 "A=5\r","A=A+1\r","?A\r","A=1/0\r","GOSUB @X\r","RETURN\r","NEXT\r","FOR I=1 TO 3:A=A+1\r","A$=\"X\"*300\r","WAIT 999\r\2\2\1",
 "RUN\r","LOAD\"PRG:PRGX\"\r","NEW\r","CLEAR\r","EXEC\"PRGY\"\r","A=1\1","\r",")(\r","INPUT A\r7\r","STOP\r","ACLS\r","CODE$=\"A=9:\"*20\r","DIM Z[9]\r","EXEC\"PRGV\"\r","EXEC\"PRGS\"\r","EXEC\"PRGZ\"\r","\1","INPUT A\r7\1",
 "GOTO @X:A=6\r","LINPUT CODE$\rA=4\r","ON 1 GOSUB @X,@Y\r","IF 1 THEN A=3:B=C[11]\r","VSYNC 99\r\2\1","END:A=2\r",
 "A=1:'345678901234567890123456789\r","A=1:'345678901234567890123456789012345678901234567890\r","A=A+1:A=A+1:A=A+1:A=A+1:A=A+1:A=A+1:A=A+1\r",
};
enum { NL=sizeof lines/sizeof *lines };
static int step_(int l){ // model: expected error of the line
	int a=M.a; if (M.full&&l!=13) { M.a=UNK; M.prog=9; if (l==12) M.prog=9; return ANY; }
	switch (l){
	case 0: M.a=5; return 0; case 1: if (a!=UNK) M.a=a+1; return 0; case 2: return 0; case 3: return ERR_DIVIDE_BY_ZERO; case 4: return ERR_LABEL_NOT_FOUND; case 5: return ERR_RETURN_WITHOUT_GOSUB; case 6: return ERR_NEXT_WITHOUT_FOR;
	case 7: if (a!=UNK) M.a=a+1; return 0; case 8: return ANYERR; case 9: return ERR_BREAK;
	case 10: if (M.prog==9) { M.a=UNK; M.full=true; return ANY; } if (M.prog==1) M.a=77; if (M.prog==2){ M.a=78; return ERR_DIVIDE_BY_ZERO; } return 0;
	case 11: M.prog=1; return 0; case 12: M.prog=0; return 0; case 13: M.a=0; M.dim=false; M.full=false; return ANY;
	case 14: M.prog=2; M.a=78; return ERR_DIVIDE_BY_ZERO; case 15: case 26: return ERR_BREAK; case 16: return 0; case 17: return ANYERR; case 18: M.a=7; return 0; case 19: return ANY; case 20: return 0;
	case 21: return ANY; case 22: if (M.dim) return ERR_DUPLICATE_DIM; M.dim=true; return 0; case 23: case 24: M.a=UNK; M.full=true; M.prog=9; M.dim=false; return ANYERR; case 25: return ANY; case 27: return ERR_BREAK;
	case 28: return ERR_LABEL_NOT_FOUND; case 29: return 0; case 30: return ERR_LABEL_NOT_FOUND; case 31: M.a=3; return ANYERR; case 32: return ERR_BREAK; case 33: return 0; case 34: case 35: M.a=1; return 0; case 36: M.a=UNK; return ANY; }
	return ANY;
}
static bool edload; static int seq[8], nseq, li, ci; static int expect, autol; static int busy; static char hist[600];
static void fin(void){ P->exec.error=ERR_SHUTDOWN; }
static const char* msgtext(void){ static char b[100]; int y=P->console.y-2; const char* r=y>=0?sys_row(y):""; snprintf(b,sizeof b,"%s",r); return b; }
static void check_prev(void){
	const char* t=msgtext();
	if (expect>=0){ const char* m=errname(expect); int k=strlen(m); char lastrow[40]; int o=k>0?(k-1)/CONSOLE_WIDTH*CONSOLE_WIDTH:0; snprintf(lastrow,sizeof lastrow,"%s",m+o); int q=strlen(lastrow); while (q&&lastrow[q-1]==' ') lastrow[--q]=0; if (strncmp(t,lastrow,q)) mc_fail("%s: reports \"%s\", expected \"%s\"",hist,t,m); }
	if (expect==ANYERR){ if (!strcmp(t,errname(0))) mc_fail("%s: reports \"%s\", expected an error",hist,t); }
	if (M.a!=UNK&&!M.full){ int a=sys_num("A"); if (a!=INT_TO_FP(M.a)) mc_fail("%s: A is %d, expected %d",hist,a/4096,M.a); mc_validated(1); }
	mc_state(mc_mix(mc_mix(M.a,M.prog),M.full*2+M.dim));
}
static void feed(void){
	inc_time(&P->time);
	if (P->exec.error==ERR_SHUTDOWN) return;
	if (li<nseq){
		const char* ev=lines[seq[li]];
		if (ci==0){ check_prev(); char* h=hist+strlen(hist); for (const char* c=ev;*c&&h<hist+500;++c) if (*c>=32) *h++=*c; else if (*c=='\r') h+=sprintf(h,"<ret>"); else if (*c==1) h+=sprintf(h,"<break>"); *h=0; strcat(hist," "); expect=step_(seq[li]); }
		int c=(u8)ev[ci++];
		if (c==1) P->exec.error=ERR_BREAK; else if (c==2) {} else set_inkey(&P->input,c=='\r'?'\r':to_wide(c));
		if (!ev[ci]) { ++li; ci=0; }
		return;
	}
	// end: clear, then a probe line
	static const char pr[]="CLEAR\rCLEAR\rV=1+2*3:W$=\"K\"+STR$(V)\r";
	if (ci==0) check_prev();
	if (pr[ci]) { if (pr[ci]!=0) set_inkey(&P->input,pr[ci]=='\r'?'\r':to_wide(pr[ci])); ++ci; return; }
	if (sys_num("V")!=INT_TO_FP(7)||strcmp(sys_strz("W"),"K7")) mc_fail("%s: afterwards V=1+2*3:W$=\"K\"+STR$(V) gives V=%d W$=%s (\"%s\")",hist,(int)sys_num("V")/4096,sys_strz("W"),msgtext());
	fin();
}
static void prgfile(const char* n, const char* t){ static u8 p[24+4000]; memset(p,0,24); memcpy(p,"PETC0300RPRG",12); int l=strlen(t); p[20]=l; p[21]=l>>8; memcpy(p+24,t,l); char f[60]; sprintf(f,"programs/%s.PTC",n); w(f,p,24+l); }
static void boot_session(void){
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("programs",0700);
	int qq=chown(".",65534,65534); qq|=chown("programs",65534,65534); if (!qq&&getuid()==0){ qq=setgid(65534); qq=setuid(65534); }
	prgfile("PRGX","A=77\r"); prgfile("PRGY","A=78\rA=1/0\r");
	static char t[4000]; strcpy(t,"CLEAR\r"); for (int i=0;i<70;++i) sprintf(t+strlen(t),"V%d=%d\r",i,i); prgfile("PRGV",t);
	prgfile("PRGS","CLEAR\rDIM S$[60]\rFOR I=0 TO 59:S$[I]=STR$(I):NEXT\r");
	sys_boot(); P->console.test_mode=false; P->res.search_path="programs/"; sys_sleep_limit=2000; sys_on_sleep=feed; sys_snapshot();
}
static void session(void){
	struct launch_info info={P,NULL,NULL}; static char* const au[]={NULL,"PRGX","PRGZ","PRGY","PRGV","PRGS"}; info.prg_filename=au[autol];
	memset(&M,0,sizeof M); hist[0]=0; li=ci=0; expect=ANY; if (autol==1){ M.a=77; M.prog=1; expect=0; } if (autol==2) expect=ERR_FILE_LOAD_FAILED; if (autol==3){ M.a=78; M.prog=2; expect=ERR_DIVIDE_BY_ZERO; } if (autol>=4){ M.full=true; M.prog=9; M.a=UNK; expect=ANYERR; } if (!autol) expect=ANY; if (edload) M.prog=9;
	sprintf(hist,"%s: ",autol?au[autol]:"start"); for (int i=0;i<nseq;++i) { char b[80]; snprintf(b,sizeof b,"%s",lines[seq[i]]); for (char* c=b;*c;++c) if (*c=='\r') *c='~'; else if (*c==1) *c='#'; else if (*c==2) *c='_'; mc_desc("%s ",b); }
	sys_reset(); mc_nontrivial(mc_mix(autol,mc_hash(seq,sizeof(int)*nseq)));
	mc_trans(nseq); launch_system(&info); if (li<nseq) mc_fail("%s: the direct mode ends before the shutdown",hist);
}
// ---- the system starts with any file as the program of the editor, and only a whole file is loaded
static void b_editor(void){
	static int pid; static u8 fb[60+524288+16]; if (pid!=getpid()){ pid=getpid(); char d[40]; sprintf(d,"ed%d",pid); if (mkdir(d,0700)||chdir(d)||mkdir("programs",0700)) abort(); prgfile("PRGX","A=77\r"); }
	static const char* const tx[]={"A=9\r","A=1/0\rA=9\r","GOTO @L:A=9\r@L\r","X[5]=1:A=X[5]*9\r"}; static const u32 sz[]={0,1,4,524287,524288,524289,0x7fffffff,0x80000000,0xffffffff};
	int kind=mc_choose(7), l1=mc_choose(4), l2=mc_choose(4), t=kind?mc_choose(4):0, n=strlen(tx[t]); u32 size=n; int total=60+n; bool whole=true; memset(fb,0,sizeof fb); memcpy(fb,"PX01",4); memcpy(fb+36,"PETC0300RPRG",12); memcpy(fb+60,tx[t],n);
	mc_desc("editor: kind %d text %d ",kind,t);
	if (kind==2){ total=mc_choose(61+n); whole=total==60+n; mc_desc("%d bytes ",total); } // cut off
	if (kind==3){ size=sz[mc_choose(9)]; if (size>(u32)n) whole=false; mc_desc("size %u ",size); } // another size than the text's
	if (kind==4){ fb[36+mc_choose(12)]^=mc_choose(2)?1:64; whole=memcmp(fb+45,"PRG",3)==0; }
	if (kind>=5){ int over=mc_choose(4)-2; size=524288+over; total=60+size; const char* ln=kind==5?"'......\r":"@A:A=9\r"; for (u32 i=n;i<size;++i) fb[60+i]=ln[(i-n)%strlen(ln)]; whole=size<=524288; if (!mc_thorough&&(l1|l2)>1) mc_skip(); mc_desc("%u bytes ",size); }
	fb[56]=size; fb[57]=size>>8; fb[58]=size>>16; fb[59]=size>>24; if (kind) w("programs/EDITOR.PTC",fb,total); else { unlink("programs/EDITOR.PTC"); whole=false; }
	static const int ls[]={10,0,11,1}; autol=0; nseq=2; seq[0]=ls[l1]; seq[1]=ls[l2]; edload=whole; session(); edload=false;
}
static void b_session(void){ autol=0; nseq=mc_thorough?4:3; for (int i=0;i<nseq;++i) seq[i]=mc_choose(NL); session(); }
static void b_autostart(void){ autol=mc_choose(6); nseq=mc_choose(mc_thorough?4:3); for (int i=0;i<nseq;++i) seq[i]=mc_choose(NL); session(); }
const mc_suite mc_suites[]={
	{"kinds",b_kinds,MC_QT,boot_},
	{"forms",b_forms,MC_QT,boot_},
	{"values",b_values,MC_QT,boot_},
	{"omitted",b_omit,MC_QT,boot_},
	{"sysvars",b_sysvar,MC_QT,boot_},{"assigned",b_assigned,MC_QT,boot_},{"uses",b_uses,MC_QT,boot_},
	{"session",b_session,MC_QT,boot_session},
	{"autostart",b_autostart,MC_QT,boot_session},{"editor",b_editor,MC_QT,boot_session},
};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

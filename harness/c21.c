// C21: any text compiles to a program or a clean error. Every text of the suites' spaces is
// compiled in every mode from an exactly sized buffer and run (cut off after a fixed number
// of jumps or waits); the modes must agree, an error must stop exactly at its line, and a
// probe program must afterwards compile and run correctly.
#include "bas.h"
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
const char* mc_rule = "all texts of up to the stated number of characters of one representative per character class; all single and double edits of a corpus of valid lines; all sequences of keywords, operators, values and separators up to the stated length; all line patterns with every repetition count around the limits; every capacity of the code, line and label buffers for a corpus of programs; all sequences of good and bad lines: compiled in every mode, run, followed by a probe program; non-trivial = a text of at least two characters, counted by text";
time_t __wrap_time(time_t* t){ if (t) *t=1000000; return 1000000; }
static int jumps, jump_limit=60;
#define J(n) extern void __real_##n(struct ptc*) __attribute__((weak)); void __wrap_##n(struct ptc* p){ if (++jumps>jump_limit){ if (!p->exec.error) p->exec.error=ERR_BREAK; return; } __real_##n(p); }
J(cmd_goto) J(cmd_gosub) J(cmd_on) J(cmd_next) J(cmd_return) J(cmd_if) J(cmd_run) J(cmd_exec)
static void slept(void){
	inc_time(&P->time); if (sys_sleeps==2) set_inkey(&P->input,'\r');
	if (sys_sleeps>=4 && !P->exec.error) P->exec.error=ERR_BREAK; }
static const char probe_src[]="W=0:Z=1+2*3:Y$=\"P\"+STR$(Z)\rFOR X=1 TO 3:W=W+X:NEXT\rIF W==6 THEN GOSUB @PQ ELSE W=0\rON 1 GOTO @PA,@PB\r@PA\rW=0\r@PB\rRESTORE @PD:READ U\r@PD\rDATA 42\rEND\r@PQ\rV=LEN(Y$):RETURN\r";
static int compile(const char* s, int n, int o){ // as the direct mode does
	static char* keep; free(keep); keep=malloc(n?n:1); memcpy(keep,s,n); static struct program prg; prg=(struct program){n,keep};
	P->exec.error=0; P->calls.stack_i=0; P->exec.error_info[0]=0; P->exec.error=tokenize_full(&prg,sys_bc(),P,o); return P->exec.error; }
static int go(void){ jumps=0; sys_sleeps=0; srand(1); mc_trans(1); run(*sys_bc(),P); return P->exec.error; }
static int cr(const char* s, int n, int o){ int e=compile(s,n,o); return e?e:go(); }
static void probe(const char* what){
	int e=cr("CLEAR\r",6,0); if (e) mc_fail("%s: afterwards CLEAR fails: %s",what,errname(e));
	P->console.test_mode=false; e=cr(probe_src,sizeof probe_src-1,0);
	if (e) mc_fail("%s: afterwards the probe program fails: %s",what,errname(e));
	if (sys_num("Z")!=INT_TO_FP(7)||sys_num("W")!=INT_TO_FP(6)||strcmp(sys_strz("Y"),"P7")||sys_num("V")!=INT_TO_FP(2)||sys_num("U")!=INT_TO_FP(42))
		mc_fail("%s: afterwards the probe program computes Z=%d W=%d Y$=%s V=%d U=%d",what,(int)sys_num("Z")/4096,(int)sys_num("W")/4096,sys_strz("Y"),(int)sys_num("V")/4096,(int)sys_num("U")/4096);
	if (P->stack.stack_i||P->calls.stack_i) mc_fail("%s: afterwards the stacks are not empty (%d,%d)",what,P->stack.stack_i,P->calls.stack_i);
	bool ok; int ref=sys_ref_strings(&ok), live=sys_live_strings(); if (!ok||ref!=live) mc_fail("%s leaks a string: %d in use, %d held by variables",what,live,ref);
	mc_validated(1);
}
static uint64_t canon(void){ // variables without those that were never set
	uint64_t h=0; for (unsigned i=0;i<P->vars.vars_max;++i){ struct named_var* v=&P->vars.vars[i]; if (v->type==VAR_EMPTY) continue;
		uint64_t e=mc_mix(mc_hash(v->name,strnlen(v->name,16)),v->type); u8 b[600];
		if (v->type==VAR_NUMBER){ if (!v->value.number) continue; e=mc_mix(e,(u32)v->value.number); }
		else if (v->type==VAR_STRING){ int l=v->value.ptr?sys_strv(v->value.ptr,b):0; if (l<=0) continue; e=mc_mix(e,mc_hash(b,l)); }
		else { if (!v->value.ptr) continue; u32 d1=arr_size(v->value.ptr,0), d2=arr_size(v->value.ptr,1), n=d1*(d2==ARR_DIM2_UNUSED?1:d2); e=mc_mix(mc_mix(e,d1),d2); union value* a=arr_data(v->value.ptr);
			for (u32 j=0;j<n;++j) if (v->type&VAR_NUMBER) e=mc_mix(e,(u32)a[j].number); else { int l=a[j].ptr?sys_strv(a[j].ptr,b):0; e=mc_mix(e,l>0?mc_hash(b,l):0); } }
		h+=e; }
	return h; }
typedef struct { int e; uint64_t v, c; char r0[40], r1[40]; } obs;
static obs look(int e){ obs o={e,canon(),sys_hash_console(),"",""}; strncpy(o.r0,sys_row(0),33); strncpy(o.r1,sys_row(1),33); return o; }
static const char* quoted(const char* s, int n){ static char b[900]; int j=0; for (int i=0;i<n&&j<880;++i){ u8 c=s[i]; if (c=='\r') b[j++]='|'; else if (c>=32&&c<127) b[j++]=c; else j+=sprintf(b+j,"\\x%02x",c); } b[j]=0; return b; }
static bool fresh; // some suites need the large blocks restored
static void same(const obs* a, const obs* b, const char* how){
	if (a->e!=b->e) mc_fail("%s: error %s, otherwise %s",how,errname(b->e),errname(a->e));
	if (a->c!=b->c) mc_fail("%s: the screen differs: \"%s\" / \"%s\", otherwise \"%s\" / \"%s\"",how,b->r0,b->r1,a->r0,a->r1);
	if (a->v!=b->v) mc_fail("%s: the variables differ",how);
	mc_validated(1);
}
static bool freevar(const char* t, int n){ for (int i=0;i+7<=n;++i) if (!strncasecmp(t+i,"FREEVAR",7)) return true; return false; }
static bool atlabel(const char* t, int n){ int i=0; while (i<n&&t[i]==' ') ++i; return i<n&&(t[i]=='@'||(n-i>=5&&!strncasecmp(t+i,"LABEL",5))); }
enum { CLOSED=1 /* also without the last line end */, NOCMP=2 /* modes may differ */, CUT=4 };
// one line of text between two PRINTs, in every mode
static int judge(const char* t, int n, int fl){
	static char p[300000]; int l=0; mc_desc("%s",quoted(t,n)); (void)fresh;
	l+=sprintf(p,"PRINT 1;\r"); memcpy(p+l,t,n); l+=n; l+=sprintf(p+l,"\rPRINT 2\r");
	sys_reset(); int ce=compile(p,l,0); if (ce) mc_fail("compiling without STRICT returns %s",errname(ce));
	obs o=look(go()); char w[64]; 
	if (strncmp(o.r0,"1",1)&&o.e&&strlen(o.r0)&&0) mc_fail("?");
	probe("as written");
	sys_reset(); int se=compile(p,l,TOKOPT_STRICT_ERROR); 
	if (se){
		if (o.e!=se) mc_fail("the line fails to compile (%s) but running the program gives %s",errname(se),errname(o.e));
		if (strcmp(o.r0,"1")) mc_fail("a line that fails to compile runs: \"%s\"",o.r0);
		obs x; sys_reset(); x=look(cr("PRINT 1;\r",9,0)); x.e=se; same(&x,&o,"the line that fails to compile");
		sys_reset(); se=compile(p,l,TOKOPT_STRICT_ERROR); char inf[40]; memcpy(inf,P->exec.error_info,32); inf[32]=0; int k=n>31?31:n;
		if (memcmp(inf,t,k)||inf[k]) mc_fail("the error %s is reported for \"%s\"",errname(se),quoted(inf,strlen(inf)));
		mc_validated(1);
	} else { obs s=look(go()); same(&o,&s,"compiled with STRICT"); }
	probe("compiled with STRICT");
	static const int md[]={TOKOPT_VARIABLE_IDS,TOKOPT_NO_LABELS,TOKOPT_VARIABLE_IDS|TOKOPT_NO_LABELS|TOKOPT_STRICT_ERROR};
	for (int i=0;i<3;++i){ sys_reset(); int e=compile(p,l,md[i]); sprintf(w,"compiled with options %d",md[i]);
		if (e&&!(md[i]&TOKOPT_STRICT_ERROR)) mc_fail("%s: compiling returns %s",w,errname(e));
		if (e){ if (!se&&!((md[i]&TOKOPT_NO_LABELS)&&atlabel(t,n))) mc_fail("%s: fails to compile (%s)",w,errname(e)); probe(w); continue; }
		obs x=look(go()); if (!(fl&NOCMP)&&!freevar(t,n)&&!((md[i]&TOKOPT_NO_LABELS)&&atlabel(t,n))) same(&o,&x,w); probe(w); }
	if (fl&CLOSED){ sys_reset(); obs a=look(cr(p,l-8,0)); sys_reset(); obs b=look(cr(p,l-9,0)); same(&a,&b,"without the last line end"); probe("no line end"); 
		sys_reset(); b=look(cr(t,n,0)); probe("alone"); }
	mc_state(mc_hash(t,n)); mc_outcome(mc_mix(mc_mix(o.v,o.c),o.e)); if (n>1) mc_nontrivial(mc_hash(t,n));
	return o.e;
}
static void boot_(void){
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort();
	if (mkdir("programs",0700)) {} int qq=chown(".",65534,65534); qq|=chown("programs",65534,65534); if (!qq&&getuid()==0){ qq=setgid(65534); qq=setuid(65534); }
	if (!sys_cfg.prg) sys_cfg.prg=4096; sys_cfg.arr=2048; sys_boot(); P->console.test_mode=false; P->res.search_path="programs/"; sys_on_sleep=slept; sys_sleep_limit=400;
	memcpy(P->exec.prg.data,"PRINT 9\r",8); P->exec.prg.size=8;
	sys_run("MEMSAFE=1\r",0);
	sys_snapshot();
}
// ---- every text of a few characters
static const char al[]="AL$019.\"&HB@()[]+-=<!?:',; %";
static void s_chars(void){ char t[8]; int n=mc_choose(mc_thorough?5:4); for (int i=0;i<n;++i) t[i]=al[mc_choose(sizeof al-1)]; judge(t,n,CLOSED); }
// ---- every character value in every place of these lines
static const char* const corpus[]={"A=1.5+B*(2-C)","A$=\"x\"+MID$(B$,1,2)","DIM A[3],B$(2,2):A[1]=2","IF A==1 THEN B=2 ELSE C=&HFF","FOR I=1 TO 3 STEP 2:NEXT I","@LBL:GOTO \"@LBL\"","ON A GOTO @X,@Y","?A;B,\"c\" D$;","READ A,B$:DATA 1,\"q\",z","GOSUB @S:END","REM text","'rem:?","SORT 0,2,A,B","MEM$=\"q\":TABSTEP=3","A=-!B AND NOT C","LOCATE 1,2:PRINT PI();\"a","A=&B101:B=.5:C=5.","SWAP A,B:CLEAR","INPUT \"n\";A,B$","LINPUT A$","A(1)=A(A(0))","SPREAD(0),X,Y","BGREAD (0,1,2),A,B,C","GOTO @L+A$","VISIBLE 1,,1,,1,1"};
enum { NCORP=sizeof corpus/sizeof *corpus };
static void s_char1(void){
	int c=mc_range(NCORP); const char* s=corpus[c]; int n=strlen(s), pos=mc_range(n+1), how=mc_choose(2), ch=mc_range(256); if (ch=='\r') mc_skip(); if (how&&pos==n) mc_skip();
	char t[100]; int l=0; for (int i=0;i<n+1;++i){ if (i==pos) t[l++]=ch; if (i<n&&!(how&&i==pos)) t[l++]=s[i]; } judge(t,l,CLOSED); }
static void s_edit2(void){ // two edits: insert, replace, delete, swap with the next
	int c=mc_range(NCORP), k=mc_thorough?2:2; char t[100]; strcpy(t,corpus[c]); int n=strlen(t), last=0;
	for (int e=0;e<k;++e){ int kind=mc_choose(4), room=n-last+(kind==0); if (e&&!mc_thorough&&room>3) room=3; int pos=last+mc_range(room); last=pos; 
		if (kind==0){ char ch=mc_thorough?al[mc_choose(sizeof al-1)]:"A1\"@(,-$"[mc_choose(8)]; memmove(t+pos+1,t+pos,n-pos+1); t[pos]=ch; ++n; }
		else if (kind==1){ char ch=mc_thorough?al[mc_choose(sizeof al-1)]:"A1\"@(,-$"[mc_choose(8)]; t[pos]=ch; }
		else if (kind==2){ memmove(t+pos,t+pos+1,n-pos); --n; }
		else { if (pos+1>=n) mc_skip(); char x=t[pos]; t[pos]=t[pos+1]; t[pos+1]=x; }
		if (last>=n) { if (e+1<k) mc_skip(); } }
	judge(t,n,0); }
// ---- every sequence of tokens
static const char* const voc[]={
 "A","B$","1","\"S\"","@L","(",")","[","]",",",";",":","=","+","-","*","/","%","==","!=","<","<=",">",">=","!","NOT","AND","OR","XOR","&HF","0.5","C(1)","PI()","'",
 "PRINT","?","LOCATE","COLOR","DIM","FOR","TO","STEP","NEXT","IF","THEN","ELSE","GOTO","GOSUB","ON","RETURN","END","STOP","DATA","READ","RESTORE","REM","LABEL","CLEAR","INPUT","LINPUT","SWAP","SORT","RSORT","NEW","RUN",
 "ABS","MID$","TABSTEP","MEM$","TRUE","CSRX","INKEY$",
 /* the rest only in pairs */
 "CLS","VISIBLE","ACLS","VSYNC","WAIT","APPEND","BEEP","BGCLIP","BGCLR","BGCOPY","BGFILL","BGMCLEAR","BGMPLAY","BGMPRG","BGMSET","BGMSETD","BGMSETV","BGMSTOP","BGMVOL","BGOFS","BGPAGE","BGPUT","BGREAD","BREPEAT","CHRINIT","CHRREAD","CHRSET","COLINIT","COLREAD","COLSET","CONT","DELETE","DTREAD","EXEC","FILES","GBOX","GCIRCLE","GCLS","GCOLOR","GCOPY","GDRAWMD","GFILL","GLINE","GPAGE","GPAINT","GPSET","GPRIO","GPUTCHR","ICONCLR","ICONSET","KEY","LIST","LOAD","PNLSTR","PNLTYPE","REBOOT","RECVFILE","RENAME","SAVE","SENDFILE","SPANGLE","SPANIM","SPCHR","SPCLR","SPCOL","SPCOLVEC","SPHOME","SPOFS","SPPAGE","SPREAD","SPSCALE","SPSET","SPSETV","TMREAD","TALK","TALKSTOP","POKE","POKEH","POKEB","MEMCOPY","MEMFILL","ENDIF",
 "ASC","ATAN","BGCHK","BGMCHK","BGMGETV","BTRIG","BUTTON","CHKCHR","CHR$","COS","DEG","EXP","FLOOR","GSPOIT","HEX$","ICONCHK","INSTR","LEFT$","LEN","LOG","PI","POW","RAD","RIGHT$","RND","SGN","SIN","SPCHK","SPGETV","SPHIT","SPHITRC","SPHITSP","SQR","STR$","SUBST$","TAN","VAL","TALKCHK","PEEK","PEEKH","PEEKB","ADDR","PTR$",
 "FALSE","CANCEL","VERSION","TIME$","DATE$","MAINCNTL","MAINCNTH","FREEVAR","FREEMEM","PRGNAME$","PACKAGE$","RESULT","TCHST","TCHX","TCHY","TCHTIME","CSRY","SPHITNO","SPHITX","SPHITY","SPHITT","KEYBOARD","FUNCNO","ICONPUSE","ICONPAGE","ICONPMAX","ERL","ERR","MEMSAFE" };
enum { NV=sizeof voc/sizeof *voc, NSYN=72, NTINY=34 };
static bool raw; // raw memory and the like
static int tjudge(const int* k, int n){
	char t[200]=""; for (int i=0;i<n;++i){ if (i) strcat(t," "); strcat(t,voc[k[i]]); }
	return judge(t,strlen(t),0); }
static void s_tok2(void){ int k[2]={mc_range(NV),mc_range(NV)}; tjudge(k,2); }
static void s_tok3(void){ int k[3]; for (int i=0;i<3;++i) k[i]=mc_range(mc_thorough?NSYN:44); tjudge(k,3); }
static void s_tok3k(void){ int k[3]={mc_range(NV),mc_range(11),mc_range(NV)}; tjudge(k,3); }
static void s_tok4(void){ static const int v[]={0,1,2,3,4,5,6,9,10,11,12,14,25,31,34,38,39,40,42,43,44,45,46,48,52,53,61,65,66,67,68}; int k[4]; for (int i=0;i<4;++i) k[i]=v[mc_choose(31)]; tjudge(k,4); }
static void s_tok5(void){ static const int v[]={0,1,2,5,6,9,12,14,31,34,66,11}; int k[5]; int n=5; for (int i=0;i<n;++i) k[i]=v[mc_choose(12)]; tjudge(k,n); }
// ---- patterns repeated up to and past every limit
typedef struct { const char *pre, *unit, *mid, *unit2, *post; int kind; } pat;
enum { TOK, CH };
static const pat pats[]={
 {"A=1","+1","","","",TOK},{"A=","(","1",")","",TOK},{"A=","-","1","","",TOK},{"A=","!","1","","",TOK},{"",":","A=7","","",TOK},{"","B=B+1:","A=B","","",TOK},{"A=","ABS(","-5",")","",TOK},{"A=B","[B","[0]","]","",TOK},{"B$=\"x\"","+\"x\"","","",":A=LEN(B$)",TOK},
 {"A=3:READ C",",C","","",":'",TOK},{"?","1;","","","",TOK},{"?","1,","","","",TOK},{"?","1 ","","","",TOK},{"?",";","","","",TOK},{"?",",","","","",TOK},{"","IF 1 THEN ","A=5","","",TOK},{"IF 0 THEN A=5 "," ELSE A=6","","","",TOK},{"","FOR I=1 TO 1:","A=A+1",":NEXT","",TOK},{"ON 0 GOTO @A",",@A","","",":A=5",TOK},{"A=ATAN(1",",1","","",")",TOK},{"B$=MID$(\"abc\"",",1","","",")",TOK},{"VISIBLE 1",",1","","","",TOK},
 {"","ICONPMAX=1:","A=ICONPMAX","","",TOK},{"","MEM$=\"\":","A=5","","",TOK},{"DIM B[1]",",B[1]","","","",TOK},{"A=1",",1","","","",TOK},{"A=1"," AND 1","","","",TOK},{"A=1","==1","","","",TOK},{"A","=1","","","",TOK},{"C(1",",1","","",")=5",TOK},{"SORT 0,1,C",",C","","","",TOK},{"","@L:","A=1","","",TOK},{"GOTO @L","+@L","","","",TOK},{"","DATA ","","","",TOK},{"","REM ","","","",TOK},{"","CLEAR:","A=1","","",TOK},{"","PI(",")",")","",TOK},{"","]","","","",TOK},{"A=1","-1","","","",TOK},{"A=NOT 1"," AND NOT 1","","","",TOK},{"A=0","*2","","","",TOK},{"INPUT A",",A","","","",TOK},{"LINPUT \"a\"",";A$","","","",TOK},{"KEY 1","+1","","","",TOK},{"A=LEN(","\"a\"+","\"b\"","",")",TOK},{"","?:","","","",TOK},{"A=","1 ","","","",TOK},{"DATA ","1,","1","","",TOK},{"IF 1"," THEN","","",":A=5",TOK},{"FOR I=1 TO 1"," STEP 1","","",":NEXT",TOK},{"NEXT ","I ","","","",TOK},
 {"","A","","","=5:B=1",CH},{"A=2:","Ab","","","$=\"q\"",CH},{"@","A","","",":B=1",CH},{"GOTO @","A","","","",CH},{"A$=\"","x","","","\"",CH},{"A$=\"","x","","","",CH},{"'","x","","","",CH},{"REM ","x","","","",CH},{"A=","1","","","",CH},{"A=","0","1","","",CH},{"A=0.","0","1","","",CH},{"A=","9","","","",CH},{"A=&H","0","F","","",CH},{"A=&H","F","","","",CH},{"A=&B","0","1","","",CH},{"A=&B","1","","","",CH},{"A=1",".","","","",CH},{"DATA ","x","","","",CH},{"DATA \"","x","","","\"",CH},{"DATA x",",","","","",CH},{"","$","","","=1",CH},{"A$","$","","","=\"\"",CH},{"@L","$","","","",CH},{"LABEL ","A","","","",CH},{""," ","A=3","","",CH},{"A=3"," ","","","",CH},{"","_","","","=2:A=1",CH},{"?\"","x","","","\";",CH},{"LOAD \"","A","","","\"",CH},{"EXEC \"","A","","","\"",CH} };
enum { NP=sizeof pats/sizeof *pats };
static void s_repeat(void){
	int i=mc_range(NP); const pat* q=&pats[i]; int n; static char t[200000]; int l=0;
	if (q->kind==TOK) n=mc_range(mc_thorough?420:130); else { static const int far_[]={511,512,513,767,1000,1023,1024,4095,4096,10000,32767,32768,65535,65536}; n=mc_range(300+(mc_thorough?14:8)); if (n>=300) n=far_[n-300]; }
	l+=sprintf(t+l,"%s",q->pre); for (int j=0;j<n;++j) l+=sprintf(t+l,"%s",q->unit); l+=sprintf(t+l,"%s",q->mid); for (int j=0;j<n;++j) l+=sprintf(t+l,"%s",q->unit2); l+=sprintf(t+l,"%s",q->post);
	mc_desc("pattern %s{%s}%s{%s}%s x %d: ",q->pre,q->unit,q->mid,q->unit2,q->post,n); if (l>3000) mc_no_case_timer(20); jump_limit=1000;
	judge(t,l,CLOSED);
	// what was accepted must be what was written
	sys_reset(); int e=cr(t,l,0); fixp a=sys_num("A"), want; 
	if (q->kind!=TOK||e) return;
	switch (i){ case 0: want=INT_TO_FP(n+1); break; case 1: want=FIXP_1; break; case 2: want=n&1?-FIXP_1:FIXP_1; break; case 3: want=n&1?0:FIXP_1; break; case 4: want=INT_TO_FP(7); break; case 5: want=INT_TO_FP(n); break; case 6: want=INT_TO_FP(n?5:-5); break;
		case 7: want=0; break; case 8: want=INT_TO_FP(n+1); break; case 15: want=INT_TO_FP(5); break; case 17: want=n?FIXP_1:FIXP_1; break; case 18: want=INT_TO_FP(5); break; case 38: want=INT_TO_FP(1-n); break; case 44: want=INT_TO_FP(n+1); break; default: return; }
	if (a!=want) mc_fail("accepted, but A is %d/4096, expected %d/4096",(int)a,(int)want); mc_validated(1);
}
// ---- programs made of good and bad lines: everything before the first bad line happens, nothing after
static const char* const lines[]={"PRINT \"a\";","PRINT \"b\";","A=A+1","@A","@B:PRINT \"l\";","","'x","DATA 1,2","DIM Q[2]", /* good: 9 */
 "A=","A=(1","PRINT \"n\";:A=\"x\"","&H","#","A=1)","@","@A:@","@ABCDEFGHIJKLMNOPQRSTUVW:PRINT \"n\";","LOCATE 1","?MID$(1)","ABCDEFGHIJKLMNOPQ=1","A=600000","FOO BAR","\x80=1","LABEL" };
enum { NL=sizeof lines/sizeof *lines, NG=9 };
static void s_lines(void){
	int n=mc_thorough?4:3, k[4]; char t[400]="", out[20]="", bad[60]=""; int l=0, be=0; fixp a=0; bool na=false, nb=false; 
	for (int i=0;i<n;++i) k[i]=mc_range(NL);
	for (int i=0;i<n;++i){ l+=sprintf(t+l,"%s\r",lines[k[i]]); 
		bool dup=(k[i]==3&&na)||(k[i]==4&&nb); if (k[i]==3||k[i]==16) na=true; if (k[i]==4) nb=true;
		if (dup) mc_skip(); // a second label of the same name
		if (!be){ if (k[i]>=NG){ be=1; strcpy(bad,lines[k[i]]); } else if (k[i]==0||k[i]==1) strcat(out,k[i]?"b":"a"); else if (k[i]==4) strcat(out,"l"); else if (k[i]==2) a+=FIXP_1; else if (k[i]==8) for (int j=0;j<i;++j) if (k[j]==8&&!be) { be=2; } } }
	if (k[0]==16&&0) mc_skip();
	mc_desc("%s",quoted(t,l)); static const int md[]={0,2,1,3}; int first=0;
	for (int m=0;m<4;++m){ sys_reset(); int ce=compile(t,l,md[m]); if (ce) mc_fail("options %d: compiling returns %s",md[m],errname(ce)); int e=go();
		if (!be!=!e) mc_fail("options %d: runs with %s",md[m],errname(e)); if (m&&e!=first) mc_fail("options %d: error %s, otherwise %s",md[m],errname(e),errname(first)); first=e;
		if (strcmp(sys_row(0),out)) mc_fail("options %d: prints \"%s\", expected \"%s\"",md[m],sys_row(0),out);
		if (sys_num("A")!=a) mc_fail("options %d: A is %d/4096",md[m],(int)sys_num("A")); mc_validated(3); probe("lines"); }
	sys_reset(); int se=compile(t,l,4); bool anybad=false; const char* fb=NULL; for (int i=0;i<n&&!anybad;++i) if (k[i]>=NG){ anybad=true; fb=lines[k[i]]; }
	if (anybad!=(se!=0)) mc_fail("STRICT returns %s",errname(se));
	if (anybad){ char inf[40]; memcpy(inf,P->exec.error_info,32); inf[32]=0; int z=strlen(fb)>31?31:strlen(fb); if (memcmp(inf,fb,z)||inf[z]) mc_fail("STRICT reports \"%s\", expected \"%s\"",quoted(inf,strlen(inf)),fb); if (be==1&&se!=first) mc_fail("STRICT reports %s, running %s",errname(se),errname(first)); }
	probe("STRICT"); mc_state(mc_hash(t,l)); mc_nontrivial(mc_hash(t,l)); mc_outcome(first);
}
// ---- every capacity of the compiled program
static const char* const progs[]={"","A=1\r","A=1.5:B=100\rPRINT A;B\r","A$=\"hello\"\rB$=A$+\"w\"\rPRINT B$\r","@A\r@B\r@C\r@D\r@E\rPRINT 1\r","DATA 1,2,\"three\"\rREAD A,B,C$\rPRINT A;C$\r","FOR I=1 TO 3\rA=A+I\rNEXT\rPRINT A\r","IF A==0 THEN B=2 ELSE B=3\rPRINT B\r","LONGNAME=5:LONGNAM2$=\"z\"\rPRINT LONGNAME\r","DIM A[3]:A[2]=6\rPRINT A[2]\r","MEM$=\"a\":TABSTEP=2:PRINT MEM$\r","GOSUB @S\rPRINT A\rEND\r@S:A=6:RETURN\r","A=\rPRINT 1\r","#\r#\r#\r#\r","PRINT 1\r\r\r\r\rPRINT 2\r","'only\rREM x\r","?1;2,3;:?A$,\"x\"\r","@LONGLABELNAME16:GOTO @LONGLABELNAME1X\r","A=&HFF:B=&B11:C=-1:D=!0\rPRINT A;B;C;D\r","DIM B(2):B(0)=3:B(1)=1\rSORT 0,2,B\rPRINT B(0)\r","PRINT\"\":PRINT\"","A=.5+.5:?.5,.5"};
enum { NPR=sizeof progs/sizeof *progs };
static void s_caps(void){
	int q=mc_range(NPR), md=(int[]){0,2,1,4}[mc_choose(4)]; const char* t=progs[q]; int n=strlen(t); static const int lb[]={0,1,2,4,8}; int what=mc_choose(3);
	int bc=what==0?1+mc_range(2*n+16):2*n+16, ln=what==1?mc_range(8):64, la=what==2?lb[mc_choose(5)]:16; mc_desc("%s options %d: %d bytes of code, %d lines, %d labels",quoted(t,n),md,bc,ln,la);
	sys_reset(); char* k0=malloc(n?n:1); memcpy(k0,t,n); struct program pg={n,k0};
	struct bytecode b0=init_bytecode_size(2*n+16,64,16); P->exec.error=tokenize_full(&pg,&b0,P,md); bool cf=P->exec.error!=0; if (!cf){ jumps=0; run(b0,P); } obs o0=look(P->exec.error); int need=b0.size;
	sys_reset(); struct bytecode b=init_bytecode_size(bc,ln,la); P->calls.stack_i=0; P->exec.error=tokenize_full(&pg,&b,P,md); int ce=P->exec.error; if ((int)b.size>bc) mc_fail("%d bytes of code",(int)b.size);
	if (ce){ if (ce!=ERR_OUT_OF_MEMORY&&!(md&4)) mc_fail("compiling returns %s",errname(ce)); if (what==1&&!cf) mc_fail("compiling returns %s",errname(ce)); if (what==0&&bc>=need+8&&!(md&2)&&!cf) mc_fail("refused although %d bytes suffice",need); }
	else { jumps=0; run(b,P); obs o=look(P->exec.error); if (cf) mc_fail("compiles"); if (what==2&&o.e!=o0.e){ if (o.e!=ERR_LABEL_ADD_FAILURE&&o.e!=ERR_LABEL_NOT_FOUND) mc_fail("%s, with more space %s",errname(o.e),errname(o0.e)); } else if (what==0&&o.e==ERR_OUT_OF_MEMORY&&o0.e!=o.e){ if (strncmp(o.r0,o0.r0,strlen(o.r0))) mc_fail("prints \"%s\", with more space \"%s\"",o.r0,o0.r0); if (bc>=need+8&&!(md&2)) mc_fail("refused although %d bytes suffice",need); } else same(&o0,&o,"in the smaller space"); }
	probe("capacity"); free(k0); mc_state(mc_mix(mc_mix(q*8+md,bc),ln*100+la)); mc_nontrivial(mc_mix(mc_mix(q*8+md,bc),ln*100+la)); mc_outcome(ce);
}
// ---- the space calculated for a text (as for the editor's program) suffices for its labels and lines
static void s_minimal(void){
	static const char* const ln[]={"@%c"," @%c","   @%c","@%c:PRINT 1;","  @%c:PRINT 2;","PRINT 3;","","PRINT \"@%c\";","'@%c"," PRINT 4;","@%c@","A=1:@%c","@LONGNAMEOFLABEL%c"};
	int n=1+mc_choose(mc_thorough?5:4), ix[5], end=mc_choose(2), md=mc_choose(3), go_=mc_choose(3); if (n>3&&!mc_thorough&&go_) mc_skip(); char t[400]; int l=0; const int nk=n>3?7:13;
	l=sprintf(t,go_==0?"":go_==1?"GOTO @A\r":"PRINT 0;:GOSUB @B\r");
	for (int i=0;i<n;++i){ ix[i]=mc_choose(nk); l+=sprintf(t+l,ln[ix[i]],'A'+i); t[l++]='\r'; } if (end) --l; mc_desc("mode %d %s",md,quoted(t,l));
	sys_reset(); char* k0=malloc(l+1); memcpy(k0,t,l); struct program pg={l,k0}; int o_=(int[]){0,TOKOPT_VARIABLE_IDS,TOKOPT_STRICT_ERROR}[md];
	struct bytecode b0=init_bytecode_size(2*l+64,64,64); P->calls.stack_i=0; P->exec.error=tokenize_full(&pg,&b0,P,o_); if (!P->exec.error){ jumps=0; run(b0,P); } obs a=look(P->exec.error);
	struct bytecode_params pr=calc_min_bytecode(&pg); if (pr.labels&(pr.labels-1)) mc_fail("%d labels is no power of two",(int)pr.labels); if (pr.labels>64||pr.lines>64) mc_fail("%d labels and %d lines calculated",(int)pr.labels,(int)pr.lines);
	sys_reset(); struct bytecode b=init_bytecode_size(2*l+64,pr.lines,pr.labels); P->calls.stack_i=0; P->exec.error=tokenize_full(&pg,&b,P,o_); if (!P->exec.error){ jumps=0; run(b,P); } obs c=look(P->exec.error);
	same(&a,&c,"in the space calculated for it"); free(k0); free_bytecode(b0); free_bytecode(b); probe("minimal"); mc_validated(1); mc_state(mc_hash(t,l)); mc_nontrivial(mc_mix(mc_hash(t,l),md)); mc_outcome(a.e);
}
static void s_minlabels(void){
	int k=mc_range(mc_thorough?1100:300), to=mc_choose(3); if (!k) mc_skip(); static char t[40000]; int l=sprintf(t,"GOTO @L%d\r",to==0?0:to==1?k-1:k/2); for (int i=0;i<k;++i) l+=sprintf(t+l,"@L%d\rA=A+1\r",i); mc_desc("%d labels, %.20s",k,t); mc_no_case_timer(30);
	sys_reset(); struct program pg={l,t}; struct bytecode_params pr=calc_min_bytecode(&pg); if (pr.labels&(pr.labels-1)) mc_fail("%d labels is no power of two",(int)pr.labels); if ((int)pr.labels<k||(int)pr.lines<2*k+1) mc_fail("%d labels and %d lines calculated",(int)pr.labels,(int)pr.lines);
	struct bytecode b=init_bytecode_size(2*l,pr.lines,pr.labels); P->calls.stack_i=0; P->exec.error=tokenize_full(&pg,&b,P,0); if (!P->exec.error){ jumps=0; run(b,P); } if (P->exec.error) mc_fail("%s",errname(P->exec.error)); int w=to==0?k:to==1?1:k-k/2; if (sys_num("A")!=w<<12) mc_fail("A=%d, expected %d",sys_num("A")>>12,w);
	free_bytecode(b); mc_validated(1); mc_state(k*3+to); mc_nontrivial(k*3+to); mc_outcome(pr.labels);
}
// ---- labels of the program before are forgotten
extern u32 name_hash(const char*, const u32, const u32);
static int named(char* o, int len, int slot, int nth, int L, const char* pre){ // the nth name of the given length in a slot
	static const char ch[]="ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; int K=sizeof ch-1, v=len<4?len:4; long tot=1; for (int i=0;i<v;++i) tot*=K;
	if (pre){ strncpy(o,pre,len); o[len]=0; if ((int)strlen(o)==len&&name_hash(o,len,L)==(u32)slot) return 1; }
	for (long c=0;c<tot;++c){ long x=c; for (int i=0;i<len;++i) o[i]='Q'; for (int i=len-v;i<len;++i){ o[i]=ch[x%K]; x/=K; } o[len]=0; if (o[0]>='0'&&o[0]<='9') continue; if (name_hash(o,len,L)==(u32)slot&&!nth--) return 1; }
	return 0; }
static void s_relabel(void){
	static const int ls[]={1,2,14,15,16}; int L=mc_thorough?64:8, slot=mc_range(L), l1=ls[mc_choose(5)], l2=ls[mc_choose(5)], pre=mc_choose(2), qk=mc_choose(5), fillers=mc_choose(3); char n1[20], n2[20], q[24];
	if (!named(n1,l1,slot,0,L,NULL)||!named(n2,l2,slot,1,L,pre&&l2<l1?n1:NULL)) mc_skip();
	strcpy(q,qk==0||qk==3?n1:n2); if (qk>=2){ int z=strlen(q); if (qk==4&&z<16) strcat(q,"Z"); else if (z>1) q[z-1]=0; }
	char p1[300], p2[300]; int a=sprintf(p1,"@%s\r",n1); for (int i=0;i<fillers;++i){ char x[20]; if (named(x,3,(slot+i)%L,i,L,NULL)) a+=sprintf(p1+a,"@%s\r",x); } a+=sprintf(p1+a,"A=1\r");
	int b=sprintf(p2,"GOTO @%s\rB=1:END\r@%s\rB=2:END\r",q,n2); mc_desc("%s, then %s (%d label slots)",quoted(p1,a),quoted(p2,b),L);
	sys_reset(); struct bytecode bc=init_bytecode_size(4096,64,L); struct program g={a,p1}; P->calls.stack_i=0; P->exec.error=tokenize_full(&g,&bc,P,0); if (!P->exec.error){ jumps=0; run(bc,P); } if (P->exec.error) mc_fail("the first program fails: %s",errname(P->exec.error));
	static const int md[]={0,2,1}; for (int m=0;m<3;++m){ g=(struct program){b,p2}; P->exec.error=0; P->calls.stack_i=0; P->exec.error=tokenize_full(&g,&bc,P,md[m]); if (P->exec.error) mc_fail("the second program does not compile: %s",errname(P->exec.error)); jumps=0; run(bc,P);
		if (!strcmp(q,n2)){ if (P->exec.error||sys_num("B")!=INT_TO_FP(2)) mc_fail("GOTO does not reach its label: %s",errname(P->exec.error)); } else if (P->exec.error!=ERR_LABEL_NOT_FOUND) mc_fail("GOTO of a label that is not there: %s",errname(P->exec.error));
		sys_run("B=0\r",0); mc_validated(1); }
	probe("labels"); mc_state(mc_hash(p2,b)); mc_nontrivial(mc_mix(mc_hash(p1,a),mc_hash(p2,b))); mc_outcome(strcmp(q,n2)==0);
}

// ---- RUN and EXEC of a stored text behave like the text itself
static void s_stored(void){
	int c=mc_range(NL+NCORP+NPR), way=mc_choose(3), end=mc_choose(2); const char* s=c<NL?lines[c]:c<NL+NCORP?corpus[c-NL]:progs[c-NL-NCORP]; char t[500]; int n=sprintf(t,"PRINT 1;\r%s%s",s,end?"\r":""); mc_desc("%s %s",way==0?"RUN":way==1?"EXEC":"LOAD, RUN",quoted(t,n));
	sys_reset(); obs o=look(cr(t,n,0)); if (strstr(s,"CLEAR")&&0) mc_skip();
	sys_reset(); if (way==0){ memcpy(P->exec.prg.data,t,n); P->exec.prg.size=n; }
	else { u8 f[600]; memset(f,0,24); memcpy(f,"PETC0300RPRG",12); f[20]=n; f[21]=n>>8; memcpy(f+24,t,n); FILE* h=fopen("programs/T.PTC","wb"); fwrite(f,1,24+n,h); fclose(h); }
	const char* d=way==0?"RUN\r":way==1?"EXEC\"PRG:T\"\r":"LOAD\"PRG:T\",0:RUN\r"; obs x=look(cr(d,strlen(d),0)); same(&o,&x,d); probe("stored"); mc_state(c*8+way*2+end); mc_nontrivial(c*8+way*2+end); mc_outcome(o.e);
}
static void b_caps(void){ boot_(); }
#define CHAIN_RESET jumps=0,sys_sleeps=0
#include "chain.h"
const mc_suite mc_suites[]={{"chars",s_chars,MC_QT,boot_},{"char1",s_char1,MC_QT,boot_},{"edit2",s_edit2,MC_QT,boot_},{"tok2",s_tok2,MC_QT,boot_},{"tok3",s_tok3,MC_QT,boot_},{"tok3k",s_tok3k,MC_T,boot_},{"tok4",s_tok4,MC_T,boot_},{"tok5",s_tok5,MC_T,boot_},{"repeat",s_repeat,MC_QT,boot_},{"lines",s_lines,MC_QT,boot_},{"caps",s_caps,MC_QT,b_caps},{"relabel",s_relabel,MC_QT,boot_},{"stored",s_stored,MC_QT,boot_},
 {"chain",s_chain,MC_QT,b_chain},{"minimal",s_minimal,MC_QT,b_caps},{"minlabels",s_minlabels,MC_QT,b_caps}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

// C05: every tokenizer mode and every way of writing a program give the same behaviour.
#include "bas.h"
const char* mc_rule = "all programs of up to the stated number of statements from the suites' statement lists (with shared subroutine, labels and DATA), each run with names looked up at run time, with names and kept entries, with variable slots resolved at compile time, and with RUN, and in every listed way of writing it (spaces, keyword case, separators, abbreviated forms): all must agree in output, variables and error; non-trivial = a program that changes a variable, the screen or fails, counted by program text";
// {a|b|c} alternative forms, ~ optional space, ^ keyword, # newline
static const char* const st[]={
 "~A~=~A~+~1~","~B~=~{(|[}A~+~2.5{)|]}~*~A","A$~=~A$~+~\"x y\"~","^DIM D{(|[}3~{)|]}","D{(|[}1{)|]}~=~A~+~B","D$(~A~)~=~A$~+~\"q\"","{^PRINT |?|?~}A~;~B~,~A$~",
 "^FOR I~=~0~ ^TO 2","^NEXT{| I| }","^IF A~==~1~ ^THEN B~=~5 ^ELSE B~=~6","^IF B {^THEN |^GOTO |^THEN ^GOTO }@L","@L#N~=~N~+~1{#|:|~:~}^IF N~>~3 ^THEN ^END","^GOSUB @S","^CLEAR",
 "^SWAP A~,~B","^READ C~,~C$","^DATA 7,seven","^RESTORE @L","^ON A ^GOTO @L~,~@M","^LOCATE 2~,~3","LONGNAME~=~LONGNAME~+~B{:|#|~:~#}LONGNAM2$~=~\"&H1F\"","B~=~D(2~)~+~A(0)",
 "{'|^REM |'~}remark ^PRINT 1","B~=~1~/~(A~-~1)","^PRINT D(1)~;~D$(1)~;","A~=","^RETURN","B$~=~^LEFT${(|[}A$~,~1{)|]}~+~^STR$(B){:|#|~:~}C~=~^VAL(LONGNAM2$)","^IF A ^THEN {^PRINT |?}1~,~2~;~:~A~=~A~+~5","A~=~-A~:~B~=~-~(B~)","^IF B~>~A ^AND A~<=~2 ^THEN ^LOCATE A~,~B ^ELSE ^SORT 0~,~2~,~D"};
#define NS ((int)(sizeof st/sizeof*st))
static const char tail[]="^END#@S#S~=~S~+~1:B~=~B~+~1{:|#}{^PRINT |?}\"s\"{:|#}^RETURN#@M#^PRINT \"m\"~;~S#";
enum { V_PLAIN, V_ALT1, V_ALT2, V_SPACE, V_SPACES, V_LOWER, V_MIXED, V_COLON, V_ALL, V_NOEND, V_N };
static const char* const vname[]={"as written","second forms","third forms","single spaces","many spaces","lower case keywords","mixed case keywords","colons between statements","all at once","no final line end"};
static void expand(char* o, const char* s, int v){
	int alt=v==V_ALT1||v==V_ALL?1:v==V_ALT2?2:0, sp=v==V_SPACE||v==V_ALL?1:v==V_SPACES?3:0, kw=0, low=v==V_LOWER||v==V_ALL, mix=v==V_MIXED, q=0; 
	int inb=0, cur=0, nalt=0;
	for (;*s;++s){
		if (*s=='{' && !inb){ inb=1; cur=0; nalt=1; for (const char* t=s+1;*t!='}';++t) nalt+=*t=='|'; continue; }
		if (inb && *s=='|'){ ++cur; kw=0; continue; } if (inb && *s=='}'){ inb=0; continue; }
		if (inb && cur!=(alt<nalt?alt:nalt-1)) continue;
		if (*s=='~'){ for (int i=0;i<sp;++i) *o++=' '; continue; }
		if (*s=='^'){ kw=1; continue; } if (kw && !(*s>='A'&&*s<='Z')) kw=0;
		if (*s=='"') q=!q;
		if (*s=='#') *o++='\r'; else if (*s==' ' && sp>1 && !q) { for (int i=0;i<sp;++i) *o++=' '; } else if (kw && (low || (mix && (kw++&1)))) *o++=*s+32; else *o++=*s;
	}
	*o=0;
}
static uint64_t canon(void){ // variables without those that were never set
	uint64_t h=0; for (unsigned i=0;i<P->vars.vars_max;++i){ struct named_var* v=&P->vars.vars[i]; if (v->type==VAR_EMPTY) continue;
		uint64_t e=mc_mix(mc_hash(v->name,strnlen(v->name,16)),v->type); u8 b[600];
		if (v->type==VAR_NUMBER){ if (!v->value.number) continue; e=mc_mix(e,(u32)v->value.number); }
		else if (v->type==VAR_STRING){ int l=v->value.ptr?sys_strv(v->value.ptr,b):0; if (!l) continue; e=mc_mix(e,mc_hash(b,l)); }
		else { if (!v->value.ptr) continue; u32 d1=arr_size(v->value.ptr,0), d2=arr_size(v->value.ptr,1), n=d1*(d2==ARR_DIM2_UNUSED?1:d2); e=mc_mix(mc_mix(e,d1),d2); union value* a=arr_data(v->value.ptr);
			for (u32 j=0;j<n;++j) if (v->type&VAR_NUMBER) e=mc_mix(e,(u32)a[j].number); else { int l=sys_strv(a[j].ptr,b); e=mc_mix(e,mc_hash(b,l)); } }
		h+=e; }
	return h; }
typedef struct { int e; uint64_t v, c; int live; char row0[40], row1[40]; } obs;
static char why[200];
static obs look(int e){ obs o={e,canon(),sys_hash_console(),sys_live_strings(),"",""}; strncpy(o.row0,sys_row(0),33); strncpy(o.row1,sys_row(1),33); return o; }
static int differ(const obs* a, const obs* b){
	if (a->e!=b->e){ sprintf(why,"error %s, before %s",errname(b->e),errname(a->e)); return 1; }
	if (a->c!=b->c){ sprintf(why,"the screen differs: \"%s\" / \"%s\", before \"%s\" / \"%s\"",b->row0,b->row1,a->row0,a->row1); return 1; }
	if (a->v!=b->v){ strcpy(why,"the variables differ"); return 1; }
	if (a->live!=b->live){ sprintf(why,"%d strings in use, before %d",b->live,a->live); return 1; }
	return 0; }
static void inmode(int m){ mode=m; if (m) P->vars.clear_values=true; }
static obs direct(const char* p, int m){ sys_reset(); inmode(m); return look(sys_run(p,opts())); }
static obs stored(const char* p, int m){ sys_reset(); inmode(m); memcpy(P->exec.prg.data,p,strlen(p)); P->exec.prg.size=strlen(p); return look(sys_run("RUN\r",opts())); }
static void compare(const char* tpl, const int* iscolon){
	char base[2000], t[2600]; expand(base,tpl,V_PLAIN); mc_desc_bytes(base,strlen(base));
	obs b=direct(base,0); mc_trans(1); mc_state(mc_hash(base,strlen(base))); mc_outcome(mc_mix(b.v,mc_mix(b.c,b.e)));
	for (int m=1;m<3;++m){ obs o=direct(base,m); mc_validated(1); if (differ(&b,&o)) mc_fail("%s: %s",m==1?"names with kept entries":"slots resolved at compile time",why); }
	for (int m=0;m<3;++m){ obs o=stored(base,m); mc_validated(1); if (differ(&b,&o)) mc_fail("RUN of the stored program in mode %d: %s",m,why); }
	(void)iscolon;
	for (int v=1;v<V_N;++v){
		expand(t,tpl,v); if (v==V_NOEND) t[strlen(t)-1]=0; if (v==V_COLON && !iscolon) continue;
		if (v==V_COLON||v==V_ALL){ if (iscolon){ // join lines where the rest of a line is not special
			char u[2600]; int n=0, ln=0; const char* s=t; for (;*s;++s){ if (*s=='\r' && iscolon[ln] && iscolon[ln+1]>=1 && s[1] && s[1]!='@') u[n++]=':'; else u[n++]=*s; if (*s=='\r') ++ln; } u[n]=0; strcpy(t,u); } }
		if (!strcmp(t,base)) continue;
		obs o=direct(t,v%3); mc_validated(1); mc_trans(1); if (differ(&b,&o)){ char s[260]; int n=0; for (const char* q=t;*q && n<250;++q) s[n++]=*q=='\r'?'\\':*q; s[n]=0; mc_fail("%s (mode %d): %s; text %s",vname[v],v%3,why,s); }
	}
	if (b.v || b.e || b.c) mc_nontrivial(mc_hash(base,strlen(base)));
}
static int joinable(int k){ const char* s=st[k]; return !strstr(s,"^IF") && *s!='@' && strncmp(s,"^DATA",5) && !strstr(s,"REM") && k!=25 && strchr(s,'#')==NULL; }
static void progs(int n, const int* k){
	char tpl[3000]=""; int L=0; for (int i=0;i<n;++i) if (k[i]==11 && L++) mc_skip();
	int cl=0, lo=0; for (int i=0;i<n;++i){ cl|=k[i]==13; lo|=k[i]==7||k[i]==11; } if (cl && lo) mc_skip(); // clearing the counter of a loop may repeat it forever
	for (int i=0;i<n;++i){ strcat(tpl,st[k[i]]); strcat(tpl,"#"); } strcat(tpl,tail);
	// join the statement lines first (template level) for the colon variant
	compare(tpl,NULL);
	char j[3000]=""; int any=0; for (int i=0;i<n;++i){ strcat(j,st[k[i]]); if (i+1<n && joinable(k[i]) && k[i+1]!=11 && k[i+1]!=25){ strcat(j,k[i]&1?"~:~":":"); any=1; } else strcat(j,"#"); } 
	if (!any) return; strcat(j,tail); char a[2000], b[2600]; expand(a,tpl,V_PLAIN); expand(b,j,V_PLAIN); obs x=direct(a,0), y=direct(b,n%3); mc_validated(1); if (differ(&x,&y)) mc_fail("joined with colons: %s",why);
}
static void s_progs(void){ int M=mc_thorough?4:3, n=1+mc_choose(M), k[8]; for (int i=0;i<n;++i) k[i]=mc_choose(NS); progs(n,k); }
static void s_long(void){ // longer programs from the statements that interact most
	static const int sub[]={0,5,7,8,10,11,12,13,15,16,28}; int n=mc_thorough?6:4, k[8]; for (int i=0;i<n;++i) k[i]=sub[mc_choose(11)]; progs(n,k); }
// ---- expressions: every operator and bracket form, spaces and case never matter
static void s_expr(void){
	static const char* const op[]={"+","-","*","/","%","^ ^AND ","^ ^OR ","^ ^XOR ","==","!=","<",">","<=",">="}; static const char* const lhs[]={"A","3","-A","!A","^NOT A","D(1)","(B-1)","^ABS(B)","&HF"};
	int a=mc_choose(9), o1=mc_choose(14), b=mc_choose(9), o2=mc_choose(mc_thorough?14:6), par=mc_choose(3); if (!mc_thorough) o2=(int[]){0,2,5,8,10,3}[o2];
	char t[500]; char x1[20],x2[20]; sprintf(x1,"~%s~",op[o1]+(op[o1][0]=='^')); sprintf(x2,"~%s~",op[o2]+(op[o2][0]=='^'));
	sprintf(t,"A~=~3:B~=~2:D(1)~=~5#C~=~%s%s%s%s%s%s%s#{^PRINT |?}C~;~%s%s%s#",par==1?"(~":"",lhs[a],x1,par==2?"(~":"",lhs[b],par==1?"~)":"",x2,lhs[a],x1,lhs[b]);
	// last operand and closing parenthesis
	char* q=strstr(t,"#{"); char rest[200]; strcpy(rest,q); strcpy(q,par==2?"A~)":"A"); strcat(t,rest); mc_desc("");
	compare(t,NULL);
}
// ---- many variables: slots beyond the short forms
static void b_vars(void){ sys_restore_big=true; sys_boot_small(2048,100,4000); }
static void s_manyvars(void){
	int n=mc_choose(4), pre=mc_range(mc_thorough?79:14)*(mc_thorough?25:150), kind=mc_choose(4); char t[60000]; int l=0; mc_desc("%d other variables first, kind %d, %d",pre,kind,n); mc_no_case_timer(60);
	for (int i=0;i<pre;++i) l+=sprintf(t+l,i%3==2?"V%d$=\"\"\r":i%3?"Q%dX=%d\r":"W%d=1\r",i,i);
	for (int c='A';c<='Z';++c){ if (kind==0) l+=sprintf(t+l,"%c=%c+%d\r",c,c,c); else if (kind==1) l+=sprintf(t+l,"%c$=%c$+\"%c\"\r",c,c,c); else if (kind==2) l+=sprintf(t+l,"%c(1)=%d\r",c,c); else l+=sprintf(t+l,"DIM %c$(2):%c$(1)=\"%c\":%c=1\r",c,c,c,c); }
	l+=sprintf(t+l,n==0?"PRINT A;B;Z\r":n==1?"SORT 0,2,K:SWAP A,B\r":n==3?"FOR Y=1 TO 0\rFOR X=1 TO 2\rNEXT X\rC=5\rFOR E=1 TO 3\rNEXT\rC=6\rNEXT Y\rPRINT C;X;Y:FOR Z=1 TO 0\rC=7\rNEXT Y\rC=8\rNEXT Z\rPRINT C\r":"READ A,Z:FOR Y=0 TO 2:NEXT:DATA 1,2\r");
	obs b=direct(t,0); for (int m=1;m<3;++m){ obs o=direct(t,m); mc_validated(1); if (differ(&b,&o)) mc_fail("mode %d: %s",m,why); o=stored(t,m); if (differ(&b,&o)) mc_fail("RUN in mode %d: %s",m,why); }
	mc_state(pre*12+kind*3+n); mc_nontrivial(pre*12+kind*3+n);
}
// slots of a one letter variable taken by other names
u32 name_hash(const char* name, const u32 len, const u32 hmax);
static void s_clash(void){
	int c="AMZ"[mc_choose(3)], m=mc_range(24), form=mc_choose(4); char t[4000]; int l=0; mc_desc("%d slots before %c are taken, form %d",m,c,form); mc_no_case_timer(60);
	int h=c; char used[40][8]; for (int k=0;k<m;++k){ h+=k; char nm[5]={0}; int ok=0;
		for (int i=0;i<26*26*26*26&&!ok;++i){ nm[0]='A'+i%26; nm[1]='A'+i/26%26; nm[2]='A'+i/676%26; nm[3]='A'+i/17576; if ((int)name_hash(nm,4,2048)==(h&2047)){ ok=1; for (int q=0;q<k;++q) if (!strcmp(used[q],nm)) ok=0; } }
		if (!ok) mc_skip(); strcpy(used[k],nm); l+=sprintf(t+l,"%s=%d\r",nm,k+1); }
	l+=sprintf(t+l,form==0?"%c=7:PRINT %c\r":form==1?"%c$=\"v\":PRINT %c$\r":form==2?"%c(1)=7:PRINT %c(1)\r":"DIM %c(3):SORT 0,2,%c\r",c,c); for (int k=0;k<m;++k) l+=sprintf(t+l,"PRINT %s;\r",used[k]);
	obs b=direct(t,0); if (b.e) mc_fail("%s",errname(b.e)); for (int q=1;q<3;++q){ obs o=direct(t,q); mc_validated(1); if (differ(&b,&o)) mc_fail("mode %d: %s",q,why); o=stored(t,q); if (differ(&b,&o)) mc_fail("RUN in mode %d: %s",q,why); }
	mc_state(c*1000+m*10+form); mc_nontrivial(c*1000+m*10+form);
}
// every single name of one and two characters, next to all one character names
static void s_names(void){
	static const char fc[]="ABCDEFGHIJKLMNOPQRSTUVWXYZ_abz"; static const char sc[]="ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_abz";
	int a=mc_range(29), b=mc_range(39), form=mc_choose(4); char nm[4]={fc[a],sc[b],0}, t[6000]; int l=0; 
	for (int c='A';c<='Z';++c) l+=sprintf(t+l,"%c=%d:%c$=\"%c\":%c(0)=%d:%c$(0)=\"%c%c\"\r",c,c,c,c,c,c+1,c,c,c);
	l+=sprintf(t+l,form==0?"%s=5:PRINT %s;%s\r":form==1?"%s$=\"v\":PRINT %s$;%s$\r":form==2?"DIM %s(3):%s(1)=7:PRINT %s(1)\r":"DIM %s$(3):%s$(1)=\"w\":PRINT %s$(1)\r",nm,nm,nm); mc_desc("name %s form %d",nm,form);
	for (int c='A';c<='Z';++c) l+=sprintf(t+l,"?%c;%c$;%c(0);%c$(0);\r",c,c,c,c);
	obs o0=direct(t,0); for (int m=1;m<3;++m){ obs o=direct(t,m); mc_validated(1); if (differ(&o0,&o)) mc_fail("mode %d: %s",m,why); }
	mc_state(a*200+b*4+form); mc_nontrivial(a*200+b*4+form); mc_outcome(o0.e);
}
// ---- a direct command after a program sees the variables, in every pair of modes
static void s_pairs(void){
	static const char* const p1[]={"A=5:B$=\"q\"","DIM A(4):A(2)=3:B$(1)=\"e\"","CLEAR","A=5:CLEAR:A=A+1","DIM A(2):CLEAR:DIM A(3):A(2)=1","B$=\"1\":CLEAR","A=A+1:B$=B$+\"x\":A(1)=A(1)+2","FOR I=1 TO 3:A=A+I:NEXT","READ A,B$:DATA 4,\"z\"","SWAP A,B"};
	int n=mc_thorough?4:3, k[4], m[4]; char t[300]="";
	for (int i=0;i<n;++i){ k[i]=mc_choose(10); m[i]=mc_choose(3); } obs b; 
	sys_reset(); inmode(0); int e=0; for (int i=0;i<n;++i){ sprintf(t,"%s\r",p1[k[i]]); mc_desc("%d:%s / ",m[i],p1[k[i]]); e=e*200+sys_run(t,0); } b=look(e);
	sys_reset(); inmode(m[0]); e=0; for (int i=0;i<n;++i){ if (m[i]) P->vars.clear_values=true; mode=m[i]; sprintf(t,"%s\r",p1[k[i]]); e=e*200+sys_run(t,opts()); } obs o=look(e); mc_validated(1);
	if (b.e!=o.e){ mc_fail("errors differ"); } if (differ(&b,&o)) mc_fail("%s",why); mc_state(b.v); mc_nontrivial(mc_hash(k,sizeof(int)*n)^m[n-1]);
}
// ---- variables whose slots differ in the high bits only
static int nameof(char* o, int slot, int skip){ for (int i=0;i<26*26*26*26;++i){ o[0]='A'+i%26; o[1]='A'+i/26%26; o[2]='A'+i/676%26; o[3]='A'+i/17576; o[4]=0; if ((int)name_hash(o,4,2048)==slot && !skip--) return 1; } return 0; }
static void s_highslots(void){
	static const int base[]={0,1,7,65,89,128,200,255}, delta[]={0x100,0x200,0x400,0x300,0x500,0x600,0x700}; int b0=mc_range(8), d=mc_range(7), form=mc_choose(9), hi=mc_choose(2); char x[8],y[8],t[3000];
	int sx=base[b0]+(hi?0x700:0), sy=sx^delta[d]; if (!nameof(x,sx,0)||!nameof(y,sy,0)) mc_skip(); mc_desc("slots %d and %d (%s, %s), form %d",sx,sy,x,y,form); mc_no_case_timer(60);
	static const char* const f[]={"FOR %x=1 TO 0\rFOR %y=1 TO 2\rNEXT %y\rC=5\rNEXT %x\rPRINT C;%x;%y","FOR %x=1 TO 0\rC=1\rNEXT %y\rC=2\rNEXT %x\rPRINT C","FOR %x=1 TO 2:FOR %y=1 TO 2:C=C+1:NEXT %y:C=C+10:NEXT %x:PRINT C;%x;%y","%x=5:%y=6:SWAP %x,%y:PRINT %x;%y","%x$=\"p\":%y$=\"q\":SWAP %x$,%y$:PRINT %x$;%y$:%y$=%x$+%y$:PRINT %y$","%x(1)=5:%y(1)=6:PRINT %x(1);%y(1);%x;%y","DIM %x(3),%y(4):%x(2)=2:%y(2)=1:SORT 0,3,%x:SORT 0,3,%y:PRINT %x(2);%y(2);%x(1)","READ %x,%y:PRINT %x;%y\rDATA 3,4","%x=1:%y=2:CLEAR:PRINT %x;%y:%x=3:PRINT %x;%y"};
	int n=0; for (const char* q=f[form];*q;++q) if (*q=='%'){ n+=sprintf(t+n,"%s",*++q=='x'?x:y); } else t[n++]=*q; t[n++]='\r'; t[n]=0;
	obs b=direct(t,0); for (int m=1;m<3;++m){ obs o=direct(t,m); mc_validated(1); if (differ(&b,&o)) mc_fail("mode %d: %s",m,why); o=stored(t,m); if (differ(&b,&o)) mc_fail("RUN in mode %d: %s",m,why); }
	static const int want_e[]={0,0,0,0,0,0,0,0,0}; if (b.e!=want_e[form]) mc_fail("%s",errname(b.e)); mc_state(b0*1000+d*100+form*2+hi); mc_nontrivial(b0*1000+d*100+form*2+hi);
}
// ---- statements next to each other: a colon and a new line separate them alike
static const char* const nb[]={"SORT 0,3,D","RSORT 0,3,D,E","SORT 1,2,E,F$","DIM G(2),H$(3)","DIM J[A]","A=5","A=B+C","C$=MID$(A$,B,A)","B$=MID$(A$,A,B)","D(A)=D(B)+1","F$(A)=A$+B$","C=D(0)","E(0)=MAX","B=INSTR(A$,\"l\")","PRINT A","PRINT A,B;","PRINT","?A$;F$(0)","PRINT D(A)D(B)","SWAP A,B","SWAP D(0),C","SWAP A$,F$(1)","READ A,F$(0)","READ D(1)","RESTORE @R","LOCATE A,B","LOCATE 3,4","COLOR 3","COLOR 2,1","CLS","VISIBLE 1,0,1","ACLS","CLEAR","GOSUB @S","ON 0 GOSUB @S,@S","ON 5 GOSUB @S","FOR I=1 TO 3","FOR I=A TO B STEP C","NEXT","NEXT I","NEXT:NEXT","GCLS","GPSET A,B","GLINE A,B,C,9","GBOX 1,2,3,4","GFILL 0,0,A,B,C","GCOLOR 3","GPAGE 0","BGPUT 0,A,B,C","BGFILL 0,1,1,2,2,0","BGOFS 0,A,B","BGCLR","SPSET 0,A,0,0,0,2","SPOFS 0,A,B","SPCLR","WAIT 0","VSYNC 0","BEEP","BEEP 1,A","KEY 1,A$","TMREAD \"12:34:56\",A,B,C","DTREAD \"2001/02/03\",C,B,A","CHRSET \"BGU0\",A,\"0000000000000000000000000000000000000000000000000000000000000000\"","COLSET \"BG\",A,\"1F1F00\"","COLINIT","A=A:B=-B","C=!A","@N","REM A","'x","DATA 4","END","RETURN","A=1/0","C=D(7)","MEM$=A$","SYSBEEP=A","TABSTEP=B","PNLSTR 1,1,A$","SPPAGE 0","BGPAGE 0","SPANIM 0,A,1","IF A THEN B=7","IF A==9 THEN B=7 ELSE C=8"};
#define NNB ((int)(sizeof nb/sizeof*nb))
static const char nbhead[]="DIM D(6),E(6),F$(6)\rD(0)=5:D(1)=3:D(2)=4:E(0)=1:E(1)=2:E(2)=3:F$(0)=\"f\":F$(2)=\"h\"\rA=1:B=2:C=4:A$=\"hello\":B$=\"w\"\r", nbtail[]="\rPRINT A;B;C;A$;B$;D(0);D(1);E(0);F$(0);I;MAX\rEND\r@S\rS=S+1\rRETURN\r@R\rDATA 1,2,3,4,5,6,7,8,9\r";
static int endsline(const char* s){ return *s=='@'||*s=='\''||!strncmp(s,"REM",3)||!strncmp(s,"DATA",4)||!strncmp(s,"IF",2); }
static void s_colons(void){
	int n=mc_choose(mc_thorough?3:2)+2, k[4]; if (n==2) k[0]=mc_range(NNB), k[1]=mc_range(NNB); else if (n==3){ k[0]=mc_range(NNB); k[1]=mc_range(NNB); k[2]=mc_choose(mc_thorough?NNB:14); } else { k[0]=mc_range(36); k[1]=mc_range(36); k[2]=mc_choose(14); k[3]=mc_choose(14); }
	char a[1200], b[1200]; strcpy(a,nbhead); strcpy(b,nbhead); int bad=0; for (int i=0;i<n;++i){ const char* s=nb[k[i]]; strcat(a,s); strcat(b,s); if (*s=='@' && i) mc_skip(); for (int j=0;j<i;++j) if (k[i]==k[j]&&*s=='@') mc_skip();
		if (i+1<n){ strcat(a,"\r"); int e=endsline(s); bad+=!e; strcat(b,e&&*s!='@'?"\r":e?"\r":":"); } } if (!bad) mc_skip(); strcat(a,nbtail); strcat(b,nbtail); mc_desc_bytes(b+sizeof nbhead-1,strlen(b)-(sizeof nbhead-1)-(sizeof nbtail-1));
	// a FOR with no loop to run looks for its NEXT, which is found at the start of a statement only
	obs x=direct(a,0), y=direct(b,(k[0]+k[1])%3); mc_trans(1); mc_validated(1); if (differ(&x,&y)) mc_fail("joined with colons: %s",why); mc_state(mc_hash(a,strlen(a))); mc_outcome(mc_mix(x.v,mc_mix(x.c,x.e))); mc_nontrivial(mc_hash(a,strlen(a)));
}
// ---- either branch of an IF does what its statements do alone
static void s_branch(void){
	int t=mc_choose(4), k0=mc_range(NNB), k1=mc_range(NNB), k2=t>1?mc_choose(mc_thorough?NNB:9):0; if (endsline(nb[k0])||endsline(nb[k1])||endsline(nb[k2])) mc_skip(); char a[1200], b[1200], c[300];
	if (t<2) sprintf(c,"IF %s THEN %s ELSE %s",t?"A==1":"C<B",nb[k0],nb[k1]); else sprintf(c,"IF %s THEN %s:%s ELSE %s",t==2?"A==1":"B$==\"x\"",nb[k0],nb[k1],nb[k2]);
	sprintf(b,"%s%s%s",nbhead,c,nbtail); if (t<2) sprintf(a,"%s%s%s",nbhead,nb[t?k0:k1],nbtail); else if (t==2) sprintf(a,"%s%s\r%s%s",nbhead,nb[k0],nb[k1],nbtail); else sprintf(a,"%s%s%s",nbhead,nb[k2],nbtail); mc_desc("%s",c);
	obs x=direct(a,0), y=direct(b,(k0+k1)%3); mc_trans(1); mc_validated(1); if (differ(&x,&y)) mc_fail("not as on a line of its own: %s",why); mc_state(mc_hash(c,strlen(c))); mc_outcome(mc_mix(x.v,mc_mix(x.c,x.e))); mc_nontrivial(mc_hash(c,strlen(c)));
}
// ---- statements do the same in a loop, a subroutine or a branch
static void s_inside(void){
	int c=mc_choose(7), k0=mc_range(NNB), k1=mc_range(NNB); static const char* const no[]={"NEXT","RETURN","END","CLEAR","FOR","RESTORE"}; for (int j=0;j<5;++j) for (int q=0;q<2;++q) if (!strncmp(nb[q?k1:k0],no[j],strlen(no[j]))) mc_skip(); if (endsline(nb[k0])||endsline(nb[k1])) mc_skip();
	char a[1300], b[1300], t[400]; const char *x=nb[k0], *y=nb[k1]; static const char* const f[]={"FOR Q=0 TO 0:%s:%s:NEXT Q","FOR Q=0 TO 0\r%s\r%s\rNEXT","GOSUB @X:Q=1:GOTO @Y\r@X\r%s:%s\rRETURN\r@Y","IF A==1 THEN FOR Q=0 TO 0:%s:%s:NEXT ELSE A=A/0","IF A==2 THEN A=A/0 ELSE FOR Q=0 TO 0:%s:%s:NEXT Q","ON A GOSUB @Y,@X:Q=1:GOTO @Y\r@X:%s:%s:RETURN\r@Y","IF A==1 THEN IF B==2 THEN %s:%s:Q=1"};
	sprintf(t,f[c],x,y); sprintf(b,"%s%s%s",nbhead,t,nbtail); sprintf(a,"%s%s\r%s\rQ=1%s",nbhead,x,y,nbtail); mc_desc_bytes(t,strlen(t));
	obs p=direct(a,0), q=direct(b,(k0+k1)%3); mc_trans(1); mc_validated(1); if (!p.e||!q.e) if (differ(&p,&q)) mc_fail("not as on lines of their own: %s",why); if (p.e!=q.e) mc_fail("error %s, on lines of their own %s",errname(q.e),errname(p.e)); mc_state(mc_hash(t,strlen(t))); mc_outcome(mc_mix(p.v,mc_mix(p.c,p.e))); mc_nontrivial(mc_hash(t,strlen(t)));
}
// ---- an argument may be given by any expression of the same value
static const struct { const char* t; int v[3]; } ar[]={{"LOCATE #,#",{3,5}},{"COLOR #,#",{4,2}},{"PRINT #;#,#",{1,2,3}},{"?#,#;",{7,6}},{"PRINT \"x\"#\"y\"#",{1,2}},{"D(#)=#",{2,6}},{"E[#]=D[#]+#",{2,1,3}},{"M(#,#)=#",{1,2,5}},{"A=M(#,#)+#",{1,1,7}},{"DIM G(#),H$(#,#)",{4,2,3}},{"IF # THEN A=# ELSE A=#",{0,5,6}},{"IF # THEN A=# ELSE A=#",{1,5,6}},{"ON # GOSUB @S,@S,@S",{1}},{"ON # GOTO @Y,@Z:A=9\r@Y:A=5\r@Z",{1}},{"FOR I=# TO # STEP #:A=A+I:NEXT",{2,6,2}},{"FOR I=# TO #:A=A+1:NEXT:SORT 0,#,D",{1,3,3}},{"SORT #,#,D,E",{0,3}},{"SORT #,#,D,E:A=#",{1,2,6}},{"A$=MID$(\"hello world\",#,#)",{2,4}},{"A$=LEFT$(\"hello\",#)+RIGHT$(\"world\",#)",{2,3}},{"A$=SUBST$(\"hello\",#,#,\"yy\")",{1,2}},{"A=INSTR(\"hello\",\"l\",#)",{3}},{"A$=CHR$(#+64)+CHR$(#+64)",{5,6}},{"A$=STR$(#)+HEX$(#)+HEX$(#,4)",{5,6,7}},{"SWAP D(#),D(#)",{1,2}},{"READ D(#),M(#,1)",{1,2}},{"GPSET #,#,#:A=GSPOIT(#,1)",{3,1,7}},{"GLINE #,1,#,1,#:A=GSPOIT(3,1)",{1,5,7}},{"A=CHKCHR(#,#)",{0,1}},{"PNLSTR #,#,\"q\",#",{1,2,3}},{"BGPUT 0,#,#,#:BGREAD (0,3,1),A",{3,1,7}},{"SPSET 0,#,#,0,0,#:SPREAD (0),A,B",{3,1,0}},{"WAIT #:A=#",{0,3}},{"KEY #,\"k\"+STR$(#)",{1,4}},{"TABSTEP=#:PRINT #,#",{3,4,5}},{"A=ABS(#-#)",{2,5}},{"A=POW(#,#)",{2,3}},{"COLSET \"BG\",#,\"F81F00\":COLREAD (\"BG\",1),A,B,C",{1}},{"A=B*#-#/(#+1)",{6,4,1}},{"A=#==# AND #",{3,3,1}}};
static const char* const argf[]={"%d","(%d)","V%d","-(-V%d)","T(%d)","T[V%d]","N(%d,0)","(V%d+0)","FLOOR(V%d)","LEN(MID$(\"abcdefgh\",0,V%d))","(V%d AND 15)","ABS(-V%d)","T(T(%d))","VAL(STR$(V%d))","(V%d*(1==1))","MID$(\"abcd\",0,0)+%d"};
static void s_argument(void){
	int t=mc_range((int)(sizeof ar/sizeof*ar)), k[3]={0}, n=0; for (const char* q=ar[t].t;*q;++q) n+=*q=='#'; if (n>3) n=3; for (int i=0;i<n;++i) k[i]=mc_choose(15);
	char a[1300], b[1300], c[500], d[500]; for (int w=0;w<2;++w){ char* o=w?d:c; int i=0; for (const char* q=ar[t].t;*q;++q) if (*q=='#'){ o+=sprintf(o,argf[w?k[i<3?i:0]:0],ar[t].v[i<3?i:0]); ++i; } else *o++=*q; *o=0; }
	static const char head[]="V0=0:V1=1:V2=2:V3=3:V4=4:V5=5:V6=6:V7=7:DIM T(8),N(8,1),M(3,3):FOR I=0 TO 7:T(I)=I:N(I,0)=I:NEXT:I=0\r"; sprintf(a,"%s%s%s%s",head,nbhead,c,nbtail); sprintf(b,"%s%s%s%s",head,nbhead,d,nbtail); mc_desc("%s",d);
	obs x=direct(a,0), y=direct(b,(k[0]+k[1]+k[2])%3); mc_trans(1); mc_validated(1); if (x.e) mc_fail("%s",errname(x.e)); if (differ(&x,&y)) mc_fail("not as %s: %s",c,why); mc_state(mc_hash(d,strlen(d))); mc_outcome(mc_mix(x.v,mc_mix(x.c,x.e))); mc_nontrivial(mc_hash(d,strlen(d)));
}
// ---- items of PRINT need no separator
static void s_items(void){
	static const char* const it[]={"A","7","\"x\"","A$","D(1)","D[B]","F$(0)","ABS(-C)","MID$(A$,1,2)","A+B","A*B-C","A$+B$","(B)","-C","!A","NOT B","A==1","A AND 3","MAX(1,2)","&HF","TRUE","D(A)+D(B)","-ABS(A)","1.5","A$*2"}; int N=sizeof it/sizeof*it, k[3], n=2+mc_choose(2); char a[1300], b[1300], t[200]="PRINT ", u[200]="PRINT ";
	for (int i=0;i<n;++i){ k[i]=i==0?mc_range(N):mc_choose(i==2&&!mc_thorough?12:N); const char* x=it[k[i]]; if (k[i]==18) x="LEN(\"ab\")"; if (i){ int sep=mc_choose(3); const char* y=it[k[i-1]]; char last=y[strlen(y)-1];
			if (sep==0){ if (*x=='-' && last!='"' && last!='$') mc_skip(); if (*x=='-'&&last=='$') mc_skip(); if (*x=='(' && (isalpha(last)||last=='$')) mc_skip(); strcat(t,*x=='"'||*x=='('||last=='"'||last==')'||(last=='$'&&!isalnum(*x))?"":" "); strcat(u,";"); } else { strcat(t,sep==1?",":";"); strcat(u,sep==1?",":";"); } }
		strcat(t,x); strcat(u,x); }
	if (mc_choose(2)) strcat(t,";"), strcat(u,";"); sprintf(a,"%s%s%s",nbhead,u,nbtail); sprintf(b,"%s%s%s",nbhead,t,nbtail); mc_desc("%s",t);
	obs p=direct(a,0), q=direct(b,k[0]%3); mc_trans(1); mc_validated(1); if (p.e) mc_fail("%s",errname(p.e)); if (differ(&p,&q)) mc_fail("not as %s: %s",u,why); mc_state(mc_hash(t,strlen(t))); mc_outcome(mc_mix(p.v,mc_mix(p.c,p.e))); mc_nontrivial(mc_hash(t,strlen(t)));
}
static void b_prg(void){ sys_cfg.prg=60000; sys_boot(); }
static void b_prgv(void){ sys_cfg.bc=200000; sys_cfg.lines=4000; sys_cfg.prg=60000; b_vars(); }
const mc_suite mc_suites[]={{"programs",s_progs,MC_QT,b_prg},{"long",s_long,MC_QT,b_prg},{"expr",s_expr,MC_QT,b_prg},{"manyvars",s_manyvars,MC_QT,b_prgv},{"clash",s_clash,MC_QT,b_prgv},{"names",s_names,MC_QT,b_prgv},{"pairs",s_pairs,MC_QT,b_prg},{"colons",s_colons,MC_QT,b_prg},{"branch",s_branch,MC_QT,b_prg},{"inside",s_inside,MC_QT,b_prg},{"argument",s_argument,MC_QT,b_prg},{"items",s_items,MC_QT,b_prg},{"highslots",s_highslots,MC_QT,b_prgv}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

// C10: READ delivers DATA items in program order, RESTORE repositions exactly.
#include "bas.h"
const char* mc_rule = "all programs built from the suites' line kinds (DATA lines of every padding, labels, comments, strings and statements that contain DATA) up to the stated length times all READ/RESTORE sequences up to the stated length; all single DATA lines over the 7 character alphabet up to the stated length; number and length boundary lists; non-trivial = at least one item delivered or an error predicted, counted by program text";
typedef struct { char t[300]; int n; int kind; } item; // kind 0 exact text, 1 malformed (not judged)
static int wild; // text after a closing quote: the rest of the line is not judged
// --- model of one DATA line: text after the keyword up to the end of the line
static int parse(const char* s, item* o){
	int n=0; for (;;){
		item* it=&o[n++]; it->n=0; it->kind=0;
		while (*s==' ') ++s;
		if (*s=='"'){ ++s; while (*s && *s!='"') it->t[it->n++]=*s++; if (*s=='"') ++s; while (*s==' ') ++s; if (*s && *s!=','){ it->kind=1; wild=1; int q=0; while (*s && (q||*s!=',')){ if (*s=='"') q=!q; ++s; } } }
		else { while (*s && *s!=',' && *s!=' ') it->t[it->n++]=*s++; while (*s==' ') ++s; if (*s && *s!=','){ it->kind=1; while (*s && *s!=',') ++s; } }
		it->t[it->n]=0; if (!*s) return n; ++s;
	}
}
// value of an item as a number: 0 exact value, 1 must be an error, 2 not judged (empty or odd sign/point)
static int numval(const item* it, fixp* v){
	const char* s=it->t; if (it->kind) return 2; while (*s==' ') ++s;
	if (!*s) return 2;
	for (const char* q=s;*q;++q) if (!strchr("0123456789.-",*q)) return 1;
	int neg=0; if (*s=='-'){ neg=1; ++s; } if (strchr(s,'-')) return 2; const char* d=strchr(s,'.'); if (d && strchr(d+1,'.')) return 2;
	if (!*s || (d && d==s && !d[1])) return 2;
	__int128 in=0; for (;*s && *s!='.';++s){ in=in*10+*s-'0'; if (in>10000000) in=10000000; }
	__int128 fr=0, m=1; if (d) for (++d;*d;++d){ if (m<((__int128)1<<90)){ fr=fr*10+*d-'0'; m*=10; } }
	__int128 r=in*4096+fr*4096/m; if (neg) r=-r; if (r>2147483647||r<-2147483648LL) return 1; *v=(fixp)r; return 0;
}
static item its[4000]; static int nit; static int lab[4]; // lab[k]: index of the first item after label k, -1 none
static char prog[60000];
static void addl(const char* f, ...){ va_list a; va_start(a,f); int n=strlen(prog); vsnprintf(prog+n,sizeof prog-n,f,a); va_end(a); strcat(prog,"\r"); }
static void line(int k){
	static const char* const pre[]={"DATA 1","DATA 22","A=1:DATA 3,\"x,y\"","data -4.5 , five","@L1","@L2","'DATA 9","B$=\"DATA 8,@L1\"","FOR I=0 TO 1:B$=\"12\":NEXT","DATA \"\",\"@L1\"","C=&HFF+100.5:IF 0 THEN PRINT \"DATA\"","DATA1=5","DATA","@L3:DATA 6.25","REM DATA 1,2"};
	const char* s=pre[k]; addl("%s",s);
	if (k==4) lab[1]=nit; if (k==5) lab[2]=nit; if (k==13) lab[3]=nit;
	const char* d=k==0||k==1||k==9||k==12?s+4:k==2||k==13?strstr(s,"DATA")+4:k==3?s+4:NULL;
	if (d) nit+=parse(d,its+nit);
}
#define NLK 15
static int cur, failed, nvar; static struct { int str, it, maybe, err; } ex[40];
enum { E_NONE, E_ANY, E_DATA };
static char ops[3000];
static void addop(const char* f, ...){ va_list a; va_start(a,f); int n=strlen(ops); vsnprintf(ops+n,sizeof ops-n,f,a); va_end(a); strcat(ops,"\r"); }
static void read_op(const char* types){
	char b[200]="READ "; int m=strlen(types);
	for (int i=0;i<m;++i) sprintf(b+strlen(b),"%s%c%d%s",i?",":"",types[i]=='s'?'S':'N',nvar+i,types[i]=='s'?"$":"");
	addop("%s",b);
	for (int i=0;i<m;++i,++nvar){ ex[nvar].str=types[i]=='s'; ex[nvar].it=-1; ex[nvar].maybe=0;
		if (failed) continue;
		if (cur>=nit){ failed=E_DATA+1; for (int k=0;k<i;++k) ex[nvar-i+k].maybe=1; continue; }
		fixp v; int bad=types[i]=='n'&&numval(&its[cur],&v)==1;
		if (bad){ failed=E_ANY+1; for (int k=0;k<i;++k) ex[nvar-i+k].maybe=1; continue; }
		ex[nvar].it=cur++; }
}
static void restore_op(int k){ addop("RESTORE @L%d",k); if (!failed){ if (lab[k]<0) failed=E_ANY+1; else cur=lab[k]; } }
static void verify(int e){
	if (wild) return;
	int soft=0; for (int i=0;i<nvar;++i) if (ex[i].it>=0){ fixp v; if (its[ex[i].it].kind || (!ex[i].str && numval(&its[ex[i].it],&v)==2)) soft=1; }
	mc_validated(nvar+1); mc_trans(nvar);
	if (soft && e) { mc_outcome(9); return; } // an odd item may be refused
	if (!failed && e) mc_fail("failed: %s",errname(e));
	if (failed && !e) mc_fail("ends without an error");
	if (failed==E_DATA+1 && e!=ERR_OUT_OF_DATA) mc_fail("reading past the last item gives %s",errname(e));
	for (int i=0;i<nvar;++i){ char nm[8]; sprintf(nm,"%c%d",ex[i].str?'S':'N',i); item* it=ex[i].it>=0?&its[ex[i].it]:NULL;
		if (ex[i].str){ u8 g[300]; int l=sys_str(nm,g); bool none=l==0, same=it && l==it->n && !memcmp(g,it->t,l);
			if (it?(it->kind==0 && !same && !(ex[i].maybe && none)):!none) mc_fail("%s$ is \"%.*s\", expected \"%s\"",nm,l,g,it?it->t:""); }
		else { fixp v=0, g=sys_num(nm); if (it && numval(it,&v)==2) continue; if (g!=v && !(ex[i].maybe && g==0)) mc_fail("%s is %d/4096, expected %d/4096",nm,g,v); }
	}
	mc_outcome(e);
}
static void start(void){ wild=0; prog[0]=ops[0]=0; nit=cur=failed=nvar=0; lab[0]=lab[1]=lab[2]=lab[3]=-1; }
static void op(int k){
	static const char* const r[]={"s","n","ss","ns","sssn"};
	if (k<4) read_op(r[k]); else if (k<6) restore_op(k-3); else if (k==6) restore_op(3); else read_op(r[4]); }
static void go(int before){
	static char full[70000]; if (before) { sprintf(full,"%s",ops); strcat(full,"GOTO @END\r"); strcat(full,prog); strcat(full,"@END\r"); } else { strcpy(full,prog); strcat(full,ops); }
	mc_desc_bytes(full,strlen(full)>900?900:strlen(full));
	int e=sys_run(full,opts()); verify(e); mc_state(mc_hash(full,strlen(full))); if (nvar) mc_nontrivial(mc_mix(mc_hash(full,strlen(full)),mode));
}
static int dup_label(const int* k, int n){ int c[NLK]={0}; for (int i=0;i<n;++i) if (++c[k[i]]>1 && (k[i]==4||k[i]==5||k[i]==13)) return 1; return 0; }
static void layouts(int n, int m){
	int k[8], o[8]; for (int i=0;i<n;++i) k[i]=mc_choose(NLK); if (dup_label(k,n)) mc_skip();
	int before=mc_choose(2); start(); for (int i=0;i<n;++i) line(k[i]);
	for (int i=0;i<m;++i) o[i]=mc_choose(8); sys_reset(); int h=0; for (int i=0;i<n;++i) h+=k[i]; for (int i=0;i<m;++i) h+=o[i]; setmode(h%3);
	for (int i=0;i<m;++i) op(o[i]); go(before);
}
static void s_short(void){ int n=mc_choose(4); layouts(n,n<3||mc_thorough?3:2); }
static void s_long(void){ layouts(4,mc_thorough?3:1); }
static void s_five(void){ layouts(5,1); }
static void s_ops(void){ // longer histories over a few fixed layouts
	static const int lay[][6]={{0,4,2,5,13,3},{4,0,5,1,13,9},{2,6,4,7,5,12},{13,5,4,0,1,2}}; int L=mc_thorough?6:4; int l=mc_choose(4), o[8]; for (int i=0;i<L;++i) o[i]=mc_choose(8);
	start(); for (int i=0;i<6;++i) line(lay[l][i]); sys_reset(); setmode((l+o[0])%3); for (int i=0;i<L;++i) op(o[i]); go(o[L-1]&1);
}
// ---- one DATA line, every text
static void s_text(void){
	static const char al[]="1-. \",A"; int L=mc_thorough?7:5, n=mc_choose(L+1); char t[20]; int tot=1; for (int i=0;i<n;++i) tot*=7; int v=mc_range(tot);
	for (int i=0,x=v;i<n;++i,x/=7) t[i]=al[x%7]; t[n]=0; int num=mc_choose(2), lead=mc_choose(2); sys_reset(); setmode((v+num)%3); start();
	if (lead) addl("Z=1:DATA %s",t); else addl("DATA%s%s",n&&strchr("1A",t[0])?" ":"",t);
	if (!lead && n && (t[0]=='.'||t[0]=='-')) { prog[0]=0; addl("DATA %s",t); }
	nit=parse(t,its); int c=nit; addl("DATA end"); nit+=parse("end",its+nit);
	for (int i=0;i<c;++i) read_op(num?"n":"s"); read_op("s"); go(v&1);
}
// ---- numbers
static void s_numbers(void){
	static const char* const nv[]={"0","1","-1","524287","-524287","-524288","524288","-524289","999999","1048576","1048577","4294967296","0.5","-0.5",".5","-.5","5.","0.00024","0.00025","524287.9997","524287.99975","524287.99976","524287.9999999","524287.999999999999999999999","-524287.99999","-524288.1","1.000000000000000000000000001","0.333333333333333333","0000000000000000000000001","00000000000000000524287.5","-0000000000000000000.25","12345678901234567890","99999999999999999999999999","0.000000000000000000000001","123456.789","1234567890123456","123456789012345","3.14159265358979323846","-3.1415926535897932384626433832795","&H10","1E3","+5","1A","A","0x5","#1","1/2","1 2","--1","1-1","1.1.1","-"};
	int n=sizeof nv/sizeof*nv, v=mc_range(n), q=mc_choose(4), w=mc_choose(n<60?8:8), pos=mc_choose(3); sys_reset(); setmode((v+q+w)%3); start();
	char it[100]; const char* sp[]={""," ","   ","                 "}; const char* s=sp[w&3];
	if (q&1) sprintf(it,"\"%s%s\"",s,nv[v]); else sprintf(it,"%s%s%s",s,nv[v],w>>2?sp[w&3]:"");
	char l[300]; sprintf(l,"%s%s%s",pos?"7,":"",it,pos==2?",8":""); addl("DATA %s",l); nit=parse(l,its); if (q>>1){ addl("DATA 5"); nit+=parse("5",its+nit); }
	if (pos) read_op("n"); read_op("n"); read_op(q>>1?"n":"s"); go(0);
}
// ---- DATA lines of every length up to beyond the limit, and many items
static void b_many(void){ sys_boot_small(256,600,4000); }
static void s_lengths(void){
	int n=mc_range(290), kind=mc_choose(4), pre=mc_choose(2); sys_reset(); setmode(n%3); start(); char t[600]=""; mc_desc("length %d kind %d",n,kind);
	if (kind==0) for (int i=0;i<n;++i) t[i]='A'+i%26; else if (kind==1){ for (int i=0;i<n;++i) t[i]=i&1?',':'1'+i%7; } else if (kind==2){ t[0]='"'; for (int i=1;i<n;++i) t[i]=i%5?'b':','; if (n>1) t[n-1]='"'; t[n]=0; if (n==1) t[0]=0; } else { for (int i=0;i<n;++i) t[i]=' '; if (n) t[n-1]='z'; }
	t[n]=0; if (pre) addl("A$=\"\":DATA 1"); its[0].n=1; strcpy(its[0].t,"1"); its[0].kind=0; nit=pre; addl("DATA %s",t); nit+=parse(t,its+nit); addl("DATA 9"); nit+=parse("9",its+nit);
	// read all into one array, item by item, then one too many
	static char b[70000]; sprintf(b,"DIM R$(300)\r%sI=0\r@LP\rREAD R$(I):I=I+1:GOTO @LP\r",prog);
	int e=sys_compile(b,opts()); if (!e) e=sys_go(); mc_validated(1);
	if (e==ERR_STRING_TOO_LONG || e==ERR_OUT_OF_MEMORY){ if (n<=245) mc_fail("refused: %s",errname(e)); mc_outcome(1); return; }
	if (e!=ERR_OUT_OF_DATA) mc_fail("error is %s",errname(e));
	if (sys_num("I")!=nit<<12) mc_fail("%d items delivered, expected %d",sys_num("I")>>12,nit);
	struct named_var* v=sys_find("R",VAR_STRING|VAR_ARRAY); for (int i=0;i<nit;++i){ u8 g[600]; int l=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,g); if (l!=its[i].n||memcmp(g,its[i].t,l)) mc_fail("item %d is \"%.*s\"",i,l,g); }
	mc_state(mc_mix(n,kind)); mc_nontrivial(n*8+kind*2+pre);
}
static void s_many(void){
	int lines=1+mc_range(mc_thorough?200:60), per=1+mc_choose(6), lb=mc_range(4); sys_reset(); setmode(lines%3); mc_desc("%d lines of %d items",lines,per);
	static char b[70000]; int n=0; b[0]=0; char* q=b; q+=sprintf(q,"DIM R(2000)\rI=0\r"); int at=lines*lb/4;
	for (int i=0;i<lines;++i){ if (i==at) q+=sprintf(q,"@MID\r"); if (i%3==1) q+=sprintf(q,"A$=\"D\":"); q+=sprintf(q,"DATA "); for (int j=0;j<per;++j) q+=sprintf(q,"%s%d",j?", ":"",n++); q+=sprintf(q,"\r"); }
	q+=sprintf(q,"FOR I=1 TO %d:READ R(I):NEXT\rRESTORE @MID\rREAD M\rIF M!=%d THEN PRINT 1/0\r@LP\rREAD N:C=C+1:GOTO @LP\r",n,at*per);
	int e=sys_run(b,opts()); if (e!=ERR_OUT_OF_DATA) mc_fail("error is %s",errname(e)); mc_validated(n);
	union value* r=arr_entry(sys_find("R",VAR_NUMBER|VAR_ARRAY)->value.ptr,0,0); for (int i=0;i<n;++i) if (r[i+1].number!=i<<12) mc_fail("item %d is %d/4096",i,r[i+1].number);
	if (sys_num("C")!=(n-at*per-1)<<12) mc_fail("%d items after RESTORE",sys_num("C")>>12); mc_state(n*4+lb); mc_nontrivial(lines*24+per*4+lb);
}
// ---- RESTORE arguments
static void s_restore(void){
	static const char* const arg[]={"@A","@AB","@A_","@B","@ABC","@C","\"@A\"","\"@AB\"","L$","L$+\"B\"","\"@\"+\"B\"","M$","\"\"","\"A\"","\"@Q\"","@Q","@","L$+M$"};
	static const char* const to[]={"@A","@AB","@A_","@B","@ABC","@C","@A","@AB","@A","@AB","@B","@ABC","","","","","","@A"};
	int a=mc_choose(18), adv=mc_choose(4), order=mc_choose(6); sys_reset(); setmode(mc_choose(3)); start();
	static const char* const nm[]={"@A","@AB","@A_","@B"}; int first[6]={-1,-1,-1,-1,-1,-1}; 
	addl("DATA s0,s1,s2,s3"); nit=parse("s0,s1,s2,s3",its); addl("L$=\"@A\":M$=\"@ABC\":M$=LEFT$(M$,4)"); addl("B$=\"@ABC\":GOTO @GO"); 
	for (int i=0;i<4;++i){ int k=(i*(order&1?1:3)+order/2)%4; if (i==2) addl("'@C:DATA 5"); addl("%s",nm[k]); first[k]=nit; if (!(i==1 && order>3)) { char t[40]; sprintf(t,"i%d,@ABC",k); addl("DATA %s",t); nit+=parse(t,its+nit); } }
	addl("@ABC"); first[4]=nit; 
	addl("@GO"); for (int i=0;i<adv;++i) read_op("s");
	static const char* const how[]={"RESTORE %s","IF B$!=\"\" THEN RESTORE %s","IF B$==\"\" THEN A=2 ELSE RESTORE %s","IF B$!=\"\" THEN RESTORE %s:A=2 ELSE A=1","FOR I=1 TO 2:RESTORE %s:NEXT"}; char r[120]; sprintf(r,how[mc_choose(5)],arg[a]); addop("%s",r); int k=-1; for (int i=0;i<4;++i) if (!strcmp(to[a],nm[i])) k=i; if (!strcmp(to[a],"@ABC")) k=4;
	if (a==17){ addop("A=1"); failed=E_ANY+1; } else if (k<0) failed=E_ANY+1; else cur=first[k];
	read_op("s"); read_op("s"); go(0);
}
// ---- failing READ at every position, every target; nothing else changes
static void s_fail(void){
	int items=mc_choose(5), vars=1+mc_choose(4), badat=mc_choose(5), kind=mc_choose(4); sys_reset(); setmode(mc_choose(3)); start();
	static const char* const tgt[4][4]={{"N","A(1)","M","A(2)"},{"S$","A$(1)","T$","A$(2)"},{"N","S$","A(0)","A$(0)"},{"A(I)","A(I+1)","A$(I)","A$(I+1)"}};
	char d[100]="", r[200]="READ "; int bad=-1; for (int i=0;i<items;++i){ int s=strchr(tgt[kind][i],'$')!=NULL; int b=i==badat&&i<vars&&!s; if (b&&bad<0) bad=i; sprintf(d+strlen(d),"%s%s",i?",":"",b?"oops":s?"tx":"42"); }
	for (int i=0;i<vars;++i) sprintf(r+strlen(r),"%s%s",i?",":"",tgt[kind][i]);
	char b[600]; sprintf(b,"DIM A(4),A$(4):FOR I=0 TO 3:A(I)=9:A$(I)=\"o\":NEXT:I=1:N=9:M=9:S$=\"o\":T$=\"o\":K=5\r%s%s\r%s\rK=6\r",items?"DATA ":"",d,r); mc_desc("%s / %s",d,r);
	int e=sys_run(b,opts()); int ok=bad>=0?bad:items<vars?items:vars; bool fine=ok==vars; mc_validated(1);
	if (fine!=!e) mc_fail("error is %s",errname(e)); if (!fine && bad<0 && e!=ERR_OUT_OF_DATA) mc_fail("error is %s",errname(e));
	if (sys_num("K")!=(fine?6:5)<<12) mc_fail("the program went on wrongly");
	for (int q=0;q<4;++q) for (int t=0;t<4;++t){ const char* x=tgt[q][t]; if (strchr(x,'I') && kind!=3) continue; if (kind==3&&!strchr(x,'I')) continue; int s=strchr(x,'$')!=NULL, idx=-1; for (int i=0;i<ok;++i) if (!strcmp(tgt[kind][i],x)) idx=i;
		int any=0; for (int i=0;i<vars;++i) if (!strcmp(tgt[kind][i],x)) any=1; int en; char g[40]; strcpy(g,sys_eval(x,opts(),&en)); if (en) mc_fail("%s: %s",x,errname(en));
		const char* o=s?"o":"9", *nw=s?"tx":"42"; if (idx>=0 ? strcmp(g,nw) && (fine||strcmp(g,o)) : strcmp(g,o)) mc_fail("%s is %s",x,g); (void)any; }
	bool rok; sys_ref_strings(&rok); if (!rok) mc_fail("string storage is inconsistent");
	mc_state(mc_mix(items*100+vars*20+badat*4+kind,3)); mc_nontrivial(items*100+vars*20+badat*4+kind);
}
// ---- the cursor starts at the first item in every run; strings at the memory limit
static void s_again(void){
	int n=1+mc_choose(4), reads=mc_choose(5), runs=1+mc_choose(3), nl=mc_choose(2); sys_reset(); setmode(mc_choose(3)); char b[300]="C=C+1:S$=\"\"\r"; 
	for (int i=0;i<reads;++i) strcat(b,"READ A$:S$=S$+A$\r"); strcat(b,"A$=\"\":DATA "); for (int i=0;i<n;++i) sprintf(b+strlen(b),"%s%c",i?",":"",'p'+i); if (!nl) strcat(b,"\r"); mc_desc_bytes(b,strlen(b));
	int e=sys_compile(b,opts()); if (e) mc_fail("%s",errname(e)); for (int k=1;k<=runs;++k){ e=sys_go(); if (e!=(reads>n?ERR_OUT_OF_DATA:0)) mc_fail("run %d: %s",k,errname(e)); u8 g[300]; int l=sys_str("S",g), w=reads<n?reads:n; if (l!=w||memcmp(g,"pqrs",l)) mc_fail("run %d read %.*s",k,l,g); if (sys_num("C")!=k<<12) mc_fail("run %d",k); }
	mc_validated(runs); mc_state(n*100+reads*20+runs*2+nl); mc_nontrivial(n*100+reads*20+runs*2+nl);
}
static void b_few(void){ sys_boot_small(64,6,200); }
static void s_memory(void){
	int n=mc_choose(7), m=1+mc_choose(4), rep=1+mc_choose(3)*20; sys_reset(); setmode(mc_choose(3)); mc_desc("%d strings in use, %d read, %d times",n,m,rep);
	must("DIM R$(4)"); for (int i=0;i<n;++i){ int e=bas("K%d$=\"k\"+\"%d\"",i,i); if (e) mc_skip(); }
	char b[400]="FOR I=1 TO "; sprintf(b+strlen(b),"%d:RESTORE @D:READ ",rep); for (int i=0;i<m;++i) sprintf(b+strlen(b),"%sR$(%d)",i?",":"",i); strcat(b,":NEXT\r@D\rDATA aa,bb,cc,dd\r");
	int e=sys_run(b,opts()); mc_validated(n+m); if (e && e!=ERR_OUT_OF_MEMORY) mc_fail("%s",errname(e));
	if (n+m<=4 && e) mc_fail("out of memory although %d of 6 strings are in use",n+m);
	for (int i=0;i<n;++i){ char nm[4]; sprintf(nm,"K%d",i); const char* z=sys_strz(nm); char w[8]; sprintf(w,"k%d",i); if (strcmp(z,w)) mc_fail("K%d$ is %s",i,z); }
	struct named_var* v=sys_find("R",VAR_STRING|VAR_ARRAY); for (int i=0;i<4;++i){ u8 g[600]; int l=sys_strv(arr_entry(v->value.ptr,i,0)->ptr,g); if (l && (i>=m||l!=2||g[0]!="abcd"[i]||g[1]!="abcd"[i])) mc_fail("R$(%d) is \"%.*s\"",i,l,g); if (!l && !e && i<m) mc_fail("R$(%d) not read",i); }
	bool ok; if (sys_ref_strings(&ok)!=sys_live_strings()||!ok) mc_fail("string storage is inconsistent"); mc_state(n*100+m*10+rep); mc_nontrivial(n*100+m*10+rep);
}
#include "chain.h"
const mc_suite mc_suites[]={{"short",s_short,MC_QT,sys_boot},{"long",s_long,MC_QT,sys_boot},{"five",s_five,MC_T,sys_boot},{"ops",s_ops,MC_QT,sys_boot},{"text",s_text,MC_QT,sys_boot},{"numbers",s_numbers,MC_QT,sys_boot},{"lengths",s_lengths,MC_QT,b_many},{"many",s_many,MC_QT,b_many},{"restore",s_restore,MC_QT,sys_boot},{"fail",s_fail,MC_QT,sys_boot},{"again",s_again,MC_QT,sys_boot},{"memory",s_memory,MC_QT,b_few},
 {"chain",s_chain,MC_QT,b_chain}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

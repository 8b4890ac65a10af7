// C03: control flow, in lock step with a reference interpreter over the same program.
#include "sys.h"
#include <limits.h>
const char* mc_rule = "all programs of the stated number of statements over the control-flow alphabet, all loop bounds/steps, IF shapes, ON lists, call depths and label sets of the suites; expressions of 1 to 46 terms (any operand size) as loop end, step, condition and list index; a program is non-trivial when it executes at least one jump, loop or branch, counted by program text";
enum { TR, LET, INC, FOR, NEXT, GOTO, GOSUB, RETURN, IF, ELSE, ENDIF, ON, END, STOP, LABEL, BADOP };
typedef struct { int k; fixp c; int v; } EX;               // k=0 constant c, 1 variable v, 2 var<const, 3 var==const
typedef struct { int op; bool first; int v; EX a, b, s; bool hass, hasv; char lab[20]; int nl; char labs[6][20]; bool gosub; int mate; char ch; } OP;
static OP pr[256]; static int np; static sb text; static bool first_, sep_;
static const char* vn[] = {"I","J","K","C","L"};
static fixp V[8], V0[8];
static EX K(double d){ return (EX){0,fx(d),0}; }
static EX Vv(int v){ return (EX){1,0,v}; }
static EX LT(int v, int c){ return (EX){2,c*4096,v}; }
static EX EQ(int v, int c){ return (EX){3,c*4096,v}; }
static void num(fixp f){ if (f%4096==0) sb_add(&text,"%d",f/4096); else sb_add(&text,"%s%.12g",f<0?"-":"",(f<0?-(double)f:f)/4096.0); }
static void ext(EX e){ switch (e.k){ case 0: num(e.c); break; case 1: sb_add(&text,"%s",vn[e.v]); break; case 2: sb_add(&text,"%s<",vn[e.v]); num(e.c); break; default: sb_add(&text,"%s==",vn[e.v]); num(e.c); } }
static fixp ev(EX e){ switch (e.k){ case 0: return e.c; case 1: return V[e.v]; case 2: return (V[e.v]<e.c)*4096; default: return (V[e.v]==e.c)*4096; } }
static void P0(void){ np=0; sb_init(&text); first_=true; sep_=false; memset(pr,0,sizeof pr); }
static void sep(void){ if (sep_) sb_add(&text,":"); sep_=true; }
static OP* add(int op){ OP* o=&pr[np++]; o->op=op; o->first=first_; first_=true; return o; }
static void eol(void){ sb_add(&text,"\r"); sep_=false; first_=true; }
static void tr(char c){ sep(); OP* o=add(TR); o->ch=c; sb_add(&text,"T$=T$+\"%c\"",c); }
static void let(int v, EX e){ sep(); OP* o=add(LET); o->v=v; o->a=e; sb_add(&text,"%s=",vn[v]); ext(e); }
static void inc(int v, fixp d){ sep(); OP* o=add(INC); o->v=v; o->a=(EX){0,d,0}; sb_add(&text,"%s=%s%s",vn[v],vn[v],d<0?"":"+"); num(d); }
static void for_(int v, EX a, EX b, bool hs, EX s){ sep(); OP* o=add(FOR); o->v=v;o->a=a;o->b=b;o->hass=hs;o->s=s; sb_add(&text,"FOR %s=",vn[v]); ext(a); sb_add(&text," TO "); ext(b); if (hs){ sb_add(&text," STEP "); ext(s);} }
static void next(int v){ sep(); OP* o=add(NEXT); o->hasv=v>=0; o->v=v; sb_add(&text,"NEXT"); if (v>=0) sb_add(&text," %s",vn[v]); }
static void go(bool gosub, const char* l){ sep(); OP* o=add(gosub?GOSUB:GOTO); strcpy(o->lab,l); sb_add(&text,"%s %s",gosub?"GOSUB":"GOTO",l); }
static void simple(int op, const char* t){ sep(); add(op); sb_add(&text,"%s",t); }
static int find(const char*);
static void lbl(const char* l){ sep(); bool dup=find(l)>=0; OP* o=add(dup?BADOP:LABEL); strcpy(o->lab,l); sb_add(&text,"%s",l); }
static int if_(EX c){ sep(); OP* o=add(IF); o->a=c; o->mate=-1; sb_add(&text,"IF "); ext(c); return np-1; }
static void then(void){ sb_add(&text," THEN "); sep_=false; first_=false; }
static int else_(int i){ if (pr[i].mate<0) pr[i].mate=np; OP* o=add(ELSE); o->mate=-1; sb_add(&text," ELSE "); sep_=false; first_=false; return np-1; }
static void onlabel(const char* l){ OP* o=add(GOTO); strcpy(o->lab,l); sb_add(&text,"%s",l); sep_=true; }   // THEN @L / ELSE @L
static void ifgoto(const char* l){ OP* o=add(GOTO); strcpy(o->lab,l); sb_add(&text," GOTO %s",l); sep_=true; }
static void endif(void){ int e=np; add(ENDIF); for (int i=0;i<e;++i) if ((pr[i].op==IF||pr[i].op==ELSE)&&pr[i].mate==-1) pr[i].mate=e; first_=true; }
static void ieol(void){ endif(); eol(); }
static void on(EX e, bool gosub, int n, const char* const* ls){ sep(); OP* o=add(ON); o->a=e; o->gosub=gosub; o->nl=n; sb_add(&text,"ON "); ext(e); sb_add(&text," %s ",gosub?"GOSUB":"GOTO"); for (int i=0;i<n;++i){ strcpy(o->labs[i],ls[i]); sb_add(&text,"%s%s",i?",":"",ls[i]); } }
// ---- reference interpreter
typedef struct { bool sub; int v, pc; } CE;
static CE cs[300]; static int nc; static char T[300]; static int nT; static int rerr, free_; static int jumps; static long steps;
static int find(const char* l){ for (int i=0;i<np;++i) if (pr[i].op==LABEL && !strcmp(pr[i].lab,l)) return i; return -1; }
static bool done_(fixp v, fixp end, fixp st){ return (st<0 && end>v) || (st>=0 && end<v); }
static void jump(int* pc, const char* l){ int t=find(l); ++jumps; if (t<0){ rerr=ERR_LABEL_NOT_FOUND; return; } *pc=t; }
static void ref(void){
	nc=nT=rerr=jumps=0; free_=-1; steps=0; memcpy(V,V0,sizeof V);
	int pc=0;
	while (pc<np && !rerr){
		OP* o=&pr[pc++]; ++steps;
		switch (o->op){
			case TR: if (nT==256){ rerr=ERR_STRING_TOO_LONG; break; } T[nT++]=o->ch; break;
			case LET: V[o->v]=ev(o->a); break;
			case INC: { int64_t x=(int64_t)V[o->v]+o->a.c; if (x>INT_MAX||x<INT_MIN) rerr=ERR_OVERFLOW; else V[o->v]=x; break; }
			case FOR: {
				++jumps;
				V[o->v]=ev(o->a);
				if (nc==255){ rerr=ERR_OUT_OF_MEMORY; free_=o->v; break; }   // whether the failed FOR set its variable is not specified
				fixp end=ev(o->b), st=o->hass?ev(o->s):4096;
				if (!done_(V[o->v],end,st)){ cs[nc++]=(CE){false,o->v,pc-1}; break; }
				int nest=1;
				while (nest){
					while (pc<np && !(pr[pc].first && (pr[pc].op==NEXT||pr[pc].op==FOR))) ++pc;
					if (pc==np){ rerr=ERR_FOR_WITHOUT_NEXT; break; }
					OP* n=&pr[pc++];
					if (n->op==FOR) ++nest;
					else if (!n->hasv) --nest;
					else if (n->v==o->v) nest=0;
					else if (nest>1) --nest;
				}
				break; }
			case NEXT: {
				++jumps;
				int i=nc-1; while (i>=0 && (cs[i].sub || (o->hasv && cs[i].v!=o->v))) --i;
				if (i<0){ rerr=ERR_NEXT_WITHOUT_FOR; break; }
				OP* f=&pr[cs[i].pc]; int v=cs[i].v;
				fixp end=ev(f->b), st=f->hass?ev(f->s):4096;
				int64_t x=(int64_t)V[v]+st; if (x>INT_MAX||x<INT_MIN){ rerr=ERR_OVERFLOW; break; }
				V[v]=x;
				if (done_(V[v],end,st)){ memmove(cs+i,cs+i+1,(nc-i-1)*sizeof *cs); --nc; } else pc=cs[i].pc+1;
				break; }
			case GOTO: jump(&pc,o->lab); break;
			case GOSUB: { int r=pc; jump(&pc,o->lab); if (rerr) break; if (nc==255){ rerr=ERR_OUT_OF_MEMORY; break; } cs[nc++]=(CE){true,0,r}; break; }
			case RETURN: { ++jumps; int i=nc-1; while (i>=0 && !cs[i].sub) --i; if (i<0){ rerr=ERR_RETURN_WITHOUT_GOSUB; break; } pc=cs[i].pc; nc=i; break; }
			case IF: ++jumps; if (!ev(o->a)) pc=o->mate+1; break;
			case ELSE: while (pr[pc].op!=ENDIF) ++pc; break;
			case ON: { ++jumps; int k=(int)(ev(o->a)>>12); if (k<0||k>=o->nl) break; if (!o->labs[k][0]){ rerr=ERR_SYNTAX; break; }
				int r=pc; jump(&pc,o->labs[k]); if (rerr||!o->gosub) break; if (nc==255){ rerr=ERR_OUT_OF_MEMORY; break; } cs[nc++]=(CE){true,0,r}; break; }
			case END: pc=np; break;
			case STOP: rerr=ERR_BREAK; break;
			case BADOP: rerr=ERR_LABEL_ADD_FAILURE; break;
		}
	}
}
static int opts_;
static void check(void){
	for (int i=0;i<5;++i) V0[i]=0;
	ref();
	mc_desc("%s",text.s);
	char src[5000]; snprintf(src,sizeof src,"T$=\"\":I=0:J=0:K=0:C=0:L=0\r%s",text.s);
	sys_reset();
	int e=sys_run(src,opts_);
	uint64_t h=mc_hash(text.s,text.n);
	mc_state(h); if (jumps) mc_nontrivial(h);
	mc_outcome(mc_mix(mc_hash(T,nT),rerr)); mc_trans(steps); mc_validated(1+nT);
	u8 got[600]; int gl=sys_str("T",got);
	if (e!=rerr) mc_fail("ended with \"%s\", expected \"%s\" (trace \"%.*s\", expected \"%.*s\")",errname(e),errname(rerr),gl,got,nT,T);
	if (gl!=nT||memcmp(got,T,nT)) mc_fail("executed \"%s\", expected \"%.*s\"",got,nT,T);
	for (int i=0;i<5;++i) if (i!=free_ && sys_num(vn[i])!=V[i]) mc_fail("%s=%d/4096, expected %d/4096",vn[i],sys_num(vn[i]),V[i]);
}
// ---- statement soup
static const char* const LB[]={"@A","@B"}; static const char* const LC[]={"@B","@S","@A"};
#define NT 30
static void stmt(int t, int pos){
	char c='0'+pos;
	switch (t){
		case 0: tr(c); for_(0,K(0),K(2),0,K(1)); break;
		case 1: tr(c); for_(1,K(2),K(0),1,K(-1)); break;
		case 2: tr(c); for_(0,K(3),K(1),0,K(1)); break;
		case 3: tr(c); for_(1,K(0),Vv(0),0,K(1)); break;
		case 4: tr(c); next(-1); break;
		case 5: tr(c); next(0); break;
		case 6: tr(c); next(1); break;
		case 7: lbl("@A"); tr(c); break;
		case 8: lbl("@B"); tr(c); break;
		case 9: tr(c); go(true,"@A"); break;
		case 10: tr(c); go(false,"@B"); break;
		case 11: tr(c); simple(RETURN,"RETURN"); break;
		case 12: { inc(3,4096); tr(c); if_(LT(3,3)); then(); onlabel("@A"); ieol(); return; }
		case 13: { int i=if_(EQ(0,1)); then(); tr(c); else_(i); tr(c+32); ieol(); return; }
		case 14: { tr(c); on(Vv(0),true,2,LB); break; }
		case 15: { tr(c); inc(3,4096); on(Vv(3),false,2,LB); break; }
		case 16: tr(c); simple(END,"END"); break;
		case 17: { int i=if_(LT(3,3)); ifgoto("@B"); else_(i); tr(c); ieol(); return; }
		case 18: { tr(c); int i=if_(LT(0,1)); then(); next(-1); else_(i); tr(c+32); ieol(); return; }
		case 19: { tr(c); int i=if_(LT(3,1)); then(); inc(3,4096); go(true,"@A"); else_(i); onlabel("@B"); ieol(); return; }
		case 20: tr(c); inc(3,4096); break;
		case 21: tr(c); go(true,"@S"); tr(c+32); break;
		case 22: tr(c); next(0); tr(c+32); next(1); break;
		case 23: tr(c); for_(1,K(0),K(1),0,K(1)); tr(c+32); next(1); break;
		case 24: tr(c); for_(1,K(1),K(0),0,K(1)); tr(c+32); next(-1); break;
		case 25: tr(c); simple(STOP,"STOP"); break;
		case 26: { tr(c); int i=if_(EQ(3,0)); then(); simple(RETURN,"RETURN"); else_(i); simple(END,"END"); ieol(); return; }
		case 27: tr(c); for_(2,K(0),K(1),0,K(1)); break;
		case 28: tr(c); on(Vv(3),true,3,LC); break;
		default: tr(c); let(0,K(5)); break;
	}
	eol();
}
static const int qsel[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,15,18,19,21};
static void tail(void){ tr('z'); simple(END,"END"); eol(); lbl("@S"); tr('s'); simple(RETURN,"RETURN"); eol(); }
static void soup(int n, int nt, const int* sel){
	P0();
	for (int i=0;i<n;++i){ int t=mc_choose(nt); stmt(sel?sel[t]:t,i); }
	tail();
	check();
}
static void s_soup3(void){ soup(3,NT,NULL); }
static void s_soup4(void){ if (mc_thorough) soup(4,NT,NULL); else soup(4,18,qsel); }
static const int fsel[]={0,1,2,3,4,5,6,13,23,18}, gsel[]={7,8,9,10,11,12,14,19,21,4,0};
static void s_soup5f(void){ soup(mc_thorough?6:5,mc_thorough?8:7,fsel); }
static void s_soup5g(void){ soup(5,mc_thorough?11:7,gsel); }
static void s_soupid(void){ opts_=TOKOPT_VARIABLE_IDS; soup(3,NT,NULL); }
static void s_soupnl(void){ opts_=TOKOPT_NO_LABELS; soup(3,NT,NULL); }
// ---- loops: every start/end/step, every NEXT style, nesting, early exits; what is left on the stack afterwards
static void probe(int p){ if (p==1){ next(-1); eol(); } else if (p==2){ simple(RETURN,"RETURN"); eol(); } else if (p==3){ next(0); eol(); } }
static void s_loop1(void){
	static const double st[]={0,1,2,-1,0.5,-0.5,0.1,1.5,0.000244140625,-2,100,524287,-524287};
	static const double vs[]={0,1,-1,2,3,-3,0.5,-0.5,2.25,0.3,-2.75};
	int a=mc_choose(11), b=mc_choose(11), s=mc_choose(14), style=mc_choose(7), pb=mc_choose(4);
	bool hs=s<13; 
	if (hs && s==8 && (b!=a)) { /* tiny step: only short ranges terminate early; the trace limit ends the rest */ }
	P0(); opts_ = style==6 ? TOKOPT_VARIABLE_IDS : 0;
	EX A=K(vs[a]), B=K(vs[b]), S=K(hs?st[s]:1);
	if (style==5){ let(1,B); let(2,S); eol(); B=Vv(1); if (hs) S=Vv(2); }
	for_(0,A,B,hs,S);
	if (style==0||style==5||style==6){ eol(); tr('b'); eol(); next(-1); eol(); }
	else if (style==1){ eol(); tr('b'); eol(); next(0); eol(); }
	else if (style==2){ tr('b'); next(-1); tr('x'); eol(); }
	else if (style==3){ tr('b'); eol(); next(0); tr('x'); eol(); }
	else { eol(); int i=if_(EQ(0,1)); then(); go(false,"@X"); ieol(); tr('b'); eol(); next(0); eol(); lbl("@X"); eol(); }
	tr('e'); eol(); probe(pb);
	check();
}
// the loop end and step are evaluated again on every NEXT; body changes them
static void s_dynamic(void){
	int b=mc_choose(5)-1, s=mc_choose(4)-1, db=mc_choose(4)-2, ds=mc_choose(3)-1, di=mc_choose(4)-2, nx=mc_choose(2);
	P0(); opts_=0; let(1,K(b)); let(2,K(s)); eol();
	for_(0,K(0),Vv(1),1,Vv(2)); eol();
	tr('b'); if (db) inc(1,db*4096); if (ds) inc(2,ds*4096); if (di) inc(0,di*4096); eol();
	next(nx?0:-1); eol(); tr('e'); eol(); next(-1); eol();
	check();
}
static void s_loop2(void){
	// two (three) nested loops, every combination of bounds, NEXT styles and exits
	static const int rg[][3]={{0,1,1},{1,0,1},{0,2,1},{1,0,-1},{0,1,-1},{0,0,1}};
	int depth=mc_thorough?2+mc_choose(2):2; P0(); opts_=mc_choose(2)?TOKOPT_VARIABLE_IDS:0;
	int style=mc_choose(4), exitk=mc_choose(5);
	for (int d=0;d<depth;++d){ int r=mc_choose(6); for_(d,K(rg[r][0]),K(rg[r][1]),rg[r][2]!=1||mc_choose(2),K(rg[r][2])); eol(); tr('a'+d); eol(); }
	switch (exitk){
		case 1: { if_(EQ(1,1)); then(); next(1); ieol(); break; }
		case 2: { if_(EQ(1,1)); then(); next(0); ieol(); break; }
		case 3: { if_(EQ(0,1)); then(); onlabel("@X"); ieol(); break; }
		case 4: { go(true,"@S"); eol(); break; }
	}
	if (style==0) for (int d=depth;d--;){ next(-1); eol(); tr('n'+d); eol(); }
	else if (style==1) for (int d=depth;d--;){ next(d); eol(); tr('n'+d); eol(); }
	else if (style==2) for (int d=depth;d--;){ next(d?d:-1); eol(); tr('n'+d); eol(); }
	else { for (int d=depth;d--;) next(d?-1:0); eol(); }
	lbl("@X"); tr('e'); eol();
	int pb=mc_choose(3); probe(pb); simple(END,"END"); eol();
	lbl("@S"); tr('s'); simple(RETURN,"RETURN"); eol();
	check();
}
// ---- IF shapes
static void branch(int k, char c, int n){ // statements after THEN/ELSE
	switch (k){
		case 0: tr(c); break;
		case 1: onlabel("@X"); break;
		case 2: go(false,"@X"); break;
		case 3: go(true,"@S"); break;
		case 4: tr(c); tr(c+1); break;
		case 5: go(true,"@S"); tr(c); break;
		case 6: tr(c); go(true,"@S"); tr(c+1); break;
		case 7: simple(END,"END"); break;
		case 8: tr(c); go(false,"@X"); break;
		case 9: { static const char* const l[]={"@X","@Y"}; on(K(1),n&1,2,l); tr(c); break; }
		case 10: let(3,K(7)); tr(c); break;
	}
}
static void s_if(void){
	int cond=mc_choose(4), th=mc_choose(12), el=mc_choose(13), fol=mc_choose(4);
	P0(); opts_=0;
	static const double cv[]={0,1,-1,0.000244140625};
	if (fol&2) { tr('p'); }       // IF not first on its line
	EX c = K(cv[cond]); if (fol==1){ let(3,c); eol(); c=Vv(3); }
	int i=if_(c);
	if (th==11) ifgoto("@X"); else { then(); branch(th,'a',0); }
	if (el<11){ else_(i); branch(el,'c',1); }
	else if (el==12){ else_(i); int j=if_(EQ(3,0)); then(); tr('f'); else_(j); tr('g'); }
	ieol();
	tr('m'); eol(); if (fol==3){ int k=if_(K(1)); then(); tr('q'); else_(k); tr('r'); ieol(); int l=if_(K(0)); then(); tr('q'); else_(l); tr('r'); ieol(); }
	lbl("@Y"); tr('y'); eol();
	lbl("@X"); tr('x'); simple(END,"END"); eol(); lbl("@S"); tr('s'); simple(RETURN,"RETURN"); eol();
	check();
}
// IF line followed by comment forms, and consecutive IF lines without ELSE
static void s_if2(void){
	int c1=mc_choose(2), c2=mc_choose(2), c3=mc_choose(2), form=mc_choose(7), e1=mc_choose(2), e2=mc_choose(2);
	P0(); opts_=0;
	int i=if_(K(c1)); then(); tr('a'); if (e1){ else_(i); tr('b'); }
	switch (form){ case 0: break; case 1: sb_add(&text,":REM X ELSE ENDIF"); break; case 2: sb_add(&text,"'ELSE"); break; case 3: sb_add(&text,":REM"); break; case 4: sb_add(&text,":"); break; case 5: sb_add(&text," 'x"); break; case 6: sb_add(&text,":DATA 1,ELSE"); break; }
	ieol();
	i=if_(K(c2)); then(); tr('c'); if (e2){ else_(i); tr('d'); } ieol();
	i=if_(K(c3)); then(); tr('e'); int j=if_(K(c2)); then(); tr('f'); if (c3){ else_(j); tr('g'); } (void)i; ieol();
	tr('h'); eol();
	check();
}
// ---- ON lists
static void s_on(void){
	static const double xs[]={-1,-0.5,0,0.5,0.999755859375,1,1.999755859375,2,3,4,5,100,524287,-524287};
	int x=mc_choose(14), gs=mc_choose(2), n=1+mc_choose(4), inner=mc_choose(4), miss=mc_choose(6);
	static const char* const L[]={"@P","@Q","@R","@P"};
	P0(); opts_=0;
	if (miss==4){ for_(0,K(0),K(1),0,K(1)); eol(); }
	if (miss==5){ int i=if_(K(1)); then(); (void)i; }
	tr('o'); on(K(xs[x]),gs,n,L);
	if (inner==1) tr('t'); if (miss==5) endif(); eol(); tr('u'); eol();
	if (miss==4){ next(-1); eol(); tr('v'); eol(); }
	simple(END,"END"); eol();
	for (int k=0;k<3;++k){ if (miss==k+1) continue; char l[4]={'@','P'+k,0}; lbl(l); tr('1'+k); if (inner==2){ go(true,"@S"); }
		if (inner==3){ for_(1,K(0),K(1),0,K(1)); tr('l'); }
		simple(gs?RETURN:END,gs?"RETURN":"END"); eol(); }
	lbl("@S"); tr('s'); simple(RETURN,"RETURN"); eol();
	check();
}
// ---- depth of calls and loops
static void s_depth(void){
	static const int lim[]={1,2,16,100,253,254,255,256,257,300};
	int k=mc_choose(10), kind=mc_choose(4);
	char src[400]; int n=lim[k], want;
	sys_reset();
	switch (kind){
		case 0: sprintf(src,"N=0:M=0\rGOSUB @S\rEND\r@S\rN=N+1\rIF N<%d THEN GOSUB @S\rM=M+1\rRETURN\r",n); want = n<=255?0:ERR_OUT_OF_MEMORY; break;
		case 1: sprintf(src,"N=0:M=0\r@L\rN=N+1\rFOR I=1 TO 5\rIF N<%d GOTO @L\rM=%d\r",n,n); want = n<=255?0:ERR_OUT_OF_MEMORY; break;
		case 2: sprintf(src,"N=0:M=0\rFOR J=1 TO %d\rN=N+1\rFOR I=3 TO 1\rNEXT\rM=M+1\rNEXT\r",n*3); n*=3; want=0; break;
		default: sprintf(src,"N=0:M=0\rFOR J=1 TO %d\rN=N+1\rGOSUB @S\rM=M+1\rNEXT\rEND\r@S\rFOR K=0 TO 9\rFOR L=0 TO 9\rRETURN\r",n*3); n*=3; want=0; break;
	}
	mc_desc("%s",src);
	int e=sys_run(src,0);
	mc_state(mc_mix(kind,n)); mc_nontrivial(mc_mix(kind,n)); mc_validated(1);
	if (e!=want) mc_fail("ended with \"%s\", expected \"%s\" (N=%d)",errname(e),errname(want),sys_num("N")>>12);
	int wn = want ? (kind?256:255) : n, wm = want ? 0 : n;
	if (sys_num("N")!=wn*4096||sys_num("M")!=wm*4096) mc_fail("N=%d M=%d, expected %d %d",sys_num("N")>>12,sys_num("M")>>12,wn,wm);
	// the next program starts afresh
	if (sys_run("NEXT\r",0)!=ERR_NEXT_WITHOUT_FOR) mc_fail("loops survive the end of the program");
	if (sys_run("RETURN\r",0)!=ERR_RETURN_WITHOUT_GOSUB) mc_fail("calls survive the end of the program");
}
// ---- loops and calls stacked to every height; then NEXT of a loop at the top, in the middle or at the bottom, twice
static void s_deepnext(void){
	int D=mc_choose(254)+1, fill=mc_choose(2), s1=mc_choose(6), s2=mc_choose(5), mid=mc_choose(3);
	if (!mc_thorough && D>8 && D<190 && D%16>2) mc_skip();
	P0();
	for_(0,K(1),K(2),0,K(1)); tr('i'); eol();                 // I at the bottom
	lbl("@S"); inc(3,4096); eol();
	if (mid){ if_(EQ(3,mid==1?D/2:D)); then(); for_(1,K(1),K(3),0,K(1)); ieol(); }   // J in the middle
	if (fill) { for_(4,K(1),K(9),0,K(1)); eol(); }
	{ if_(LT(3,D)); if (fill) ifgoto("@S"); else { then(); go(true,"@S"); } ieol(); }
	for_(2,K(1),K(2),1,K(1)); tr('k'); eol();
	next(s1-1); eol(); tr('x'); eol();
	next(s2-1); eol(); tr('y'); eol();
	check();
}
// ---- labels: every pair of names, jumping by literal or by string, definition order
static void s_labels(void){
	static const char* nm[]={"A","a","B","AB","BA","ABC","ABD","A1","1A","_","A_","ABCDEFGHIJKLMNOP","ABCDEFGHIJKLMNOQ","ABCDEFGHIJKLMNO","bcdefghijklmnopq","AA","AAA"};
	int N=17; int a=mc_choose(N), b=mc_choose(N), c=mc_choose(N), how=mc_choose(5), dup=0;
	char src[700], v[64];
	const char* t = nm[c];
	// labels are compared ignoring nothing: exact spelling
	char up[3][20]; const char* q[3]={nm[a],nm[b],nm[c]}; for (int i=0;i<3;++i){ int j=0; for (;q[i][j];++j) up[i][j]=q[i][j]; up[i][j]=0; }
	dup = !strcmp(up[0],up[1]);
	switch (how){ case 0: sprintf(v,"GOTO @%s",t); break; case 1: sprintf(v,"L$=\"@%s\":GOTO L$",t); break; case 2: sprintf(v,"IF 1 THEN @%s",t); break; case 3: sprintf(v,"GOTO \"@\"+\"%s\"",t); break; default: sprintf(v,"ON 1 GOSUB @%s,@%s",nm[a],t); }
	sprintf(src,"R=0\r%s\rR=9\rEND\r@%s\rR=1:END\r@%s\rR=2:END\r",v,nm[a],nm[b]);
	mc_desc("%s",src);
	sys_reset(); int e=sys_run(src,0);
	mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src))); mc_validated(1);
	(void)dup; // defined twice: the first definition counts, the second is an error when reached
	int want = !strcmp(up[2],up[0])?1:!strcmp(up[2],up[1])?2:0;
	if (!want){ if (e!=ERR_LABEL_NOT_FOUND) mc_fail("jump to undefined label: \"%s\", R=%d",errname(e),sys_num("R")>>12); return; }
	if (e) mc_fail("jump to a defined label: \"%s\"",errname(e));
	if (sys_num("R")!=want*4096) mc_fail("jumped to label %d, expected %d",sys_num("R")>>12,want);
}
// jump targets given by strings of every length
static void s_labstr(void){
	int n=mc_choose(24), at=mc_choose(3), how=mc_choose(3);
	char l[64]=""; if (at==0) strcpy(l,"@"); else if (at==1) strcpy(l,""); else strcpy(l,"#");
	int k=strlen(l); for (int i=0;i<n;++i) l[k+i]='A'; l[k+n]=0;
	char src[300]; 
	sprintf(src,"R=0:X$=\"%s\"\r%s\rR=9\rEND\r@AAAAA\rR=1:END\r",l,how==0?"GOTO X$":how==1?"GOSUB X$":"IF 1 THEN GOTO X$");
	mc_desc("%s",src); sys_reset(); int e=sys_run(src,0);
	mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src))); mc_validated(1);
	if (at==0 && n==5){ if (e||sys_num("R")!=4096) mc_fail("jump by string failed: %s",errname(e)); return; }
	if (at!=0) { if (e && e!=ERR_LABEL_NOT_FOUND) mc_fail("got \"%s\"",errname(e)); if (!e && sys_num("R")!=4096) mc_fail("R=%d",sys_num("R")>>12); return; }
	if (e!=ERR_LABEL_NOT_FOUND) mc_fail("jump to an undefined label by string: got \"%s\" R=%d",errname(e),sys_num("R")>>12);
	if (sys_run("R=5\r",0)||sys_num("R")!=5*4096) mc_fail("the following program does not run");
}
// many labels: all found, or the program is refused
static void s_manylabels(void){
	static const int ns[]={1,31,32,33,60,63,64,65,100,127,128};
	int k=mc_choose(11), pat=mc_choose(3); int n=ns[k];
	static char src[16384]; int m=sprintf(src,"R=0:S=0:N=0\r@LOOP\rN=N+1:IF N>%d THEN END\r",n);
	m+=sprintf(src+m,"IF N==0 THEN END\rL$=\"@%s\"+STR$(N)\rGOSUB L$\rIF R!=N THEN S=S+1\rGOTO @LOOP\r",pat==0?"":pat==1?"L":"AVERYLONGLBL");
	for (int i=1;i<=n;++i) m+=sprintf(src+m,"@%s%d\rR=%d:RETURN\r",pat==0?"":pat==1?"L":"AVERYLONGLBL",i,i);
	mc_desc("%d labels",n);
	sys_reset(); int e=sys_run(src,0);
	mc_state(mc_mix(n,pat)); mc_nontrivial(mc_mix(n,pat)); mc_validated(n);
	if ((e==ERR_LABEL_ADD_FAILURE||e==ERR_LABEL_NOT_FOUND) && n+1 > sys_cfg.labels) return; // table full is a clean refusal
	if (e) mc_fail("%d labels: \"%s\"",n,errname(e));
	if (sys_num("S")||sys_num("N")!=(n+1)*4096) mc_fail("%d labels: %d jumps went wrong, N=%d",n,sys_num("S")>>12,sys_num("N")>>12);
}
// a label table filled with all beginnings of some words, or with names that differ in one character
static void s_labalike(void){
	static const char* const w[]={"AAAAAAAAAAAAAAAA","QBCDEFGHIJKLMNOP","PPPPPPPPPPPPPPPP","_1234567890_____","zyxwvutsrqponmlk","AAAAAAAABBBBBBBB","QBCDEFGZYXWVUTSR","1111111111111111"};
	int L=mc_range(17), p=mc_choose(16), first=mc_choose(8), ord=mc_choose(4), how=mc_choose(2), full=mc_choose(2); if (L?p>=L:p>3) mc_skip();
	enum { CAP=64 }; char n[CAP][20]; int c=0;
	if (L) for (int i=0;i<38;++i){ strcpy(n[c],w[first]); n[c][L]=0; n[c][p]="ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789a"[i]; ++c; }
	else for (int k=0;k<4;++k) for (int l=1;l<=16;++l){ strcpy(n[c],w[(first+k*(p+1))%8]); n[c][l]=0; ++c; }
	int m=0; for (int i=0;i<c;++i){ int d=0; for (int j=0;j<m;++j) d|=!strcmp(n[i],n[j]); if (!d){ if (m!=i) strcpy(n[m],n[i]); ++m; } }
	if (!full) m=m*2/3;
	int q[CAP]; for (int i=0;i<m;++i) q[i]=ord==0?i:ord==1?m-1-i:i; if (ord>=2) for (int i=0;i<m;++i){ int j=(i*(ord==2?7:29)+3)%m, t=q[i]; q[i]=q[j]; q[j]=t; }
	static char src[16384]; int z=sprintf(src,"S=0\r"); for (int i=0;i<m;++i) z+=how?sprintf(src+z,"L$=\"@%s\":GOSUB L$\rS=S+(R!=%d)\r",n[i],i):sprintf(src+z,"GOSUB @%s\rS=S+(R!=%d)\r",n[i],i);
	z+=sprintf(src+z,"END\r"); for (int k=0;k<m;++k) z+=sprintf(src+z,"@%s\rR=%d:RETURN\r",n[q[k]],q[k]);
	mc_desc("%d labels: word %d length %d position %d order %d by %s",m,first,L,p,ord,how?"string":"name"); sys_reset(); int e=sys_run(src,0);
	mc_validated(m); mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src)));
	if (e) mc_fail("\"%s\"",errname(e)); if (sys_num("S")) mc_fail("%d jumps went to another label",sys_num("S")>>12);
}
// ON is followed by GOTO or GOSUB and by nothing else
static void s_onbad(void){
	static const char* const st[]={"RETURN","END","STOP","PRINT 1","?","CLS","X=5","X=5:GOTO @L","NEXT","NEXT I","READ X","RESTORE @L","IF 1 THEN X=1","IF 1 GOTO @L","FOR I=0 TO 1","WAIT 1","@L","\"@L\"","THEN @L","ON 0 GOTO @L","CLEAR","SWAP X,Y","DIM Q(3)","","REM","DATA 1","GOTO","GOSUB","GOTO 1","GOSUB X","X GOTO @L",",1 GOTO @L","PRINT 1 GOTO @L","ELSE GOTO @L","ENDIF"};
	static const char* const v[]={"0","1","5","-1","Y","Z(1)","Y==0","(Y)","LEN(\"a\")"}; static const char* const ctx[]={"%s\r","GOSUB @S:END\r@S\r%s\r","FOR J=0 TO 0\r%s\rNEXT\r","IF 1 THEN %s\r","GOSUB @S:END\r@S\rX=0:%s\r"};
	int k=mc_range(sizeof st/sizeof*st), w=mc_choose(9), c=mc_choose(5), o=mc_choose(2); char l[120],src[400]; sprintf(l,"ON %s %s",v[w],st[k]); int n=sprintf(src,"X=1:Y=0\r"); n+=sprintf(src+n,ctx[c],l); sprintf(src+n,"Y=7:END\r@L\rY=8\r");
	mc_desc("%s",src); sys_reset(); int e=sys_run(src,o?TOKOPT_VARIABLE_IDS:0); mc_validated(1); mc_nontrivial(mc_hash(src,strlen(src))); mc_state(mc_hash(src,strlen(src))); mc_outcome(e);
	if (!e||e==ERR_RETURN_WITHOUT_GOSUB||e==ERR_NEXT_WITHOUT_FOR||e==ERR_LABEL_NOT_FOUND) mc_fail("ON without GOTO or GOSUB: \"%s\"",errname(e)); if (sys_num("Y")) mc_fail("the program went on to %d",sys_num("Y")>>12);
	if (sys_num("X")>4096) mc_fail("the statement after ON was executed");
}
// programs whose parts lie far apart: beyond 32, 64, 128 and 256 KB of code
static void b_far(void){ sys_cfg.bc=524288; sys_cfg.lines=10000; sys_cfg.labels=2048; sys_boot(); }
static void s_far(void){
	static const struct { const char *a,*b; int n; } st[]={ // before and after the filler; the expected N
		{"N=0:GOTO @M\r@B\rN=N+100:RETURN\r","@M\rFOR I=1 TO 3:N=N+I:NEXT\rEND\r",6},
		{"N=0:GOTO @M\r@B\rN=N+100:RETURN\r","@M\rGOSUB @S:GOSUB @B\rN=N*2\rEND\r@S\rN=N+1:RETURN\r",202},
		{"N=0:GOTO @M\r@B\rN=N+100:RETURN\r","@M\rFOR I=1 TO 2:GOSUB @S:GOSUB @B:NEXT\rEND\r@S\rN=N+1\rRETURN\r",202},
		{"N=0:GOTO @M\r@B\rN=N+1:GOTO @E\r","@M\rGOTO @B\r@E\rN=N+10\r",11},
		{"N=0:GOTO @M\r@B\rN=N+1:GOTO @E\r","@M\rL$=\"@B\":GOTO L$\r@E\rN=N+10\r",11},
		{"N=0:GOTO @M\r","@M\rFOR I=1 TO 0:N=9:NEXT:N=N+1\rFOR I=1 TO 0\rN=50\rNEXT\rN=N+2\r",3},
		{"N=0:GOTO @M\r","@M\rIF N==0 THEN N=5 ELSE N=6\rIF N==0 THEN N=N+20 ELSE N=N+30\r",35},
		{"N=0:GOTO @M\r","@M\r@L\rN=N+1: IF N<7 GOTO @L\r",7},
		{"N=0:ON 1 GOSUB @M,@S\rN=N+1000\rEND\r","@M\rN=N+7:RETURN\r@S\rN=N+1\rGOSUB @M\rRETURN\r",1008},
		{"N=0:FOR I=1 TO 0\r","NEXT\rN=N+5\r",5},
		{"N=0:FOR I=1 TO 2\r","N=N+1\rNEXT\rN=N+5\r",7},
		{"N=0:FOR I=1 TO 0\rFOR J=1 TO 2\r","NEXT J\rN=1\rNEXT I\rN=N+5\r",5},
		{"N=0:GOSUB @R:READ X:N=N+X*100\rEND\rDATA 3,4\r","@R\rREAD X:N=N+X:RESTORE @D:READ X:N=N+X*10:RESTORE @Z:READ X:N=N+X*10:RETURN\r@D\rDATA 5\r@Z\rDATA 1,2\r",263},
		{"N=0:READ X:N=X:GOTO @M\r@B\rDATA 1\r","DATA 2\r@M\rREAD X:N=N+X*10:RESTORE @B:READ X:N=N+X*100\r",121},
		{"N=0:GOTO @M\r","@M\rGOSUB @S\rN=N+1:END\r@S\rFOR I=0 TO 1\rGOSUB @T\rNEXT:RETURN\r@T\rIF I THEN N=N+10 ELSE N=N+20\rRETURN\r",31},
		{"N=0:GOTO @M\r","@M\rL$=\"@T\":GOSUB L$:ON 0 GOSUB @T\rEND\r@T\rN=N+1:FOR K=1 TO 3:NEXT:RETURN\r",2},
	};
	enum { NS=sizeof st/sizeof*st }; static const int pos[]={1024,32768,65536,131072,262144,400000}; enum { LINE=10 };
	int p=mc_range(mc_thorough?6:5), k=mc_range(NS), d=mc_range(mc_thorough?40:6), o=mc_choose(2); sys_reset(); int opt=o?TOKOPT_VARIABLE_IDS:0;
	static char src[524288]; static const char un[]="A=A+1\r"; int e=sys_compile(un,opt), u1=sys_bc()->size; if (e) mc_fail("%s",errname(e));
	int lu=u1*LINE, n=pos[p]/lu, m=sprintf(src,"%s",st[k].a); for (int i=0;i<n;++i) for (int j=0;j<LINE;++j) m+=sprintf(src+m,j<LINE-1?"A=A+1:":"A=A+1\r");
	int rest=(pos[p]-n*lu)/u1+d-(mc_thorough?20:4); for (int i=0;i<rest;++i) m+=sprintf(src+m,"A=A+1\r"); m+=sprintf(src+m,"%s",st[k].b);
	mc_desc("%d bytes of code between %s and %s",(n*LINE+(rest>0?rest:0))*u1,st[k].a,st[k].b); e=sys_run(src,opt); mc_validated(1);
	if (e) mc_fail("\"%s\"",errname(e)); if (sys_num("N")!=st[k].n*4096) mc_fail("N is %d, expected %d",sys_num("N")>>12,st[k].n);
	mc_nontrivial(mc_mix(p*100+k,d*2+o)); mc_state(mc_mix(p*100+k,d)); mc_outcome(sys_bc()->size);
}
// the whole label table of the system: 2048 names
static void s_alllabels(void){
	static const int ns[]={255,256,257,511,512,513,1023,1024,1025,2000,2046,2047,2048,2049}; static const char* const fm[]={"%d","L%d","AVERYLONGLBL%d","%d_A","Q%04d","%dZZZZZZZZZZZ"};
	int n=ns[mc_range(14)], f=mc_range(6), ord=mc_choose(2), how=mc_choose(3); static char src[524288]; int m=sprintf(src,"S=0\r"); 
	for (int i=0;i<n;++i){ char b[20]; sprintf(b,fm[f],i); m+=how==2?sprintf(src+m,"L$=\"@%s\":GOSUB L$:S=S+(R!=%d)\r",b,i):sprintf(src+m,how?"ON 0 GOSUB @%s:S=S+(R!=%d)\r":"GOSUB @%s:S=S+(R!=%d)\r",b,i); }
	m+=sprintf(src+m,"END\r"); for (int k=0;k<n;++k){ int i=ord?n-1-k:k; m+=sprintf(src+m,"@"); m+=sprintf(src+m,fm[f],i); m+=sprintf(src+m,"\rR=%d:RETURN\r",i); }
	mc_desc("%d labels %s order %d way %d",n,fm[f],ord,how); sys_reset(); int e=sys_run(src,0); mc_validated(n); mc_state(mc_mix(n*8+f,ord*3+how)); mc_nontrivial(mc_mix(n*8+f,ord*3+how)); mc_outcome(e);
	if (n>2048){ if (!e) mc_fail("more labels than there is room for were accepted"); return; }
	if (e) mc_fail("\"%s\" after %d wrong jumps",errname(e),sys_num("S")>>12); if (sys_num("S")) mc_fail("%d jumps went to another label",sys_num("S")>>12);
}
// TO and STEP are evaluated again by every NEXT: changing and failing expressions
static void s_reeval(void){
	static const char* const ts[]={"L","L*2","10/L","X(L)","3","SQR(L)","8000*L*8"}, *const ss[]={"","S","1/S","X(S)-X(S)+S","100000*S*S"};
	static const int vals[]={1,2,3,0,-1,9,77};
	int t=mc_choose(7), st=mc_choose(5), at=mc_choose(4), lv=mc_choose(7), sv=mc_choose(4), opt=mc_choose(2), ctx=mc_choose(2); // from pass `at` on: L, S
	int l0=mc_choose(2)?3:2;
	char src[500]; sprintf(src,"DIM X(9):FOR I=0 TO 8:X(I)=I:NEXT:N=0:L=%d:S=1\r%sFOR I=1 TO %s%s%s\rN=N+1:IF N==%d THEN L=%d:S=%d\rIF N>20 THEN END\rNEXT\rZ=1\r%s",l0,ctx?"GOSUB @A\rY=1\rEND\r@A\rFOR Q=1 TO 2:":"",ts[t],*ss[st]?" STEP ":"",ss[st],at+1,vals[lv],vals[sv],ctx?"NEXT\rRETURN\r":"");
	mc_desc("%s",src); 
	int L=l0,S=1,N=0,I=0,e=0,Z=0,Y=0;
	for (int pass=0;pass<(ctx?2:1)&&!e&&N<=20;++pass){
		I=1; bool first=true;
		for (;;){
			long end=0, step=4096; 
			switch (t){ case 0: end=L*4096; break; case 1: end=L*2*4096; break; case 2: if (!L) e=ERR_DIVIDE_BY_ZERO; else end=(10L*4096*4096)/(L*4096); break; case 3: if (L<0||L>8) { if (L<0||L>=9) e=L==8?0:-1; } if (!e) end=(L<=8?L:0)*4096; break; case 4: end=3*4096; break; case 5: if (L<0) e=-2; else end=L==1?4096:L==2?5792:L==3?7094:L==9?3*4096:L==77?35942:0; break; default: if (8000L*L*8*4096>INT_MAX||8000L*L*8*4096<INT_MIN) e=ERR_OVERFLOW; else end=8000L*L*8*4096; }
			if (!e) switch (st){ case 0: break; case 1: step=S*4096; break; case 2: if (!S) e=ERR_DIVIDE_BY_ZERO; else step=4096*4096L/(S*4096); break; case 3: if (S<0||S>8) e=-1; else step=S*4096; break; default: if (100000L*S*S*4096>INT_MAX) e=ERR_OVERFLOW; else step=100000L*S*S*4096; }
			if (e) break;
			static long cur; if (first) cur=4096; else { cur+=step; if (cur>INT_MAX||cur<INT_MIN){ e=ERR_OVERFLOW; break; } }
			first=false; I=cur; 
			if (step<0? end>cur : end<cur) break;
			N++; if (N==at+1){ L=vals[lv]; S=vals[sv]; } if (N>20) goto done;
		}
		if (!e) Z=1;
	}
	if (!e) Y=ctx;
done:
	sys_reset(); int g=sys_run(src,opt?TOKOPT_VARIABLE_IDS:0);
	mc_validated(3); mc_nontrivial(mc_hash(src,strlen(src))); mc_state(mc_mix(mc_mix(N,e),mc_mix(L,S))); mc_outcome(g);
	if (e<0 ? !g : g!=e) mc_fail("%s, expected %s",errname(g),e<0?"an error":errname(e));
	if (sys_num("N")!=N*4096||sys_num("Z")!=Z*4096||sys_num("Y")!=Y*4096) mc_fail("N=%d Z=%d Y=%d, expected %d %d %d",sys_num("N")>>12,sys_num("Z")>>12,sys_num("Y")>>12,N,Z,Y);
}
#include "chain.h"
// expressions of any length the line limit allows, as loop end, loop step, condition and jump list index
static void s_longexpr(void){
	static const int lens[]={0,-1,1,2,7,8,15,16}; int n=mc_range(46)+1, k=lens[mc_choose(8)], st=mc_choose(4), what=mc_choose(4), opt=mc_choose(2); // k: 0 small constant, -1 constant with decimals, else variable with a name of k letters
	char nm[20]; if (k>0){ memset(nm,'Q',k); nm[k]=0; } else strcpy(nm,k?"1.5":"1"); int unit=k<0?6144:4096; if (what==3&&st) mc_skip();
	char e[1400]; int o=0; int64_t v=0; for (int i=0;i<n;++i){ o+=sprintf(e+o,"%s%s",i?(i&1?"-":"+"):"",nm); v+=i&1?-unit:unit; }
	char src[3400]; int want=0; int64_t S=0, I=0; sys_reset();
	if (what==0){ // both long; the step is positive
		if (n*2*(st?2:1)>88) mc_skip(); o=sprintf(src,"%s%s%s\rS=0\rFOR I=1 TO %s+3%s",k>0?nm:"Z9",k>0?"=":"=",k>0?"1":"0",e,st?" STEP ":""); if (st) o+=sprintf(src+o,"%s+%d",e,st); o+=sprintf(src+o,"\rS=S+I\rNEXT\rY=1\r"); int64_t end=v+3*4096, step=st?v+st*4096:4096; for (I=4096;I<=end;I+=step) S+=I; if (I<=end) want=1; }
	else if (what==1){ if (st>1||n>42) mc_skip(); o=sprintf(src,"%s=1\rS=0:I=0\rIF %s==%s THEN S=5 ELSE S=6\r%s\rY=1\r",k>0?nm:"Z9",e,v?st?"0":nm:st?nm:"0",st?"I=7":""); S=(st?6:5)*4096; I=st?7*4096:0; }
	else if (what==2){ if (n>38) mc_skip(); o=sprintf(src,"%s=1\rS=0:I=0\rON %s+%d GOTO @A,@B,@C,@D,@E\rS=9\rEND\r@A\rS=1\r@B\rS=S+10\r@C\rS=S+100\r@D\rS=S+1000\r@E\rY=1\r",k>0?nm:"Z9",e,st); int64_t ix=(v+st*4096)>>12; S=(ix==0?1111:ix==1?1110:ix==2?1100:ix==3?1000:ix==4?0:9)*4096; }
	else { // body between FOR and NEXT far larger than any offset field
		o=sprintf(src,"%s=1\rS=0\rFOR I=1 TO 3\rFOR J=I TO 2\r",k>0?nm:"Z9"); for (int i=0;i<n&&o<3000;++i) o+=sprintf(src+o,"S=S+%s\r",nm); o+=sprintf(src+o,"NEXT\rNEXT\rY=1\r"); S=3ll*n*unit; I=4*4096; if (o>=3000) mc_skip(); }
	(void)want; mc_desc("%s",src); int er=sys_run(src,opt?TOKOPT_VARIABLE_IDS:0); if (er) mc_fail("%s",errname(er)); if (what==2&&S==9*4096){ if (sys_num("S")!=S) mc_fail("S is %d",sys_num("S")); } else if (sys_num("Y")!=4096) mc_fail("the statements behind were not reached"); if (sys_num("S")!=S) mc_fail("S is %d/4096, expected %lld/4096",sys_num("S"),(long long)S); if (what!=2&&sys_num("I")!=I) mc_fail("I is %d/4096, expected %lld/4096",sys_num("I"),(long long)I); mc_validated(3); mc_nontrivial(mc_mix(mc_mix(n,k+1),st*8+what*2+opt)); mc_state(mc_mix(S,I)); }
const mc_suite mc_suites[] = {
	{"soup3",s_soup3,MC_QT,sys_boot},{"soup4",s_soup4,MC_QT,sys_boot},{"soup5f",s_soup5f,MC_QT,sys_boot},{"soup5g",s_soup5g,MC_QT,sys_boot},
	{"soupid",s_soupid,MC_QT,sys_boot},{"soupnl",s_soupnl,MC_QT,sys_boot},{"loop1",s_loop1,MC_QT,sys_boot},{"dynamic",s_dynamic,MC_QT,sys_boot},{"loop2",s_loop2,MC_QT,sys_boot},
	{"if",s_if,MC_QT,sys_boot},{"if2",s_if2,MC_QT,sys_boot},{"on",s_on,MC_QT,sys_boot},{"depth",s_depth,MC_QT,sys_boot},{"deepnext",s_deepnext,MC_QT,sys_boot},{"labels",s_labels,MC_QT,sys_boot},{"labstr",s_labstr,MC_QT,sys_boot},{"manylabels",s_manylabels,MC_QT,sys_boot},{"far",s_far,MC_QT,b_far},{"alllabels",s_alllabels,MC_QT,b_far},{"onbad",s_onbad,MC_QT,sys_boot},{"labalike",s_labalike,MC_QT,sys_boot},{"reeval",s_reeval,MC_QT,sys_boot},{"longexpr",s_longexpr,MC_QT,sys_boot},
 {"chain",s_chain,MC_QT,b_chain}};
const int mc_suite_count = sizeof mc_suites/sizeof *mc_suites;

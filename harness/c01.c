// C01: numeric expressions — operator results, precedence and associativity, error reporting.
#include "sys.h"
#include <limits.h>
const char* mc_rule = "every operator on every pair of boundary values; every expression shape (operator sequences x parentheses x prefix operators x operand kinds) up to the stated length; a case is non-trivial when the reference evaluator finishes with a value or one definite error, counted by expression text";

enum { ADD, SUB, MUL, DIV, MOD, AND_, OR_, XOR_, EQ, NE, LT, GT, LE, GE, NBIN };
static const char* bs[] = {"+","-","*","/","%"," AND "," OR "," XOR ","==","!=","<",">","<=",">="};
static const int bp[] = {4,4,5,5,5,2,2,2,3,3,3,3,3,3};
enum { NEG, NOT_, LNOT, NUN };
static const char* us[] = {"-","NOT ","!"};
static const char* us2[] = {"-"," NOT ","!"};
typedef struct { int err; fixp v; } R;
static R ok(int64_t v){ if (v < INT_MIN || v > INT_MAX) return (R){ERR_OVERFLOW,0}; return (R){0,(fixp)v}; }
static int64_t fdiv(int64_t a, int64_t b){ int64_t q=a/b; if ((a%b) && ((a<0)!=(b<0))) --q; return q; }
static int ip(fixp x){ return (int)fdiv(x,4096); }
static R bin(int o, R a, R b){
	if (a.err) return a; if (b.err) return b;
	int64_t x=a.v,y=b.v;
	switch (o){
		case ADD: return ok(x+y);
		case SUB: return ok(x-y);
		case MUL: return ok(fdiv(x*y,4096));
		case DIV: if (!y) return (R){ERR_DIVIDE_BY_ZERO,0}; return ok(x*4096/y);
		case MOD: if (!y) return (R){ERR_DIVIDE_BY_ZERO,0}; return ok(x - (x/y)*y);
		case AND_: return ok((int64_t)(ip(x)&ip(y))*4096);
		case OR_: return ok((int64_t)(ip(x)|ip(y))*4096);
		case XOR_: return ok((int64_t)(ip(x)^ip(y))*4096);
		case EQ: return ok((x==y)*4096);
		case NE: return ok((x!=y)*4096);
		case LT: return ok((x<y)*4096);
		case GT: return ok((x>y)*4096);
		case LE: return ok((x<=y)*4096);
		default: return ok((x>=y)*4096);
	}
}
static R un(int o, R a){
	if (a.err) return a;
	switch (o){ case NEG: return ok(-(int64_t)a.v); case NOT_: return ok((int64_t)(~ip(a.v))*4096); default: return ok(a.v==0 ? 4096 : 0); }
}
static void compare(const char* src, R want, fixp got, int err){
	mc_outcome(mc_mix(want.err,(u32)want.v));
	mc_nontrivial(mc_hash(src,strlen(src)));
	if (want.err){
		if (err != want.err) mc_fail("%s: expected error %s, got %s (value %.6f)", src, errname(want.err), errname(err), got/4096.0);
	} else {
		if (err) mc_fail("%s: expected %.6f, got error %s", src, want.v/4096.0, errname(err));
		if (got != want.v) mc_fail("%s: expected %d/4096, got %d/4096", src, want.v, got);
	}
	mc_validated(1);
}
// ---- every operator on every pair of values
static const fixp vals[] = { 0,1,-1,2,-2,4095,-4095,4096,-4096,4097,-4097,8192,-8192,6144,-6144,12288,-12288,3<<11,
	10*4096,-10*4096,7*4096+1365,-7*4096-1365,100*4096,255*4096,256*4096,-256*4096,181*4096,724*4096,-724*4096,
	46341,-46341,46340*64,0x5A5A5,0x2AAAAAAA,-0x2AAAAAAB,0x15555555,
	0x3fffffff,0x40000000,0x40000001,-0x40000000,-0x40000001,
	INT_MAX,INT_MAX-1,INT_MAX-4095,INT_MAX-4096,INT_MIN,INT_MIN+1,INT_MIN+4095,INT_MIN+4096,524287*4096,-524288LL*4096+4097 };
#define NV ((int)(sizeof vals/sizeof *vals))
static fixp tval(int i){ return vals[i]; }
static void s_binop(void){
	int o = mc_choose(NBIN+NUN); int ai = mc_choose(NV); int bi = o < NBIN ? mc_choose(NV) : 0;
	fixp a = tval(ai), b = tval(bi);
	char src[64];
	if (o < NBIN) sprintf(src,"R=A%sB\r",bs[o]); else sprintf(src,"R=%sA\r",us[o-NBIN]);
	mc_desc("%s A=%d B=%d (raw 1/4096)",src,a,b);
	sys_reset();
	if (sys_run("A=0:B=0:R=123\r",0)) mc_fail("setup failed %s",errname(P->exec.error));
	sys_find("A",VAR_NUMBER)->value.number = a;
	sys_find("B",VAR_NUMBER)->value.number = b;
	int e = sys_run(src,0);
	R w = o < NBIN ? bin(o,(R){0,a},(R){0,b}) : un(o-NBIN,(R){0,a});
	char key[128]; snprintf(key,sizeof key,"%s %d %d",src,a,b);
	mc_state(mc_mix(mc_mix(o,(u32)a),(u32)b));
	compare(key,w,sys_num("R"),e);
	if (w.err && sys_num("R") != 123*4096) mc_fail("failed expression changed its target");
	if (sys_num("A") != a || sys_num("B") != b) mc_fail("operands changed");
}
// ---- expression shapes.  Text is generated together with a token list evaluated by precedence climbing.
enum { T_NUM, T_BIN, T_UN, T_OP, T_CL, T_END };
struct tok { int t, o; R v; };
static struct tok tk[256]; static int nt, tp;
static char ex[400]; static int en;
static void put(const char* s){ en += sprintf(ex+en,"%s",s); }
static void t_add(int t, int o, fixp v){ tk[nt++] = (struct tok){t,o,{0,v}}; }
static R prim(void);
static R climb(int minp){
	R l = prim();
	while (tk[tp].t == T_BIN && bp[tk[tp].o] >= minp){
		int o = tk[tp++].o; R r = climb(bp[o]+1);
		// left operand is evaluated first: its error wins
		l = bin(o,l,r);
	}
	return l;
}
static R prim(void){
	struct tok t = tk[tp++];
	if (t.t == T_UN) return un(t.o,prim());
	if (t.t == T_OP){ R r = climb(0); ++tp; return r; }
	return t.v;
}
static R refeval(void){ tk[nt].t = T_END; tp = 0; return climb(0); }
static const fixp opv[] = { 5*4096, 3*4096, 2*4096+2048, -4*4096, 7*4096, 0 };
// operand number k in textual form f
static void operand(int k, int form){
	static const char* lit[] = {"5","3","2.5","(-4)","7","0"};
	static const char* var[] = {"A","B","C","D","E","F"};
	char b[64];
	fixp v = opv[k];
	switch (form){
		case 0: put(var[k]); t_add(T_NUM,0,v); break;
		case 1: if (k==3){ put("(-4)"); t_add(T_OP,0,0); t_add(T_UN,NEG,0); t_add(T_NUM,0,4*4096); t_add(T_CL,0,0);} else { put(lit[k]); t_add(T_NUM,0,v);} break;
		case 2: sprintf(b,"Z(%d)",k); put(b); t_add(T_NUM,0,v); break;
		case 3: sprintf(b,"Y[%d,1]",k); put(b); t_add(T_NUM,0,v); break;
		case 4: sprintf(b,"ABS(%s)",var[k]); put(b); t_add(T_NUM,0,v<0?-v:v); break;
		case 5: put("TRUE"); t_add(T_NUM,0,4096); break;
		case 6: sprintf(b,"&H%X",k+9); put(b); t_add(T_NUM,0,(k+9)*4096); break;
		case 7: put("&B101"); t_add(T_NUM,0,5*4096); break;
		case 8: put("LEN(\"AB\")"); t_add(T_NUM,0,2*4096); break;
		case 9: put("LONGNAME"); t_add(T_NUM,0,11*4096); break;
		case 10: put("Z[-D]"); t_add(T_NUM,0,7*4096); break;
		case 11: put("Z(-D)"); t_add(T_NUM,0,7*4096); break;
		case 12: put("ABS(-A)"); t_add(T_NUM,0,5*4096); break;
		case 13: put("Y[-D-4,-D-3]"); t_add(T_NUM,0,5*4096); break;
		default: put("Z(Z(5)+1)"); t_add(T_NUM,0,3*4096); break;
	}
}
#define NFORM 15
static void binop(int o){ put(bs[o]); t_add(T_BIN,o,0); }
static void unop(int o){ put(en && ex[en-1]!='(' && ex[en-1]!=' ' ? us2[o] : us[o]); t_add(T_UN,o,0); }
static void op_(void){ put("("); t_add(T_OP,0,0); }
static void cl_(void){ put(")"); t_add(T_CL,0,0); }
static const char* setup = "A=5:B=3:C=2.5:D=-4:E=7:F=0:LONGNAME=11:R=123\rDIM Z(6),Y(6,2)\r"
	"Z(0)=5:Z(1)=3:Z(2)=2.5:Z(3)=-4:Z(4)=7\rY(0,1)=5:Y(1,1)=3:Y(2,1)=2.5:Y(3,1)=-4:Y(4,1)=7\r";
static void begin(void){ nt=0; en=0; ex[0]=0; }
static void finish(int ctx){
	R w = refeval();
	char src[600];
	int opts = ctx == 4 ? TOKOPT_VARIABLE_IDS : 0;
	switch (ctx){
		case 0: sprintf(src,"R=%s\r",ex); break;
		case 1: sprintf(src,"PRINT %s\r",ex); break;
		case 2: sprintf(src,"R=FLOOR(%s)\r",ex); if (!w.err) w.v = w.v & ~4095; break;
		case 3: sprintf(src,"IF %s THEN R=1 ELSE R=0\r",ex); if (!w.err) w.v = w.v ? 4096 : 0; break;
		case 5: sprintf(src,"Y[5,0]=%s:R=Y[5,0]\r",ex); break;
		case 6: sprintf(src,"R=Y[%s,1]\r",ex); if (!w.err){ int i=w.v>>12; if (i<0||i>5) w.err=ERR_SUBSCRIPT_OUT_OF_RANGE_X; else w.v=i==5?0:opv[i]; } break;
		default: sprintf(src,"%sR=%s\r",setup,ex); break;
	}
	mc_desc("%s",src);
	sys_reset();
	if (ctx != 4 && sys_run(setup,0)) mc_fail("setup failed %s",errname(P->exec.error));
	int e = sys_run(src,opts);
	mc_state(mc_hash(src,strlen(src)));
	if (ctx == 1){
		mc_nontrivial(mc_hash(src,strlen(src)));
		if (e != w.err) mc_fail("%s: expected %s got %s",src,errname(w.err),errname(e));
		if (!e){
			// same number printed by PRINT of a variable holding the reference value
			u8 b1[64]; fixp_to_char(w.v,b1);
			for (int i=0;b1[i];++i) if (P->console.text[0][i] != to_wide(b1[i])) mc_fail("%s: printed text differs from %s",src,b1);
			if (P->console.text[0][strlen((char*)b1)]) mc_fail("%s: printed more than %s",src,b1);
		}
		mc_validated(1);
		return;
	}
	compare(src,w,sys_num("R"),e);
	if (w.err && ctx == 0 && sys_num("R") != 123*4096) mc_fail("%s: failed expression changed its target",src);
}
// two operators, every operand form and prefix combination
static void s_two(void){
	int o1 = mc_choose(NBIN), par = mc_choose(4);
	int o2 = mc_choose(NBIN), ctx = mc_choose(3);
	int u = mc_choose(4);      // prefix of the 2nd operand (0 none)
	int u1 = mc_choose(4);     // prefix of the first
	begin();
	if (par==1||par==3) op_();
	if (u1) unop(u1-1);
	operand(0,0); binop(o1);
	if (par==2) op_();
	if (u) unop(u-1);
	operand(1,0);
	if (par==1) cl_();
	binop(o2); operand(2,0);
	if (par>=2) cl_();
	finish(ctx?4+ctx:0);
}
// operand kinds next to every operator
static void s_forms(void){
	int f1 = mc_choose(NFORM), o = mc_choose(NBIN), u = mc_choose(4), f2 = mc_choose(NFORM), ctx = mc_choose(5);
	begin();
	operand(0,f1); binop(o); if (u) unop(u-1); operand(3,f2);
	finish(ctx);
}
// three operators: all operator sequences (14^3), all bracketings; error operands included
static void s_three(void){
	int shape = mc_choose(12), o1 = mc_choose(NBIN), o2 = mc_choose(NBIN), o3 = mc_choose(NBIN);
	begin();
	#define A(k) operand(k,0)
	switch (shape){
		case 0: A(0);binop(o1);A(1);binop(o2);A(2);binop(o3);A(3); break;
		case 1: op_();A(0);binop(o1);A(1);cl_();binop(o2);op_();A(2);binop(o3);A(5);cl_(); break;
		case 2: A(0);binop(o1);op_();A(1);binop(o2);op_();A(2);binop(o3);A(4);cl_();cl_(); break;
		case 3: A(4);binop(o1);op_();A(5);binop(o2);A(2);cl_();binop(o3);A(1); break;
		case 4: op_();op_();A(3);binop(o1);A(2);cl_();binop(o2);A(1);cl_();binop(o3);A(0); break;
		case 5: unop(NEG);A(0);binop(o1);unop(LNOT);A(5);binop(o2);unop(NOT_);A(2);binop(o3);unop(NEG);A(3); break;
		case 6: A(0);binop(o1);unop(NEG);op_();A(1);binop(o2);A(2);cl_();binop(o3);A(3); break;
		case 7: op_();A(0);binop(o1);A(1);binop(o2);A(2);binop(o3);A(3);cl_(); break;
		case 8: op_();A(0);binop(o1);A(1);binop(o2);A(2);cl_();binop(o3);A(3); break;
		case 9: A(0);binop(o1);op_();A(1);binop(o2);A(2);binop(o3);A(3);cl_(); break;
		case 10: op_();A(0);binop(o1);op_();A(1);binop(o2);A(2);cl_();binop(o3);A(3);cl_(); break;
		default: unop(NOT_);op_();A(0);binop(o1);unop(NEG);unop(NEG);A(1);cl_();binop(o2);A(2);binop(o3);A(3); break;
	}
	finish(0);
}
// four operators, one representative per precedence level plus the non-associative ones
static void s_four(void){
	static const int rep[] = {ADD,SUB,MUL,DIV,MOD,AND_,XOR_,EQ,LT};
	int n = mc_thorough ? 9 : 5; static const int q[] = {SUB,DIV,XOR_,LT,MOD};
	begin();
	int par = mc_choose(5);
	for (int i=0;i<5;++i){
		if (par && par-1 == i) op_();
		operand(i,0);
		if (par && par == i) cl_();
		if (i<4){ int o = mc_choose(n); binop(mc_thorough?rep[o]:q[o]); }
	}
	if (par == 5) cl_();
	finish(0);
}
// prefix operator chains and deep nesting
static void s_deep(void){
	int kind = mc_choose(4);
	begin();
	if (kind == 0){ // chains of prefix operators
		int n = 1+mc_choose(5);
		for (int i=0;i<n;++i) unop(mc_choose(NUN));
		operand(mc_choose(6),0);
		finish(mc_choose(2)?1:0);
	} else if (kind == 1){ // ((((x)+1)...)
		int d = 1+mc_choose(24), o = mc_choose(NBIN);
		for (int i=0;i<d;++i) op_();
		operand(0,0);
		for (int i=0;i<d;++i){ if (i==d-1){ binop(o); operand(1,0);} cl_(); }
		finish(0);
	} else if (kind == 2){ // right nested
		int d = 1+mc_choose(15), o = mc_choose(NBIN);
		for (int i=0;i<d;++i){ operand(1,0); binop(o); op_(); }
		operand(0,0);
		for (int i=0;i<d;++i) cl_();
		finish(0);
	} else { // long flat chain
		int d = 2+mc_choose(20), o = mc_choose(NBIN), o2 = mc_choose(NBIN);
		operand(2,0);
		for (int i=0;i<d;++i){ binop(i&1?o:o2); operand(i%5,0); }
		finish(0);
	}
}
// a whole right hand side for every grammar string of bounded length over a tiny alphabet
static void gen(int budget);
static void genprim(int* budget){
	int c = mc_choose(*budget > 0 ? 5 : 2);
	if (c < 2){ operand(c?3:2,c); return; }
	--*budget;
	if (c == 2){ unop(NEG); genprim(budget); return; }
	if (c == 3){ unop(NOT_); genprim(budget); return; }
	op_(); int b = *budget; genprim(&b); 
	while (b > 0 && mc_choose(2)){ static const int r[]={SUB,MUL,LT,OR_}; binop(r[mc_choose(4)]); --b; genprim(&b); }
	*budget = b; cl_();
}
static void s_grammar(void){
	int b = mc_thorough ? 5 : 3;
	begin(); genprim(&b);
	while (b > 0 && mc_choose(2)){ static const int r[]={SUB,MUL,LT,OR_}; binop(r[mc_choose(4)]); --b; genprim(&b); }
	finish(0);
}
const mc_suite mc_suites[] = {
	{"binop",s_binop,MC_QT,sys_boot}, {"two",s_two,MC_QT,sys_boot}, {"forms",s_forms,MC_QT,sys_boot},
	{"three",s_three,MC_QT,sys_boot}, {"four",s_four,MC_QT,sys_boot}, {"deep",s_deep,MC_QT,sys_boot}, {"grammar",s_grammar,MC_QT,sys_boot},
};
const int mc_suite_count = sizeof mc_suites/sizeof *mc_suites;

// C26: numeric functions against exact mathematics.
#include "bas.h"
#include <math.h>
#include <limits.h>
const char* mc_rule = "every function x every argument in [-8,8), around every power of two and range limit and on a grid of step 4093/4096 (thorough: every one of the 2^32 arguments, for ABS and SGN every seventh); two-argument functions over the product of boundary values and a grid; RND over all small limits with every residue of the generator; wrong argument kinds and counts; counted by function and block of arguments";
enum { ABS, SGN, FLOOR, SQR, SIN, COS, TAN, ATAN, EXP, LOG, DEG, RAD, NF };
static const char* const fn[]={"ABS","SGN","FLOOR","SQR","SIN","COS","TAN","ATAN","EXP","LOG","DEG","RAD"};
static const double PI_=12867/4096.0;
// exact value; returns 0 ok, 1 no result
static int exact(int f, double x, double* r){
	switch (f){
		case ABS: *r=fabs(x); break;
		case SGN: *r=(x>0)-(x<0); break;
		case FLOOR: *r=floor(x); break;
		case SQR: if (x<0) return 1; *r=sqrt(x); break;
		case SIN: *r=sin(x); break;
		case COS: *r=cos(x); break;
		case TAN: *r=tan(x); break;
		case ATAN: *r=atan(x); break;
		case EXP: *r=exp(x); break;
		case LOG: if (x<=0) return 1; *r=log(x); break;
		case DEG: *r=x*180/PI_; break;
		case RAD: *r=x*PI_/180; break;
	}
	return 0;
}
#define EPS (1/4096.0+1e-9)
static struct named_var *V,*R;
static void prepare(int f){
	must("V=0:R=0"); char b[60]; sprintf(b,"R=%s(V)\r",fn[f]); int e=sys_compile(b,opts()); if (e) mc_fail("%s does not compile: %s",b,errname(e));
	V=sys_find("V",VAR_NUMBER); R=sys_find("R",VAR_NUMBER); if (!V||!R) mc_fail("variables missing");
}
static void one(int f, fixp v){
	V->value.number=v; R->value.number=0x5a5a5a5a; 
	int e=sys_go(); fixp r=R->value.number; double x=v/4096.0, want=0; 
	int bad=exact(f,x,&want);
	if (f==ABS && v==INT_MIN){ if (e||r!=INT_MIN) mc_fail("ABS(-524288) is %f (%s)",r/4096.0,errname(e)); return; } // documented exception
	if (e){
		if (r!=0x5a5a5a5a) mc_fail("%s(%.6f) reports %s but assigns",fn[f],x,errname(e));
		if (!bad && want>=-524288 && want<524288-EPS) mc_fail("%s(%.6f): %s, expected %.6f",fn[f],x,errname(e),want);
		return;
	}
	if (bad) mc_fail("%s(%.6f) is %.6f, expected an error",fn[f],x,r/4096.0);
	double tol = f==ABS||f==SGN||f==FLOOR ? 0 : EPS;
	if (fabs(r/4096.0-want)>tol) mc_fail("%s(%.6f) is %.6f, expected %.6f",fn[f],x,r/4096.0,want);
	if (V->value.number!=v) mc_fail("%s changed its argument",fn[f]);
}
static void block(int f, long lo, long hi, long step){
	mc_desc("%s, arguments [%f,%f) step %ld/4096",fn[f],lo/4096.0,hi/4096.0,step); sys_reset(); setmode(2); prepare(f); int n=0; 
	for (long v=lo;v<hi;v+=step){ one(f,v); ++n; }
	mc_trans(n); mc_validated(n); mc_nontrivial(mc_mix(lo,f*1000003+step)); mc_state(mc_mix(lo,f+step*100));
}
static void s_near(void){ int f=mc_choose(NF), b=mc_range(16)-8; block(f,b*4096L,b*4096L+4096,1); }
static void s_pow2(void){ int f=mc_choose(NF), k=mc_range(32), neg=mc_choose(2); long c=k==31?(1L<<31):1L<<k; if (neg) c=-c; long lo=c-40, hi=c+41; if (lo<INT_MIN) lo=INT_MIN; if (hi>1L<<31) hi=1L<<31; block(f,lo,hi,1); }
static void s_grid(void){ int f=mc_choose(NF), b=mc_range(64); long lo=(long)INT_MIN+b*(1L<<26); block(f,lo,lo+(1L<<26),4093); }
static void s_int(void){ int f=mc_choose(NF), b=mc_range(32); long lo=(long)INT_MIN+b*(1L<<27); block(f,lo,lo+(1L<<27),4096); }
static void s_lim(void){ // where results leave the range
	int f=mc_choose(6); static const struct { int f; double x; } t[]={{EXP,13.16979},{DEG,9150.2},{DEG,-9150.2},{TAN,1.57079},{EXP,-8.3177},{LOG,0}};
	long c=t[f].x*4096; block(t[f].f,c-3000,c+3000,1); }
static void s_all(void){ int f=mc_choose(NF), b=mc_range(1<<12); long lo=(long)INT_MIN+((long)b<<20); block(f,lo,lo+(1L<<20),f==ABS||f==SGN?7:1); }
// ---- two arguments
static fixp bv(int i){ static const int t[]={0,1,-1,2,4095,4096,4097,-4095,-4096,-4097,8191,8192,-8192,2048,-2048,6144,12288,-12288,40960,-40960,12867,1365,-1365,409600,-409600,4096*255,4096*1000,4096*1024,-4096*1024,4096*65535,4096*65536,4096*181019L/1,1<<30,-(1<<30),INT_MAX,INT_MAX-4095,INT_MIN,INT_MIN+1,4096*19,4096*20,-4096*19,4096*12+2048,3,5,100,41,410}; return t[i]; }
#define NB 47
static void two(int pw, fixp a, fixp b){
	V->value.number=a; sys_find("W",VAR_NUMBER)->value.number=b; R->value.number=0x5a5a5a5a; int e=sys_go(); fixp r=R->value.number; double x=a/4096.0,y=b/4096.0;
	const char* n=pw?"POW":"ATAN"; if (e&&r!=0x5a5a5a5a) mc_fail("%s(%f,%f) reports %s but assigns",n,x,y,errname(e));
	if (!pw){ double w=atan2(x,y); if (e) mc_fail("ATAN(%f,%f): %s",x,y,errname(e)); if (fabs(r/4096.0-w)>EPS) mc_fail("ATAN(%f,%f) is %f, expected %f",x,y,r/4096.0,w); return; }
	double w=pow(x,y); double rel=(fabs(y)*(1+fabs(x>0?log(x):x<0?log(-x):0))+3)*ldexp(1,-23), tol=EPS+fabs(w)*rel;
	if (a<0 && (b>(1<<24)||b<-(1<<24)) && (b&4095)) return; // exponent not exact in single precision
	if (isnan(w)||isinf(w)){ bool huge=isinf(w)&&x!=0; if (!e) mc_fail("POW(%f,%f) is %f, expected an error",x,y,r/4096.0); (void)huge; return; }
	bool fits=fabs(w)+tol<524288, over=fabs(w)-tol>524288; // single precision: results within its error of the limit may go either way
	if (e){ if (fits) mc_fail("POW(%f,%f): %s, expected %f",x,y,errname(e),w); return; }
	if (over) mc_fail("POW(%f,%f) is %f, expected an overflow",x,y,r/4096.0);
	if (fits && fabs(r/4096.0-w)>tol) mc_fail("POW(%f,%f) is %f, expected %f",x,y,r/4096.0,w);
}
static void prep2(int pw){ sys_reset(); setmode(2); must("V=0:W=0:R=0"); if (sys_compile(pw?"R=POW(V,W)\r":"R=ATAN(V,W)\r",opts())) mc_fail("does not compile"); V=sys_find("V",VAR_NUMBER); R=sys_find("R",VAR_NUMBER); }
static void s_two(void){ int pw=mc_choose(2), i=mc_range(NB); prep2(pw); mc_desc("%s(%f,boundary values)",pw?"POW":"ATAN",bv(i)/4096.0);
	for (int j=0;j<NB;++j) two(pw,bv(i),bv(j)); mc_trans(NB); mc_validated(NB); mc_nontrivial(pw*100+i); mc_state(pw*100+i); }
static void s_two2(void){ int pw=mc_choose(2), i=mc_range(101), q=mc_choose(mc_thorough?16:2); prep2(pw); mc_desc("%s((%d+%d/16)/2,grid)",pw?"POW":"ATAN",i-50,q); fixp a=(i-50)*2048+q*128; int n=0;
	int st=mc_thorough?137:1361; for (int b=-15*4096;b<=15*4096;b+=st,++n) two(pw,a,b); for (int b=-20;b<=20;++b,++n) two(pw,a,b*4096); mc_trans(n); mc_validated(n); mc_nontrivial(pw*100000+i*100+q); mc_state(pw*100000+i*100+q); }
// ---- RND
static int rnd_next, rnd_calls; int __wrap_rand(void); int __wrap_rand(void){ ++rnd_calls; return rnd_next; }
static void s_rnd(void){
	static const int big[]={64,100,255,256,1000,1023,1024,65535,65536,524287,-524287,-524288,-1000}; int k=mc_range(101+13), n=k<101?k-50:big[k-101]; int fr=mc_choose(3);
	sys_reset(); setmode(2); must("V=0:R=0"); if (sys_compile("R=RND(V)\r",opts())) mc_fail("does not compile"); V=sys_find("V",VAR_NUMBER); R=sys_find("R",VAR_NUMBER);
	fixp v=n*4096+(n>=0?(fr==1?1:fr==2?4095:0):0); if (n<0&&fr) mc_skip(); mc_desc("RND(%f)",v/4096.0); mc_nontrivial(n*3+fr);
	static bool seen[1100]; memset(seen,0,sizeof seen); int m=n<0?-n:n?n:1, lim=m<=1024?3*m:3000; rnd_calls=0;
	for (int i=0;i<lim+40;++i){
		rnd_next = i<lim?i : i<lim+20?RAND_MAX-(i-lim):RAND_MAX/2+(i-lim-30); V->value.number=v; int e=sys_go(); fixp r=R->value.number; if (e) mc_fail("%s",errname(e));
		int q=n<0?-(r>>12):r>>12; if (r&4095) mc_fail("RND(%f) is not whole: %f",v/4096.0,r/4096.0);
		if (q<0||q>=m) mc_fail("RND(%f) is %f",v/4096.0,r/4096.0); if (q<1100) seen[q]=true;
	}
	if (rnd_calls>=lim && m<=1024) for (int i=0;i<m;++i) if (!seen[i]) mc_fail("RND(%f) never gives %d",v/4096.0,i);
	mc_trans(lim+40); mc_validated(lim+40); mc_state(n*3+fr);
}
// ---- written forms: literals, expressions, arrays, nesting, and argument errors
static void s_forms(void){
	static const char* const all[]={"ABS","SGN","FLOOR","SQR","SIN","COS","TAN","ATAN","EXP","LOG","DEG","RAD","POW","RND","PI"};
	int f=mc_choose(15), k=mc_choose(9), md=mc_choose(3); sys_reset(); setmode(md); char t[60]; bool ok;
	static const char* const arg[]={"()","(1)","(A)","(A[2])","(\"1\")","(1,2)","(1,\"2\")","(1,2,3)","(0.5+0.5)"}; snprintf(t,60,"%s%s",all[f],arg[k]); mc_desc("%s",t); mc_nontrivial(f*100+k*3+md);
	if (k==0&&f!=14) mc_skip(); 
	must("A=1:A[2]=1:R=7"); int e=bas("R=%s",t); bool two_=f==12||f==7; ok = f==14?k==0 : (k==1||k==2||k==3||k==8) ? f!=12 : k==5 ? two_ : false; mc_validated(1);
	if (ok&&e) mc_fail("refused: %s",errname(e)); if (!ok&&!e) mc_fail("accepted"); if (!ok){ shows("7","R"); return; }
	double w=0; if (f<12){ exact(f,1,&w); if (k==5) w=atan2(1,2); } else if (f==12) w=1; else if (f==13) w=0; else w=PI_;
	if (fabs(sys_num("R")/4096.0-w)>EPS) mc_fail("is %f, expected %f",sys_num("R")/4096.0,w); 
	must("R=-%s+%s*2",t,t); double g=sys_num("R")/4096.0; if (f!=13&&fabs(g-w)>4*EPS) mc_fail("-x+x*2 is %f, expected %f",g,w); mc_state(f*100+k*3+md);
}
static void boot(void){ sys_boot_small(32,16,64); }
const mc_suite mc_suites[] = {
	{"near",s_near,MC_QT,boot},{"pow2",s_pow2,MC_QT,boot},{"grid",s_grid,MC_QT,boot},{"int",s_int,MC_QT,boot},{"lim",s_lim,MC_QT,boot},{"two",s_two,MC_QT,boot},{"two2",s_two2,MC_QT,boot},{"rnd",s_rnd,MC_QT,boot},{"forms",s_forms,MC_QT,boot},{"all",s_all,MC_T,boot},
};
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

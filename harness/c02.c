// C02: numbers and their text forms.
#include "sys.h"
#include <limits.h>
const char* mc_rule = "all 4096 fractions x boundary integer parts x sign for number->text; all integers in range, all decimal fractions up to the stated length and all strings over the numeric alphabet up to the stated length for text->number; all 20-bit values x digit counts for hex; counted by distinct text or value";
static int run1(const char* s){ return sys_run(s,0); }
// reference: decimal text with three digits, value rounded up by 2/4096 before truncation
static void ref_text(fixp v, char* o){
	int64_t m = v < 0 ? -(int64_t)v : v;
	m += 2;
	int64_t whole = m / 4096; int milli = (m % 4096) * 1000 / 4096;
	if (v < 0) *o++ = '-';
	o += sprintf(o,"%lld",(long long)whole);
	if (milli){ o += sprintf(o,".%03d",milli); while (o[-1]=='0') --o; *o = 0; }
}
// reference parser: [-]digits[.digits], stops at the first character that does not fit. -1: out of range
static bool ref_parse(const char* s, int n, bool sign, int64_t* out){
	int i=0; bool neg=false;
	if (sign && n && s[0]=='-'){ neg = true; i=1; }
	__int128 w=0; 
	while (i<n && s[i]>='0'&&s[i]<='9'){ w = w*10+(s[i]-'0'); if (w > 100000000) w = 100000000; ++i; }
	__int128 f=0, d=1;
	if (i<n && s[i]=='.'){ ++i; while (i<n && s[i]>='0'&&s[i]<='9'){ if (d < (__int128)1000000000000000000LL){ f=f*10+(s[i]-'0'); d*=10; } ++i; } }
	__int128 v = w*4096 + f*4096/d;
	if (neg) v = -v;
	*out = (int64_t)v;
	return v >= INT_MIN && v <= INT_MAX;
}
static const int iparts[] = {0,1,2,9,10,11,19,20,90,99,100,101,109,110,199,200,255,256,900,999,1000,1001,1010,1100,4095,9999,10000,10001,10010,65535,99999,100000,100001,100100,200000,262143,500000,524286,524287};
#define NI ((int)(sizeof iparts/sizeof *iparts))
// number -> text, over STR$, PRINT and their agreement, and back through VAL
static void s_totext(void){
	int k = mc_choose(NI), neg = mc_choose(2), blk = mc_choose(16);
	mc_desc("STR$/PRINT/VAL of %s%d + k/4096, k in [%d,%d)",neg?"-":"",iparts[k],blk*256,blk*256+256);
	sys_reset();
	if (run1("V=0:S$=\"\":R=0\r")) mc_fail("setup");
	// compile once, run many
	for (int i=blk*256;i<blk*256+256;++i){
		fixp v = iparts[k]*4096+i; if (neg) v = -v;
		sys_find("V",VAR_NUMBER)->value.number = v;
		int e = run1("S$=STR$(V):LOCATE 0,0:PRINT V;\"           \":R=VAL(S$)\r");
		char want[64]; ref_text(v,want); u8 got[600]; int l = sys_str("S",got);
		int64_t back; bool fits = ref_parse(want,strlen(want),true,&back);
		if (e && !(e == ERR_OVERFLOW && !fits)) mc_fail("value %d/4096: error %s",v,errname(e));
		if (l != (int)strlen(want) || memcmp(got,want,l)) mc_fail("STR$ of %d/4096 is \"%s\", expected \"%s\"",v,got,want);
		for (int j=0;j<=l;++j){ int c = P->console.text[0][j]; int w = j<l ? to_wide(want[j]) : to_wide(32); if (c != w) mc_fail("PRINT of %d/4096: column %d shows %04x, expected %04x (\"%s\")",v,j,c,w,want); }
		if (!e && sys_num("R") != (fixp)back) mc_fail("VAL(\"%s\")=%d/4096, expected %lld/4096",want,sys_num("R"),(long long)back);
		mc_state(mc_mix(1,(u32)v)); mc_nontrivial((u32)v); mc_validated(3);
	}
}
// the smallest number
static void s_extreme(void){
	int k = mc_choose(6); fixp vs[] = {INT_MIN,INT_MIN+1,INT_MIN+2,INT_MIN+4094,INT_MAX,INT_MAX-1};
	mc_desc("STR$ of %d/4096",vs[k]);
	sys_reset(); run1("V=0:S$=\"\"\r"); sys_find("V",VAR_NUMBER)->value.number = vs[k];
	int e = run1("S$=STR$(V):PRINT V\r");
	char want[64]; ref_text(vs[k],want); u8 got[600]; int l = sys_str("S",got);
	if (e) mc_fail("error %s",errname(e));
	if (l != (int)strlen(want) || memcmp(got,want,l)) mc_fail("STR$ of %d/4096 is \"%s\", expected \"%s\"",vs[k],got,want);
	mc_validated(1); mc_state(mc_mix(2,k)); mc_nontrivial(mc_mix(2,k));
}
static void literal(const char* t){
	char src[256]; sprintf(src,"R=7:R=%s\r",t);
	sys_reset();
	int e = run1(src);
	int64_t w; bool fits = ref_parse(t,strlen(t),false,&w);
	mc_state(mc_hash(t,strlen(t))); mc_nontrivial(mc_hash(t,strlen(t))); mc_validated(1);
	if (!fits){ if (e != ERR_OVERFLOW) mc_fail("literal %s is out of range: got %s, value %d/4096",t,errname(e),sys_num("R")); return; }
	if (e) mc_fail("literal %s: error %s",t,errname(e));
	if (sys_num("R") != (fixp)w) mc_fail("literal %s is %d/4096, expected %lld/4096",t,sys_num("R"),(long long)w);
}
static void s_ints(void){
	int b = mc_range(mc_thorough ? 2048 : 512);
	int step = mc_thorough ? 256 : 1024; int sub = mc_thorough ? 1 : 4; // quick: every 4th plus block edges
	mc_desc("integer literals %d..%d",b*step,b*step+step-1);
	for (int i=0;i<step;i+=1){ if (sub>1 && i%sub && i>2 && i<step-2) continue; char t[32]; sprintf(t,"%d",b*step+i); literal(t); }
}
static void s_biglits(void){
	static const char* q[] = {"524287","524287.5","524287.999755859375","524287.99975","524287.9999","524288","524288.5","524289","600000","999999","1000000","1048575","1048576","1048577","1572864","2097152","2097151","4194304","4294967295","4294967296","5242879","5242880","9999999","10000000","16777216","99999999","123456789","1234567890123","000001","0000524287","00000000000000000000001","000.5","0.","1.",".5",".0",".00024414",".000244140625",".00024414062499","0.99975",".9997558593",".999755859375","3.14159265","3.1415926535897932384626","1.00000001","2.718281828459045","0.1234567","0.12345678","0.123456789","0.00000000000000000000000000000001","1.99999999999999999999999999999999999999","0.33333333333333333333333333333333333333333333333333333"};
	int k = mc_choose(sizeof q/sizeof *q); mc_desc("literal %s",q[k]); literal(q[k]);
}
static void s_decs(void){
	// every decimal fraction of up to 4 (5) digits
	int nd = 1+mc_choose(mc_thorough?6:4); int p10=1; for (int i=0;i<nd;++i) p10*=10;
	static const char* ip[] = {"","0","1","99","100","524287"};
	int k = mc_choose(6);
	int blocks = p10 >= 100 ? p10/100 : 1; int b = mc_range(blocks);
	int n = p10 >= 100 ? 100 : p10;
	mc_desc("literals %s.%0*d.. (%d values)",ip[k],nd,b*n,n);
	for (int i=0;i<n;++i){ char t[64]; sprintf(t,"%s.%0*d",ip[k],nd,b*n+i); literal(t); }
}
// VAL over every string of the alphabet
static void s_val(void){
	static const char al[] = "019.-A &H";
	int n = mc_choose(mc_thorough?8:6); char s[16]; 
	int na = n >= 6 ? (n>=7?5:6) : 9;
	for (int i=0;i<n;++i) s[i] = al[mc_choose(na)];
	s[n]=0;
	char src[64]; sprintf(src,"R=77:R=VAL(\"%s\")\r",s);
	mc_desc("%s",src);
	sys_reset();
	int e = run1(src);
	mc_state(mc_hash(s,n)); mc_validated(1);
	if (n && s[0]=='&'){
		if (n > 2 && s[2] == 0x2d) return; // sign after a base prefix: not specified
		if (n < 2 || s[1] != 'H'){ if (e != ERR_SYNTAX) mc_fail("VAL(\"%s\"): expected Syntax error, got %s",s,errname(e)); return; }
		int64_t w=0; int i=2; while (i<n && ((s[i]>='0'&&s[i]<='9')||(s[i]>='A'&&s[i]<='F'))){ w = w*16 + (s[i]<='9'?s[i]-'0':s[i]-'A'+10); ++i; }
		if (w >= 1<<20){ if (e != ERR_OVERFLOW) mc_fail("VAL(\"%s\") has more than 20 bits: %s",s,errname(e)); return; }
		if (e) mc_fail("VAL(\"%s\"): error %s",s,errname(e));
		if (sys_num("R") != (fixp)(u32)(w<<12)) mc_fail("VAL(\"%s\")=%d/4096, expected %d",s,sys_num("R"),(int)(w<<12));
		mc_nontrivial(mc_hash(s,n));
		return;
	}
	int64_t w; bool fits = ref_parse(s,n,true,&w);
	if (!fits){ if (e != ERR_OVERFLOW) mc_fail("VAL(\"%s\") is out of range: got %s, %d/4096",s,errname(e),sys_num("R")); return; }
	if (e) mc_fail("VAL(\"%s\"): error %s",s,errname(e));
	if (sys_num("R") != (fixp)w) mc_fail("VAL(\"%s\")=%d/4096, expected %lld/4096",s,sys_num("R"),(long long)w);
	mc_nontrivial(mc_hash(s,n));
}
static void s_vallong(void){
	// long texts: n digits, sign, point position
	static const int len[] = {1,5,6,7,8,10,20,32,33,64,100,200,255,256};
	int n = len[mc_choose(14)], pt = mc_choose(5), neg = mc_choose(2), d = mc_choose(3);
	char s[300]; for (int i=0;i<n;++i) s[i] = "019"[d];
	if (neg) s[0]='-';
	int p = pt==0?-1: pt==1? n/2 : pt==2 ? (neg?1:0) : pt==3 ? n-1 : (n>6?6:n-1);
	if (p>=0 && p<n && !(neg&&p==0)) s[p]='.';
	s[n]=0;
	mc_desc("VAL of %d characters: %s",n,s);
	sys_reset();
	if (run1("S$=\"\":R=77\r")) mc_fail("setup");
	for (int i=0;i<n;i+=60){ char src[128]; sprintf(src,"S$=S$+\"%.*s\"\r",n-i>60?60:n-i,s+i); if (run1(src)) mc_fail("setup2"); }
	int e = run1("R=VAL(S$)\r");
	int64_t w; bool fits = ref_parse(s,n,true,&w);
	mc_validated(1); mc_state(mc_hash(s,n)); mc_nontrivial(mc_hash(s,n));
	if (!fits){ if (e != ERR_OVERFLOW) mc_fail("out of range: got %s, %d/4096",errname(e),sys_num("R")); return; }
	if (e) mc_fail("error %s",errname(e));
	if (sys_num("R") != (fixp)w) mc_fail("%d/4096, expected %lld/4096",sys_num("R"),(long long)w);
}
// HEX$ for all 20-bit integers and digit counts, and back
static void s_hex(void){
	int digits = mc_choose(6); int b = mc_range(1024);
	int step = 1024;
	mc_desc("HEX$(n%s%d) n in [%d,%d)",digits?",":" digits ",digits,b*step-524288,b*step-524288+step);
	sys_reset(); if (run1("V=0:S$=\"\":R=0\r")) mc_fail("setup");
	char src[64]; if (digits) sprintf(src,"S$=HEX$(V,%d):R=VAL(\"&H\"+S$)\r",digits); else strcpy(src,"S$=HEX$(V):R=VAL(\"&H\"+S$)\r");
	int stride = mc_thorough ? 1 : 61;
	for (int i=0;i<step;++i){
		int n = b*step+i-524288;
		if (stride > 1 && i % stride && (n < -300 || n > 300) && i != 1023) continue;
		fixp raw = (u32)n<<12; if (i & 1) raw |= 0x7ff; // fractions are ignored
		sys_find("V",VAR_NUMBER)->value.number = raw;
		int e = run1(src);
		char want[32]; u32 m = (u32)n & 0xfffff;
		bool bad = digits && (n >= (1<<(4*digits)) || n < -(1<<(4*digits-1)));
		if (bad){ if (e != ERR_ILLEGAL_FUNCTION_CALL) mc_fail("HEX$(%d,%d): expected an error, got %s",n,digits,errname(e)); mc_validated(1); continue; }
		if (digits){ m &= (1u<<(4*digits))-1; sprintf(want,"%0*X",digits,m); } else sprintf(want,"%X",m);
		if (e) mc_fail("HEX$(%d,%d): error %s",n,digits,errname(e));
		u8 got[600]; sys_str("S",got);
		if (strcmp((char*)got,want)) mc_fail("HEX$(%d,%d) is %s, expected %s",n,digits,got,want);
		if (sys_num("R") != (fixp)(m<<12)) mc_fail("VAL(\"&H%s\") is %d/4096",want,sys_num("R"));
		mc_state(mc_mix(mc_mix(5,n),digits)); mc_validated(2); mc_nontrivial(mc_mix(n,digits));
	}
}
// &H and &B literals
static void s_baselit(void){
	int base = mc_choose(2); int n = base ? 1+mc_choose(12) : 1+mc_choose(5); char s[40]; int v=0;
	int na = base ? 2 : (mc_thorough && n<=5 ? 16 : 6);
	for (int i=0;i<n;++i){ int d = mc_choose(na); if (!base && na==6) d = (int[]){0,1,7,9,10,15}[d]; s[i] = "0123456789ABCDEF"[d]; v = v*(base?2:16)+d; }
	s[n]=0; char src[80]; sprintf(src,"R=&%c%s\r",base?'B':'H',s);
	mc_desc("%s",src); sys_reset(); int e = run1(src);
	if (e) mc_fail("error %s",errname(e));
	if (sys_num("R") != (fixp)((u32)v<<12)) mc_fail("value %d/4096 expected %d",sys_num("R"),v<<12);
	mc_validated(1); mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src)));
}
// &H and &B texts at and above 20 bits, as literal and with VAL
static void s_bigbase(void){
	int base = mc_choose(2), viaval = mc_choose(2); char s[40]; int n; int64_t v=0;
	if (!base){ n = 5+mc_choose(4); for (int i=0;i<n;++i){ s[i] = "018F"[mc_choose(n>6?3:4)]; } }
	else { n = 19+mc_choose(6); int a = mc_choose(n+1), b = mc_choose(n+1); for (int i=0;i<n;++i) s[i] = (i==a||i==b||(a==n&&b==n)) ? '1':'0'; }
	s[n]=0; v = strtoll(s,NULL,base?2:16);
	char src[80]; sprintf(src,viaval?"R=VAL(\"&%c%s\")\r":"R=&%c%s\r",base?'B':'H',s);
	mc_desc("%s",src); sys_reset(); run1("R=5\r"); int e = run1(src); mc_validated(1); mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src)));
	if (v >= 1<<20){ if (e != ERR_OVERFLOW) mc_fail("expected overflow, got %s and %d/4096",errname(e),sys_num("R")); if (sys_num("R") != 5<<12) mc_fail("target changed"); return; }
	if (e) mc_fail("error %s",errname(e));
	if (sys_num("R") != (fixp)((u32)v<<12)) mc_fail("value %d/4096 expected %lld",sys_num("R"),(long long)v);
}
// &H or &B without a digit is no number: the line is an error, whatever follows, and does nothing
static void s_nodigit(void){
	static const char* const form[]={"R=&%c%c\r","R=&%c%c+1\r","R=&%c%c5\r","R=&%c%c:R=7\r","PRINT &%c%c;2\r","R=1+&%c%c\r","R=ABS(&%c%c)\r","IF &%c%c THEN R=3 ELSE R=4\r"};
	int c=1+mc_range(255), base=mc_choose(2), k=mc_choose(8), opt=mc_choose(4); if ((c>='0'&&c<='9')||(c>='A'&&c<='F')) mc_skip();
	char src[80]; sprintf(src,form[k],base?'B':'H',c); mc_desc_bytes(src,strlen(src)); static const int o[]={0,1,2,4}; sys_reset(); run1("R=5\r"); int e=sys_run(src,o[opt]); mc_validated(1);
	if (!e) mc_fail("runs without an error, R is %d/4096",sys_num("R")); if (sys_num("R")!=5<<12) mc_fail("R changed to %d/4096",sys_num("R")); mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_mix(mc_hash(src,strlen(src)),opt));
}
// leading zeros, and zeros after the fraction, never change a number however many there are
static void s_zeros(void){
	static const char* const ht[]={"0","1","F","1F","11","10","7FFFF","80000","FFFFF","100000"}; static const char* const bt[]={"0","1","10","11","110","1111111111111111111","11111111111111111111","100000000000000000000"};
	static const char* const dt[]={"0","1","12","12.5","0.25",".125","524287","524287.75","524288","99.999"};
	int z=mc_range(231), kind=mc_choose(4), way=mc_choose(3), k=mc_choose(kind==1?8:10); const char* t=kind==0?ht[k]:kind==1?bt[k]:dt[k];
	if (kind==3&&!strchr(t,'.')) { mc_skip(); return; }
	char n[400]="", src[600]; if (kind<2) sprintf(n,"&%c",kind?'B':'H'); int l=strlen(n); if (kind==3){ strcat(n,t); l=strlen(n); } memset(n+l,'0',z); n[l+z]=0; if (kind<3) strcat(n,t);
	snprintf(src,sizeof src,way==0?"R=%s\r":way==1?"R=VAL(\"%s\")\r":"READ R\rDATA %s\r",n);
	double v=kind==0?(double)strtoll(t,NULL,16):kind==1?(double)strtoll(t,NULL,2):strtod(t,NULL);
	mc_desc("%s",src); sys_reset(); run1("R=5\r"); int e=sys_run(src,0); mc_validated(1); mc_state(mc_hash(src,strlen(src))); mc_nontrivial(mc_hash(src,strlen(src)));
	if (way==1&&l+z+strlen(kind<3?t:"")>256) { if (!e) mc_fail("a string of more than 256 characters is accepted"); return; }
	if (kind<2&&way==2) { mc_skip(); return; }
	if (kind<2?v>=1<<20:v>=1<<19){ if (!e||sys_num("R")!=5<<12) mc_fail("expected overflow, got %s and %d/4096",errname(e),sys_num("R")); return; }
	if (e) mc_fail("error %s",errname(e));
	if (sys_num("R")!=(fixp)(u32)(int64_t)(v*4096)) mc_fail("value %d/4096 expected %d/4096",sys_num("R"),(int)(int64_t)(v*4096));
}
const mc_suite mc_suites[] = {
	{"totext",s_totext,MC_QT,sys_boot},{"extreme",s_extreme,MC_QT,sys_boot},{"ints",s_ints,MC_QT,sys_boot},{"biglits",s_biglits,MC_QT,sys_boot},
	{"decs",s_decs,MC_QT,sys_boot},{"val",s_val,MC_QT,sys_boot},{"vallong",s_vallong,MC_QT,sys_boot},{"hex",s_hex,MC_QT,sys_boot},{"baselit",s_baselit,MC_QT,sys_boot},{"bigbase",s_bigbase,MC_QT,sys_boot},{"nodigit",s_nodigit,MC_QT,sys_boot},{"zeros",s_zeros,MC_QT,sys_boot},
};
const int mc_suite_count = sizeof mc_suites/sizeof *mc_suites;

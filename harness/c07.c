// C07: string functions, operators and comparisons against a byte-string model.
#include "bas.h"
const char* mc_rule = "all strings over a two-letter alphabet up to the stated length and lengths around 0, 128 and 256 x all string sources (literal, variable, array element, temporary, wide MEM$) x all position/count/code arguments from negative to past the end and the range limits; all pairs for comparisons and INSTR; all compositions up to the stated depth; all dates and times over the stated characters; non-trivial = non-empty string or refused argument, counted by expression and operands";
typedef struct { int n; u8 b[600]; } bs; // n<0: error
static bs B(const char* s){ bs r; r.n=strlen(s); memcpy(r.b,s,r.n); return r; }
static bs ERR1(void){ bs r; r.n=-1; return r; }
static bs mid(bs s, int a, int n){ if (s.n<0||a<0||n<0) return ERR1(); bs r; r.n=0; for (int i=a;i<s.n&&r.n<n;++i) r.b[r.n++]=s.b[i]; return r; }
static bs left(bs s, int n){ return mid(s,0,n); }
static bs right(bs s, int n){ if (n<0) return ERR1(); return mid(s,n>s.n?0:s.n-n,n); }
static bs cat(bs a, bs b){ if (a.n<0||b.n<0||a.n+b.n>256) return ERR1(); memcpy(a.b+a.n,b.b,b.n); a.n+=b.n; return a; }
static bs rep(bs a, int k){ if (a.n<0) return a; bs r; r.n=0; if ((long)a.n*k>256) return ERR1(); for (int i=0;i<k;++i){ memcpy(r.b+r.n,a.b,a.n); r.n+=a.n; } return r; }
static bs subst(bs s, int a, int n, bs w){
	if (s.n<0||w.n<0||a<0||a>s.n) return ERR1(); if (n<0||n>s.n-a) n=s.n-a;
	bs r; r.n=0; for (int i=0;i<a;++i) r.b[r.n++]=s.b[i]; for (int i=0;i<w.n;++i) r.b[r.n++]=w.b[i]; for (int i=a+n;i<s.n;++i) r.b[r.n++]=s.b[i];
	if (r.n>256) return ERR1(); return r;
}
static int instr(bs s, bs w, int a){ for (int i=a;i+w.n<=s.n;++i) if (!memcmp(s.b+i,w.b,w.n)) return i; return -1; }
// strings over {a,b} in order of length
static bs small(int i){ int n=0,c=1; while (i>=c){ i-=c; c*=2; ++n; } bs r; r.n=n; for (int k=0;k<n;++k) r.b[k]='a'+((i>>k)&1); return r; }
static int nsmall(int l){ return (2<<l)-1; }
static bs longs(int n){ bs r; r.n=n; for (int i=0;i<n;++i) r.b[i]=43+(i*7+i/26)%45; return r; }
// put a string into the place `kind` and return the expression for it
enum { LIT, VARI, ELEM, TEMP, WIDE, NKIND };
static void fillstr(const char* v, bs s){ // v: name of a string variable; content written byte by byte into its own storage
	must("%s$=\"x\"*%d",v,s.n); struct string* d=sys_find(v,VAR_STRING)->value.ptr; if (!s.n) return;
	if (d->type!=STRING_CHAR||d->len!=(unsigned)s.n) mc_fail("repetition gave a string of another length"); memcpy(d->ptr.s,s.b,s.n);
}
static const char* put(int kind, int slot, bs s){
	static char e[2][600]; static const char* const vn[]={"S","W"};
	if (kind==LIT){ if (s.n>60) mc_skip(); sprintf(e[slot],"\"%.*s\"",s.n,s.b); for (int i=0;i<s.n;++i) if (s.b[i]<32||s.b[i]=='"') mc_skip(); return e[slot]; }
	fillstr(vn[slot],s);
	if (kind==VARI) sprintf(e[slot],"%s$",vn[slot]);
	if (kind==ELEM){ must("E%d$[3]=%s$",slot,vn[slot]); sprintf(e[slot],"E%d$[3]",slot); }
	if (kind==TEMP) sprintf(e[slot],"(%s$+\"\")",vn[slot]);
	if (kind==WIDE){ if (slot) mc_skip(); must("MEM$=S$"); strcpy(e[slot],"MEM$"); }
	return e[slot];
}
static char shown[1300]; static const char* pr(bs s){ int j=0; for (int i=0;i<s.n&&j<900;++i) j+=s.b[i]>=32&&s.b[i]<127?sprintf(shown+j,"%c",s.b[i]):sprintf(shown+j,"<%d>",s.b[i]); shown[j]=0; return shown; }
static void same(const char* ex, const char* var, bs want){
	u8 g[600]; int n=sys_str(var,g); mc_validated(1);
	if (n!=want.n||memcmp(g,want.b,n)){ bs x; x.n=n; memcpy(x.b,g,n); static char t[1300]; strcpy(t,pr(x)); mc_fail("%s is \"%.300s\" (%d), expected \"%.300s\" (%d)",ex,t,n,pr(want),want.n); }
}
static void str_is(bs want, const char* f, ...){
	char ex[1500]; va_list a; va_start(a,f); vsnprintf(ex,sizeof ex,f,a); va_end(a); mc_trans(1);
	must("R$=\"old\""); int e=bas("R$=%s",ex); mc_validated(1);
	if (want.n<0){ if (!e) mc_fail("%s reported no error",ex); same("R$ after the refused statement","R",B("old")); return; }
	if (e) mc_fail("%s: %s",ex,errname(e)); same(ex,"R",want);
}
static void num_is(int bad, fixp want, const char* f, ...){
	char ex[1500]; va_list a; va_start(a,f); vsnprintf(ex,sizeof ex,f,a); va_end(a); mc_trans(1);
	must("R=77"); int e=bas("R=%s",ex); fixp r=sys_find("R",VAR_NUMBER)->value.number; mc_validated(1);
	if (bad){ if (!e) mc_fail("%s reported no error",ex); if (r!=77<<12) mc_fail("%s failed but changed its target",ex); return; }
	if (e) mc_fail("%s: %s",ex,errname(e)); if (r!=want) mc_fail("%s is %f, expected %f",ex,r/4096.0,want/4096.0);
}
static const int lens[]={127,128,129,254,255,256};
static int argv_(int k, int n){ const int t[]={-524287,-2,-1,0,1,2,3,n-2,n-1,n,n+1,n+2,255,256,257,4095,524287}; return t[k]; }
#define NARG 17
static const char* num(int v){ static char b[4][20]; static int k; k=(k+1)&3; sprintf(b[k],"%d",v); return b[k]; }
static bs pick(int L){ int i=mc_range(nsmall(L)+6); return i<nsmall(L)?small(i):longs(lens[i-nsmall(L)]); }
static void s_sub(void){
	bs s=pick(mc_thorough?5:3); int kind=mc_choose(NKIND); sys_reset(); setmode(mc_choose(2)*2);
	const char* e=put(kind,0,s); mc_desc("kind %d string \"%s\" (%d)",kind,pr(s),s.n);
	mc_nontrivial(mc_mix(mc_hash(s.b,s.n),kind*10+s.n*100+mode));
	num_is(0,s.n<<12,"LEN(%s)",e);
	num_is(!s.n,s.n?s.b[0]<<12:0,"ASC(%s)",e);
	for (int i=0;i<NARG;++i){
		int a=argv_(i,s.n);
		str_is(left(s,a),"LEFT$(%s,%d)",e,a); str_is(right(s,a),"RIGHT$(%s,%d)",e,a);
		if (a>=0 && a<1000){ str_is(left(s,a),"LEFT$(%s,%d.9)",e,a); str_is(mid(s,a,2),"MID$(%s,%d.75,2.5)",e,a); }
		for (int j=0;j<NARG;++j){ int n=argv_(j,s.n); str_is(mid(s,a,n),"MID$(%s,%d,%d)",e,a,n); }
		str_is(rep(s,a<0?0:a),"%s*%s",e,num(a)); 
	}
	mc_state(sys_hash_vars()); if (kind!=LIT) same("the argument","S",s);
	if (kind==WIDE){ must("S$=MEM$"); same("MEM$","S",s); }
}
static void s_subst(void){
	bs s=pick(mc_thorough?4:2), w; int k=mc_choose(mc_thorough?9:6); w = k==0?B(""):k==1?B("X"):k==2?B("XYZ"):k==3?longs(256):k==4?longs(2):k==5?longs(100):k==6?longs(1):k==7?longs(128):longs(255);
	int kind=mc_choose(NKIND), kw=mc_choose(4); if (kw==LIT&&w.n>60) mc_skip();
	sys_reset(); setmode(2); const char* e=put(kind,0,s); const char* f=put(kw,1,w); mc_desc("\"%s\" kinds %d %d with %d",pr(s),kind,kw,w.n);
	mc_nontrivial(mc_mix(mc_hash(s.b,s.n),mc_mix(s.n,kind*10+kw+k*100)));
	for (int i=0;i<NARG;++i) for (int j=0;j<NARG;++j){ int a=argv_(i,s.n), n=argv_(j,s.n); if (!mc_thorough && s.n>200 && (i^j)&1) continue; str_is(subst(s,a,n,w),"SUBST$(%s,%d,%d,%s)",e,a,n,f); }
	mc_state(sys_hash_vars()); if (kind!=LIT) same("the argument","S",s); if (kw!=LIT) same("the replacement","W",w);
}
static void s_instr(void){
	int L=mc_thorough?7:5, i=mc_range(nsmall(L)), j=mc_range(nsmall(mc_thorough?4:3)); bs s=small(i), w=small(j);
	int kind=mc_choose(NKIND), kw=mc_choose(2)?VARI:LIT; sys_reset(); setmode(2);
	const char* e=put(kind,0,s); const char* f=put(kw,1,w); mc_desc("\"%s\" ",pr(s)); mc_desc("in \"%s\" kinds %d %d",pr(w),kind,kw);
	mc_nontrivial(mc_mix(i*1000+j,kind*10+kw));
	num_is(0,(w.n?instr(s,w,0):0)*4096,"INSTR(%s,%s)",e,f);
	for (int a=-1;a<=s.n+2;++a){ if (!w.n && a>0) continue; if (a<0&&!w.n) continue; num_is(a<0,(w.n?instr(s,w,a):0)*4096,"INSTR(%s,%s,%d)",e,f,a); }
	mc_state(sys_hash_vars());
}
static void s_instrl(void){ // long strings: match at every position
	int n=lens[mc_choose(6)], m=mc_choose(4), kind=mc_choose(4)+1; m = m==0?1:m==1?2:m==2?17:n; sys_reset(); setmode(2); bs s=longs(n);
	const char* e=put(kind,0,s); mc_desc("length %d, parts of %d, kind %d",n,m,kind); mc_nontrivial(n*1000+m*4+kind);
	for (int a=0;a+m<=n;++a){
		bs w=mid(s,a,m); fillstr("W",w); int first=instr(s,w,0);
		num_is(0,first*4096,"INSTR(%s,W$)",e); num_is(0,a*4096,"INSTR(%s,W$,%d)",e,a); num_is(0,instr(s,w,a+1)*4096,"INSTR(%s,W$,%d)",e,a+1);
		w.b[m-1]=1; fillstr("W",w); num_is(0,-4096,"INSTR(%s,W$)",e);
	}
	mc_state(sys_hash_vars());
}
// ---- codes
static void s_chr(void){
	int c=mc_range(264)-4, fr=mc_choose(3); sys_reset(); setmode(2*mc_choose(2)); mc_desc("CHR$(%d+%d/4)",c,fr);
	bool ok=c>=0&&c<=255; bs w; w.n=ok?1:-1; w.b[0]=c; mc_nontrivial(c*4+fr);
	if (fr && c<0) mc_skip();
	const char* f=fr==0?"":fr==1?".25":".999"; char e[40]; sprintf(e,"CHR$(%d%s)",c,f); str_is(w,"%s",e);
	if (!ok){ str_is(w,"CHR$(%d)",c*1999); num_is(1,0,"LEN(%s)",e); return; }
	num_is(0,c<<12,"ASC(%s)",e); num_is(0,c<<12,"ASC(%s+\"b\")",e); num_is(0,4096,"LEN(%s)",e);
	bs ab=B("a-b"); ab.b[1]=c; str_is(ab,"\"a\"+%s+\"b\"",e);
	must("MEM$=\"a\"+%s+\"b\"",e); str_is(ab,"MEM$"); str_is(w,"MID$(MEM$,1,1)"); num_is(0,c<<12,"ASC(MID$(MEM$,1,2))"); num_is(0,4096,"MEM$==\"a\"+%s+\"b\"",e); num_is(0,4096,"INSTR(MEM$,%s+\"b\")",e);
	must("MEM$=%s",e); num_is(0,c<<12,"ASC(MEM$)"); num_is(0,4096,"MEM$==%s",e); num_is(0,0,"MEM$!=%s",e);
	str_is(rep(w,256),"%s*256",e); must("MEM$=%s*256",e); str_is(rep(w,256),"MEM$");
	if (c>=33&&c<127&&c!='"'){ char q[9]; sprintf(q,"\"%c\"",c); num_is(0,c<<12,"ASC(%s)",q); num_is(0,4096,"%s==%s",q,e); str_is(w,"%s",q); }
	mc_state(sys_hash_vars());
}
static void s_chrpair(void){ // every pair of codes through the wide string and the six comparisons
	static u16 wd[256]; int a=mc_range(256), kind=mc_choose(2); sys_reset(); setmode(2);
	// order of the characters: that of their 16-bit codes in the screen's character set
	static const u8 kana[]={2,0xc,0xd,1,0xfb,0xf2,0xa1,0xa3,0xa5,0xa7,0xa9,0xe3,0xe5,0xe7,0xc3,0,0xa2,0xa4,0xa6,0xa8,0xaa,0xab,0xad,0xaf,0xb1,0xb3,0xb5,0xb7,0xb9,0xbb,0xbd,0xbf,0xc1,0xc4,0xc6,0xc8,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd2,0xd5,0xd8,0xdb,0xde,0xdf,0xe0,0xe1,0xe2,0xe4,0xe6,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xef,0xf3,0x9b,0x9c};
	for (int c=0;c<256;++c) wd[c] = c<0x21||(c>=0x80&&c<0xa1)||c>=0xe0 ? c : c<0x80 ? 0xff00+c-0x20 : c==0xb0 ? 0xff70 : 0x3000+kana[c-0xa1];
	wd[0x22]=0x201d; wd[0x27]=0x2019; wd[0x5c]=0xffe5;
	mc_desc("code %d kind %d",a,kind); mc_nontrivial(a*2+kind);
	must("S$=CHR$(%d):W$=\"x\"+\"\"",a); struct string* w=sys_find("W",VAR_STRING)->value.ptr; if (kind) must("MEM$=S$");
	for (int b=0;b<256;++b){ w->ptr.s[0]=b; const char* l=kind?"MEM$":"S$";
		int r=(wd[a]>wd[b])-(wd[a]<wd[b]); must("R=(%s<W$)+2*(%s<=W$)+4*(%s>W$)+8*(%s>=W$)+16*(%s==W$)+32*(%s!=W$)",l,l,l,l,l,l);
		int want=(r<0)+2*(r<=0)+4*(r>0)+8*(r>=0)+16*(r==0)+32*(r!=0), g=sys_num("R")>>12; mc_validated(6);
		if (g!=want) mc_fail("codes %d and %d: comparisons (<,<=,>,>=,==,!=) %d, expected %d",a,b,g,want);
	}
	mc_state(mc_mix(a,kind));
}
// ---- comparisons of strings
static int lex(bs a, bs b){ int n=a.n<b.n?a.n:b.n; for (int i=0;i<n;++i) if (a.b[i]!=b.b[i]) return a.b[i]<b.b[i]?-1:1; return (a.n>b.n)-(a.n<b.n); }
static void cmp6(bs a, bs b, const char* x, const char* y){
	static const char* const op[]={"<","<=",">",">=","==","!="}; int r=lex(a,b); bool w[]={r<0,r<=0,r>0,r>=0,r==0,r!=0};
	for (int i=0;i<6;++i) num_is(0,w[i]<<12,"%s%s%s",x,op[i],y);
}
static void s_cmp(void){
	int L=mc_thorough?4:3, i=mc_range(nsmall(L)), j=mc_range(nsmall(L)), k1=mc_choose(NKIND), k2=mc_choose(4); bs a=small(i), b=small(j);
	sys_reset(); setmode(2*mc_choose(2)); const char* x=put(k1,0,a); const char* y=put(k2,1,b); mc_desc("\"%s\" ",pr(a)); mc_desc("with \"%s\" kinds %d %d",pr(b),k1,k2);
	mc_nontrivial(mc_mix(i*1000+j,k1*10+k2)); cmp6(a,b,x,y); mc_state(sys_hash_vars());
}
static void s_cmpl(void){ // long strings that differ at one position or in length
	int n=lens[mc_choose(6)], k1=mc_choose(4)+1, k2=mc_choose(3)+1, how=mc_choose(3); sys_reset(); setmode(2); bs a=longs(n);
	const char* x=put(k1,0,a); mc_desc("length %d kinds %d %d how %d",n,k1,k2,how); mc_nontrivial(n*100+k1*10+k2+how*100000);
	if (how==2) for (int m=0;m<=256;m+=(m<120||m>250)?1:13){ bs b=longs(m); cmp6(a,b,x,put(k2,1,b)); }
	else for (int p=0;p<n;p+=mc_thorough?1:11){ bs b=a; b.b[p]+=how?1:-1; cmp6(a,b,x,put(k2,1,b)); }
	mc_state(sys_hash_vars());
}
// ---- concatenation
static const int cl[]={0,1,2,100,127,128,129,155,156,157,254,255,256};
static void s_cat(void){
	int a=cl[mc_range(13)], b=cl[mc_range(13)], k1=mc_choose(NKIND), k2=mc_choose(4); sys_reset(); setmode(2*mc_choose(2)); bs s=longs(a), w=longs(b); for (int i=0;i<b;++i) w.b[i]=255-i;
	const char* x=put(k1,0,s); const char* y=put(k2,1,w); mc_desc("%d+%d kinds %d %d",a,b,k1,k2); mc_nontrivial(mc_mix(a*1000+b,k1*10+k2));
	str_is(cat(s,w),"%s+%s",x,y); str_is(cat(cat(s,w),B("z")),"%s+%s+\"z\"",x,y); str_is(cat(s,cat(w,s)),"%s+(%s+%s)",x,y,x); num_is(cat(s,w).n<0,cat(s,w).n<<12,"LEN(%s+%s)",x,y);
	if (k1==VARI){ must("S$=S$+\"\""); bs r=cat(s,w); int e=bas("S$=S$+%s",y); if (!e!=(r.n>=0)) mc_fail("S$=S$+%s: %s",y,errname(e)); same("S$ after appending","S",r.n<0?s:r); put(k1,0,s); }
	for (int k=-1;k<=4;++k) str_is(rep(s,k),"%s*%d",x,k);
	str_is(rep(s,k1==0?300:2),"%s*(%d)",x,k1==0?300:2); str_is(rep(s,3),"%s*3.99",x);
	mc_state(sys_hash_vars());
}
// ---- compositions: arguments that are themselves results
typedef struct { bs v; char t[400]; } ex;
static ex gen(int d){
	ex r; int k=mc_choose(d?8:3);
	if (k==0){ r.v=B("ab"); strcpy(r.t,"\"ab\""); return r; }
	if (k==1){ r.v=B("xyz"); strcpy(r.t,"S$"); return r; }
	if (k==2){ r.v=B("m"); strcpy(r.t,"MEM$"); return r; }
	ex a=gen(d-1); 
	switch (k){
		case 3: r.v=left(a.v,1); snprintf(r.t,400,"LEFT$(%.300s,1)",a.t); break;
		case 4: r.v=right(a.v,2); snprintf(r.t,400,"RIGHT$(%.300s,2)",a.t); break;
		case 5: r.v=rep(a.v,2); snprintf(r.t,400,"(%.300s)*2",a.t); break;
		case 6: { ex b=gen(d-1); r.v=cat(a.v,b.v); snprintf(r.t,400,"(%.180s+%.180s)",a.t,b.t); break; }
		default:{ ex b=gen(d-1); r.v=subst(a.v,1,1,b.v); snprintf(r.t,400,"SUBST$(%.180s,1,1,%.180s)",a.t,b.t); }
	}
	return r;
}
static void comp(int d){
	ex e=gen(d); sys_reset(); setmode(2*mc_choose(2)); must("S$=\"xyz\":MEM$=\"m\""); mc_desc("%s",e.t);
	mc_nontrivial(mc_hash(e.t,strlen(e.t))+mode); str_is(e.v,"%s",e.t); num_is(e.v.n<0,e.v.n<<12,"LEN(%s)",e.t);
	int q=bas("S$=%s",e.t); mc_validated(1); if ((q!=0)!=(e.v.n<0)) mc_fail("S$=%s: %s",e.t,errname(q)); same("S$","S",q?B("xyz"):e.v); mc_state(sys_hash_vars());
}
static void s_comp2(void){ comp(2); }
static void s_comp3(void){ comp(3); }
// ---- dates and times
static bool dig(char c){ return c>='0'&&c<='9'; }
static void dt(int tm){
	static const char al[]="0957/:A "; const char* base=tm?"12:34:56":"2024/12/31"; int L=strlen(base);
	int how=mc_choose(4), kind=mc_choose(2)+1; if (kind==2) kind=WIDE; bs s=B(base); 
	if (how==0){ int p=mc_choose(L), q=mc_choose(L); s.b[p]=al[mc_choose(8)]; s.b[q]=al[mc_choose(8)]; }
	else if (how==1){ int n=mc_choose(14); s=longs(n); for (int i=0;i<n;++i) s.b[i]=base[i%L]; }
	else if (how==2){ int p=mc_choose(L); s.b[p]=mc_range(256); }
	else { char t[30]; int a=mc_choose(8), b=mc_choose(6), c=mc_choose(6); static const int ys[]={0,1,9,10,1999,2000,9998,9999}, ds[]={0,1,9,10,59,99};
		if (tm) sprintf(t,"%02d:%02d:%02d",ys[a]%100,ds[b],ds[c]); else sprintf(t,"%04d/%02d/%02d",ys[a],ds[b],ds[c]); s=B(t); }
	sys_reset(); setmode(2*mc_choose(2)); const char* e=put(kind,0,s); mc_desc("%s(\"%s\")",tm?"TMREAD":"DTREAD",pr(s)); 
	must("Y=-1:M=-2:D=-3"); int r=bas("%s(%s),Y,M,D",tm?"TMREAD":"DTREAD",e);
	bool ok=s.n==L; for (int i=0;i<L&&ok;++i) ok=dig(base[i])?dig(s.b[i]):s.b[i]==base[i];
	int v[3]={-1,-2,-3}; if (ok){ int k=0; v[0]=v[1]=v[2]=0; for (int i=0;i<L;++i) if (dig(s.b[i])) v[k]=v[k]*10+s.b[i]-'0'; else ++k; }
	mc_validated(4); if (ok&&r) mc_fail("refused: %s",errname(r)); if (!ok&&!r) mc_fail("accepted");
	static const char* const n[]={"Y","M","D"}; for (int i=0;i<3;++i) if (sys_num(n[i])!=v[i]*4096) mc_fail("%s is %f, expected %d",n[i],sys_num(n[i])/4096.0,v[i]);
	mc_nontrivial(mc_mix(mc_hash(s.b,s.n),s.n*4+kind+tm)); mc_state(sys_hash_vars());
}
static void s_date(void){ dt(0); }
static void s_time(void){ dt(1); }
// ---- wrong kinds and numbers of arguments
static void s_args(void){
	static const char* const fn[]={"LEN","ASC","CHR$","LEFT$","RIGHT$","MID$","SUBST$","INSTR","HEX$","STR$","VAL"};
	static const char* const sig[]={"s","s","n","sn","sn","snn","snns","ss|ssn","n|nn","n","s"};
	int f=mc_range(11), n=mc_choose(mc_thorough?6:5), k[6]; for (int i=0;i<n;++i) k[i]=mc_choose(2);
	char t[200]; strcpy(t,fn[f]); if (n==1) {} strcat(t,"("); char s[8]=""; for (int i=0;i<n;++i){ strcat(t,i?",":""); strcat(t,k[i]?"\"1\"":"1"); strcat(s,k[i]?"s":"n"); } strcat(t,")");
	bool ok=false; char sg[30]; strcpy(sg,sig[f]); for (char* q=strtok(sg,"|");q;q=strtok(NULL,"|")) if (!strcmp(q,s)) ok=true;
	sys_reset(); setmode(2*mc_choose(2)); must("Q$=\"old\":Q=5"); mc_desc("%s",t); bool isstr=strchr(fn[f],'$');
	if (!strcmp(fn[f],"SUBST$")&&!strcmp(s,"sns")) mc_skip(); // short form not specified
	int e=bas("%s=%s",isstr?"Q$":"Q",t); mc_validated(1); if (ok&&e) mc_fail("refused: %s",errname(e)); if (!ok&&!e) mc_fail("accepted");
	if (e){ shows("old","Q$"); shows("5","Q"); } mc_nontrivial(mc_hash(t,strlen(t))+mode); mc_state(sys_hash_vars());
}
static void boot(void){ sys_boot_small(64,48,512); }
const mc_suite mc_suites[] = {
	{"sub",s_sub,MC_QT,boot},{"subst",s_subst,MC_QT,boot},{"instr",s_instr,MC_QT,boot},{"instrl",s_instrl,MC_QT,boot},{"chr",s_chr,MC_QT,boot},{"chrpair",s_chrpair,MC_QT,boot},
	{"cmp",s_cmp,MC_QT,boot},{"cmpl",s_cmpl,MC_QT,boot},{"cat",s_cat,MC_QT,boot},{"comp2",s_comp2,MC_QT,boot},{"comp3",s_comp3,MC_T,boot},
	{"date",s_date,MC_QT,boot},{"time",s_time,MC_QT,boot},{"args",s_args,MC_QT,boot},
};
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

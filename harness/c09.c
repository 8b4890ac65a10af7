// C09: SORT and RSORT order exactly the given range and permute companions alike.
#include "bas.h"
const char* mc_rule = "all arrays of up to the stated length over the suites' value lists (numbers including extremes and fractions; strings of different length, prefixes, wide characters), all ranges within them, both directions, number and string keys, 0-32 companion arrays; all start/size values of the list with missing, two-dimensional, repeated and shorter arrays; all three lookup modes; non-trivial = at least one element moved or an illegal call refused, counted by contents and call";
static union value* arr(const char* n, int s){ struct named_var* v=sys_find(n,(s?VAR_STRING:VAR_NUMBER)|VAR_ARRAY); if (!v) mc_fail("array %s is gone",n); return arr_entry(v->value.ptr,0,0); }
static const char* const pool[]={"","?","A","AB","B","a"};
static int pl(int i, char* o){ sprintf(o,"%s",pool[i]); return strlen(o); }
static const fixp nums[]={-2147483647,-4097,-1,0,1,2147483647};
static union value key[2][6];
static void keys(void){ char t[20];
	must("DIM P$(6)"); for (int i=0;i<6;++i){ pl(i,t); must("P$(%d)=\"%s\"",i,t); } must("P$(1)=CHR$(177)");
	union value* p=arr("P",1); for (int i=0;i<6;++i){ key[0][i].number=nums[i]; key[1][i]=p[i]; } }
// rank of a key = its index in the list: both lists are in ascending order
static int rank_of(union value v, int s){ for (int i=0;i<6;++i) if (s?v.ptr==key[1][i].ptr:v.number==key[0][i].number) return i; return -1; }
static const char* const cmp_list[]={"",",N",",T$",",N,T$",",T$,N",",N,T$,M,U$"};
static void setall(int n, const int* d, int s, union value* a, union value* N, union value* T, union value* M, union value* U){
	for (int i=0;i<n;++i){ a[i]=key[s][d[i]]; N[i].number=i<<12; M[i].number=i*3+1; T[i]=key[1][(i+d[i])%6]; U[i]=key[1][(i*5+1)%6]; } }
static void check(int n, const int* d, int s, int st, int sz, int r, int comp, union value* a, union value* N, union value* T, union value* M, union value* U){
	int ids=comp==1||comp>=3, m=comp==5, t=comp>=2; int got[600], seen[600]={0};
	for (int i=0;i<n;++i){ got[i]=rank_of(a[i],s); if (got[i]<0) mc_fail("element %d is none of the previous elements",i); }
	for (int i=0;i<n;++i) if ((i<st||i>=st+sz) && got[i]!=d[i]) mc_fail("element %d outside the range %d,%d changed",i,st,sz);
	for (int i=st;i+1<st+sz;++i) if (r?got[i]<got[i+1]:got[i]>got[i+1]) mc_fail("elements %d and %d of range %d,%d are out of order",i,i+1,st,sz);
	int c[6]={0}; for (int i=0;i<n;++i){ c[d[i]]++; c[got[i]]--; } for (int i=0;i<6;++i) if (c[i]) mc_fail("the elements are not a permutation of the previous ones");
	for (int i=0;i<n;++i){
		int o=i;
		if (ids){ o=N[i].number>>12; if (N[i].number&4095||o<0||o>=n||seen[o]++) mc_fail("companion element %d is not from a permutation",i);
			if (got[i]!=d[o]) mc_fail("companion permuted differently at %d",i);
			if ((i<st||i>=st+sz) && o!=i) mc_fail("companion element %d outside the range changed",i);
		} else if (N[i].number!=i<<12) mc_fail("an unlisted array changed");
		if (t){ if (ids||i<st||i>=st+sz){ if (T[i].ptr!=key[1][(o+d[o])%6].ptr) mc_fail("string companion permuted differently at %d",i); } }
		else if (T[i].ptr!=key[1][(i+d[i])%6].ptr) mc_fail("an unlisted string array changed");
		if (m){ if (M[i].number!=o*3+1||U[i].ptr!=key[1][(o*5+1)%6].ptr) mc_fail("third or fourth companion permuted differently at %d",i); }
		else if (M[i].number!=i*3+1||U[i].ptr!=key[1][(i*5+1)%6].ptr) mc_fail("an unlisted array changed");
	}
	if (t && !ids){ int k[40]={0}; for (int i=st;i<st+sz;++i){ k[6*d[i]+(i+d[i])%6]++; k[6*got[i]+rank_of(T[i],1)]--; } for (int i=0;i<36;++i) if (k[i]) mc_fail("key and companion no longer belong together"); }
	mc_validated(n);
}
static void one(int n, const int* d, int s, int comp, int all){
	must("DIM A(%d),A$(%d),N(%d),T$(%d),M(%d),U$(%d)",n,n,n,n,n,n);
	union value *a=arr("A",s), *N=arr("N",0), *T=arr("T",1), *M=arr("M",0), *U=arr("U",1);
	must("S=0:Z=0");
	struct named_var *S=sys_find("S",VAR_NUMBER), *Z=sys_find("Z",VAR_NUMBER);
	uint64_t h=mc_hash(d,n*sizeof *d);
	for (int r=0;r<2;++r){
		char b[80]; sprintf(b,"%s S,Z,A%s%s\r",r?"RSORT":"SORT",s?"$":"",cmp_list[comp]);
		int e=sys_compile(b,opts()); if (e) mc_fail("not compiled: %s",errname(e));
		for (int st=0;st<(all?n:1);++st) for (int sz=all?0:n;sz<=n-st;++sz){
			setall(n,d,s,a,N,T,M,U); S->value.number=st<<12; Z->value.number=sz<<12;
			e=sys_go(); mc_trans(1); if (e) mc_fail("%d,%d refused: %s",st,sz,errname(e));
			check(n,d,s,st,sz,r,comp,a,N,T,M,U);
		}
	}
	mc_state(h); mc_nontrivial(mc_mix(h,n*100+s*10+comp));
	// leave consistent owners behind
	for (int i=0;i<n;++i){ T[i].ptr=empty_str; U[i].ptr=empty_str; if (s) a[i].ptr=empty_str; }
}
static void s_small(void){
	int N=mc_thorough?8:6, n=1+mc_choose(N), K=n<=5?6:4, d[8]; int tot=1; for (int i=0;i<n;++i) tot*=K;
	int v=mc_range(tot), s=mc_choose(2), comp=n<=4?mc_choose(6):mc_choose(2)*5; sys_reset(); setmode((v+s+comp)%3); keys();
	for (int i=0,x=v;i<n;++i,x/=K) d[i]=K==6?x%K:x%K+1;
	mc_desc("%s array [",s?"string":"number"); for (int i=0;i<n;++i) mc_desc("%d ",d[i]); mc_desc("]%s",cmp_list[comp]);
	one(n,d,s,comp,1);
}
// longer arrays of few different values, whole range and every rotation
static void s_bits(void){
	int n=mc_thorough?17:12, base=1<<n, v=mc_range(base), s=mc_choose(2), comp=mc_choose(2)*5; int d[20]; sys_reset(); setmode(v%3); keys();
	mc_desc("%d elements, bits %x",n,v); for (int i=0;i<n;++i) d[i]=v>>i&1?4:1;
	one(n,d,s,comp,!mc_thorough && s==0 && comp);
}
static void s_perm(void){
	// all permutations: numbers via ranks beyond the key list
	int n=mc_thorough?10:8, used=0; int pm[10]; int f=1; for (int i=2;i<=n;++i) f*=i;
	int v=mc_range(f), r=mc_choose(2); sys_reset(); setmode(v%3);
	for (int i=0,x=v,m=f;i<n;++i){ m/=n-i; int k=x/m; x%=m; int j=0; for (;;++j){ if (used>>j&1) continue; if (!k--) break; } used|=1<<j; pm[i]=j; }
	mc_desc("%s permutation",r?"RSORT":"SORT"); for (int i=0;i<n;++i) mc_desc(" %d",pm[i]);
	must("DIM A(%d),N(%d)",n+2,n+2); union value *a=arr("A",0), *N=arr("N",0);
	for (int i=0;i<n+2;++i){ N[i].number=i; a[i].number=77; } for (int i=0;i<n;++i) a[i+1].number=(pm[i]-3)*1000;
	must("%s 1,%d,A,N",r?"RSORT":"SORT",n); mc_validated(n);
	for (int i=0;i<n;++i){ int want=r?n-1-i:i; if (a[i+1].number!=(want-3)*1000) mc_fail("element %d is wrong",i); int o=N[i+1].number-1; if (o<0||o>=n||pm[o]!=want) mc_fail("companion %d is wrong",i); }
	if (a[0].number!=77||a[n+1].number!=77||N[0].number!=0||N[n+1].number!=n+1) mc_fail("an element outside the range changed");
	mc_state(v); mc_nontrivial(v*2+r);
}
// every length and shape, including those that degenerate a quicksort
static int shape(int k, int i, int n){
	switch (k){
		case 0: return i; case 1: return n-i; case 2: return 5; case 3: return i<n/2?i:n-i; case 4: return i<n/2?n-i:i;
		case 5: return i%2; case 6: return (i*7919)%n; case 7: return i%2?i:n-i; case 8: return i==n-1?-1:i; case 9: return i==0?n:i;
		case 10: return i==n/2?-1:i; case 11: return i==n/2?n:i; default: return (i*31)%5;
	}
}
static int icmp(const void* a, const void* b){ int x=*(const int*)a,y=*(const int*)b; return x<y?-1:x>y; }
static void s_shape(void){
	int L=mc_thorough?450:300; int n=1+mc_range(L), k=mc_choose(13), r=mc_choose(2); sys_reset(); setmode(n%3);
	mc_desc("%s shape %d length %d",r?"RSORT":"SORT",k,n); must("DIM A(%d),N(%d)",n,n);
	union value *a=arr("A",0), *N=arr("N",0); int w[500], o[500];
	for (int i=0;i<n;++i){ w[i]=o[i]=shape(k,i,n); a[i].number=w[i]*4096+1; N[i].number=i; }
	qsort(w,n,sizeof *w,icmp);
	must("%s 0,%d,A,N",r?"RSORT":"SORT",n); mc_validated(n); char seen[500]={0};
	for (int i=0;i<n;++i){ int want=r?w[n-1-i]:w[i]; if (a[i].number!=want*4096+1) mc_fail("element %d is wrong",i);
		int q=N[i].number; if (q<0||q>=n||seen[q]++||o[q]!=want) mc_fail("companion %d is wrong",i); }
	mc_state(mc_mix(77,n*13+k)); mc_nontrivial(mc_mix(n,k*2+r));
}
static void b_big(void){ sys_boot_small(0,0,262144); }
static void s_big(void){
	int k=mc_choose(13), r=mc_choose(2), n=mc_thorough?60000:20000; if (k==3||k==4) n/=10; sys_reset(); setmode(k%3); mc_desc("shape %d length %d",k,n); mc_no_case_timer(120);
	must("DIM A(%d),N(%d)",n,n); union value *a=arr("A",0), *N=arr("N",0); int* o=malloc(n*sizeof *o);
	for (int i=0;i<n;++i){ o[i]=shape(k,i,n); a[i].number=o[i]; N[i].number=i; }
	must("%s 0,%d,A,N",r?"RSORT":"SORT",n); char* seen=calloc(n,1);
	for (int i=0;i<n;++i){ int q=N[i].number; if (q<0||q>=n||seen[q]++||a[i].number!=o[q]) mc_fail("companion %d is wrong",i); if (i && (r?a[i-1].number<a[i].number:a[i-1].number>a[i].number)) mc_fail("element %d out of order",i); }
	mc_validated(n); free(o); free(seen); mc_state(k); mc_nontrivial(k*2+r);
}
// ---- order of string keys: every pair of strings over a small alphabet
static void s_strings(void){
	static const u16 al[]={'A','B','a',' ',0xB1,0xE0}; int L=mc_thorough?4:3, tot=0, p=1; for (int i=0;i<=L;++i,p*=6) tot+=p; // strings up to length L
	int x=mc_range(tot), wide=mc_choose(2); sys_reset(); setmode(x%3); char sx[40]="\"\""; 
	int dx[8],lx=0; { int q=x,m=1; while (q>=m){ q-=m; m*=6; ++lx; } for (int i=0;i<lx;++i){ dx[i]=q%6; q/=6; } }
	(void)sx; mc_desc("string #%d%s",x,wide?" stored wide":"");
	must("DIM A$(3)"); must("A$=\"\""); for (int i=0;i<lx;++i) must("A$=A$+CHR$(%d)",al[dx[i]]);
	if (wide) must("A$=LEFT$(A$+\"\",LEN(A$))");
	struct named_var* S=sys_find("A",VAR_STRING);
	int e=sys_compile("SORT 0,2,A$\r",opts()); if (e) mc_fail("%s",errname(e));
	must("B$=\"\""); 
	for (int y=0;y<tot;y+=mc_thorough?1:1){
		int dy[8],ly=0; int q=y,m=1; while (q>=m){ q-=m; m*=6; ++ly; } for (int i=0;i<ly;++i){ dy[i]=q%6; q/=6; }
		if (ly!=lx && ly!=lx+1 && ly!=0 && ly!=1) continue;
		if (ly>1 && lx>1 && dy[0]!=dx[0] && dy[1]!=dx[1]) continue; // decided by the first character
		char b[400]="B$=\"\""; for (int i=0;i<ly;++i) sprintf(b+strlen(b),"%sCHR$(%d)",i?"+":"+",al[dy[i]]);
		must("%s",b); struct named_var* B=sys_find("B",VAR_STRING); S=sys_find("A",VAR_STRING);
		int c=0; for (int i=0;;++i){ if (i==lx||i==ly){ c=(lx>ly)-(lx<ly); break; } if (al[dx[i]]!=al[dy[i]]){ c=to_wide(al[dx[i]])<to_wide(al[dy[i]])?-1:1; break; } }
		for (int dir=0;dir<2;++dir){
			must("A$(0)=A$:A$(1)=B$:%s 0,2,A$",dir?"RSORT":"SORT"); union value* a=arr("A",1);
			bool swapped=a[0].ptr==B->value.ptr; if (S->value.ptr==B->value.ptr) swapped=false; else if (!swapped && a[0].ptr!=S->value.ptr){ u8 g1[600],g2[600]; int l1=sys_strv(a[0].ptr,g1), l2=sys_strv(B->value.ptr,g2); swapped=l1==l2&&!memcmp(g1,g2,l1); }
			mc_validated(1);
			if (c && swapped!=((dir?-c:c)>0)) mc_fail("with string #%d the order of %s is wrong",y,dir?"RSORT":"SORT");
		}
	}
	mc_state(x); mc_nontrivial(x*2+wide);
}
// ---- arguments
static void s_args(void){
	static const char* const vs[]={"-524287","-1","-0.0005","0","0.5","1","1.999","2","3","4","5","6","524287"}; enum { NV=13 };
	static const char* const lists[]={"A","A$","A,N","A,T$","A,Y","A,Z$","A,N,Y","A,Y,N","E","E,A","A,E","D","A,D","A,A","A,N,N","A,N,T$,N","N,A,A","Q","A,Q","A,Q$","A$,A$","A,A$","A,N,A","A,N,Y,A","A,N,T$,T$","A,N,Y,N","A,N,D","A,N,Q","A,N,Q$","A,N,T$,D","A$,N,A$","A,A$,N,Y,A","A,A$,A$","A,N,T$,Y","A$,T$,N"};
	static const int mn[]={5,5,5,5,3,2,3,3,1,1,1,0,0,0,0,0,0,0,0,0,0,5,0,0,0,0,0,0,0,0,0,0,0,3,5}; enum { NL=35 };
	int l=mc_choose(NL), a=mc_choose(NV), b=mc_choose(NV), r=mc_choose(2), expr=mc_choose(2); sys_reset(); setmode(mc_choose(3));
	must("DIM A(5),A$(5),N(5),T$(6),Y(3),Z$(2),E(1),D(2,2)"); 
	for (int i=0;i<5;++i) must("A(%d)=%d:A$(%d)=\"%c\":N(%d)=%d:T$(%d)=\"t%d\"",i,(i*3+3)%5,i,'a'+(i*3+3)%5,i,i,i,i);
	must("Y(0)=1:Y(2)=3:Z$(0)=\"p\":Z$(1)=\"q\":E(0)=9:D(0,1)=5:D(1,0)=6:T$(5)=\"end\"");
	must("S=%s:C=%s",vs[a],vs[b]);
	char c[100]; if (expr) sprintf(c,"%s S,(C)*1,%s",r?"RSORT":"SORT",lists[l]); else sprintf(c,"%s %s,%s,%s",r?"RSORT":"SORT",vs[a],vs[b],lists[l]); mc_desc("%s",c);
	// compiling may create the (still unset) array; that alone is no effect
	char cc[110]; sprintf(cc,"%s\r",c); int e=sys_compile(cc,opts()); uint64_t h=0; if (!e){ h=sys_hash_vars(); }
	int fs=(int)atof(vs[a]), fc=(int)atof(vs[b]); if (atof(vs[a])<fs) fs--; if (atof(vs[b])<fc) fc--;
	bool lenient = atof(vs[a])<0&&fs==-1&&a==2 || b==2; // a negative fraction may count as 0
	bool ok=mn[l] && fs>=0 && fs<mn[l] && fc>=0 && fc<=mn[l]-fs;
	if (!e) e=sys_go(); mc_validated(1); mc_trans(1);
	if (ok && e) mc_fail("refused: %s",errname(e));
	if (!ok && !e && !lenient) mc_fail("accepted");
	if (e && h && sys_hash_vars()!=h && strchr(lists[l],'Q')==NULL) mc_fail("an error, but variables changed");
	union value *A=arr("A",0), *N=arr("N",0), *Y=arr("Y",0); int isA=lists[l][0]=='A'&&lists[l][1]!='$';
	if (!e && ok && isA){ for (int i=fs;i+1<fs+fc;++i) if (r?A[i].number<A[i+1].number:A[i].number>A[i+1].number) mc_fail("not in order"); }
	if (!isA||!ok) for (int i=0;i<5;++i) if (A[i].number!=((i*3+3)%5)<<12 && !lenient) mc_fail("array A changed");
	if (!strchr(lists[l],'N')) for (int i=0;i<5;++i) if (N[i].number!=i<<12) mc_fail("array N changed");
	if (!strchr(lists[l],'Y')) if (Y[0].number!=4096||Y[1].number||Y[2].number!=3*4096) mc_fail("array Y changed");
	shows("end","T$(5)"); bool rok; sys_ref_strings(&rok); if (!rok) mc_fail("string storage is inconsistent");
	mc_state(sys_hash_vars()); mc_nontrivial(mc_mix(l*1000+a*20+b,r*8+expr*4+mode));
}
// ---- 0..32 companions, 33 refused
static void b_many(void){ sys_boot_small(256,600,4000); }
static void s_many(void){
	int k=mc_choose(35), r=mc_choose(2); sys_reset(); setmode(mc_choose(3)); mc_desc("%d companions",k);
	must("DIM A(4)"); must("A(0)=3:A(1)=1:A(2)=2:A(3)=0"); char b[400]; sprintf(b,"%s 0,3,A",r?"RSORT":"SORT");
	for (int i=0;i<k;++i){ must("DIM B%d%s(4)",i,i&1?"$":""); for (int j=0;j<4;++j) if (i&1) must("B%d$(%d)=\"%d\"",i,j,j); else must("B%d(%d)=%d",i,j,j); sprintf(b+strlen(b),",B%d%s",i,i&1?"$":""); }
	int e=bas("%s",b); mc_validated(k); if (k>32 && !e) { /* more companions than documented: fine if done right */ } if (k<=32 && e) mc_fail("refused: %s",errname(e));
	static const int up[]={1,2,0,3}, dn[]={0,2,1,3}; const int* p=e?(const int[]){0,1,2,3}:r?dn:up;
	for (int i=0;i<k;++i) for (int j=0;j<4;++j){ char w[8]; sprintf(w,"%d",p[j]); shows(w,i&1?"B%d$(%d)":"B%d(%d)",i,j); }
	static const int v[]={3,1,2,0}; for (int j=0;j<4;++j){ char w[8]; sprintf(w,"%d",v[p[j]]); shows(w,"A(%d)",j); }
	mc_state(k); mc_nontrivial(k*6+r*3+mode);
}
// ---- the statement in every position of a line
static void s_place(void){
	static const char* const pr[]={
		"SORT 0,3,A\nB=5\nPRINT A(0);A(1);A(2),B","0125","SORT 0,3,A:B=5:PRINT A(0);A(1);A(2),B","0125",
		"IF 1 THEN SORT 0,3,A ELSE PRINT 1,2,B\nPRINT A(0);A(1);A(2),B","0120","IF 0 THEN SORT 0,3,A ELSE B=6\nPRINT A(0);A(1);A(2),B","1206",
		"IF 0 THEN PRINT 1,2 ELSE SORT I,3,A\nPRINT A(0);A(1);A(2),B","0120","IF 0 THEN PRINT 1,2,3 ELSE SORT I,J+3,A\nPRINT A(0);A(1);A(2),B","0120",
		"IF 1 THEN SORT 0,3,A:RSORT 0,3,N:B=A(1)\nPRINT N(0);N(1);N(2),B","2101","SORT N(0),N(2)+1,A\nPRINT A(0);A(1);A(2),B","0120",
		"SORT D(0,1),D(1,0)+3,A\nPRINT A(0);A(1);A(2),B","0120","FOR I=0 TO 2:SORT 0,I+1,A:NEXT\nPRINT A(0);A(1);A(2),B","0120",
		"A=7:SORT 0,3,A:PRINT A(0);A(1);A(2),A","0127","SORT 0,3,A,N:PRINT N(0);N(1);N(2),A","2010",
		"A=1:SORT A,2,A\nPRINT A(0);A(1);A(2),B","1020","GOSUB @S:PRINT A(0);A(1);A(2),B:END\n@S:SORT 0,3,A:B=3:RETURN","0123",
		"IF 1 THEN SORT 0,3,A GOTO @X\nB=9\n@X\nPRINT A(0);A(1);A(2),B","0120","IF 1 THEN SORT 0,2,A:SWAP B,C\nPRINT A(0);A(1);A(2),B","1204",
		"DIM F(3):RSORT 0,3,A,F:PRINT A(0);A(1);A(2),B","2100","SORT ABS(I),LEN(\"abc\"),A\nPRINT A(0);A(1);A(2),B","0120" };
	int k=mc_choose((int)(sizeof pr/sizeof*pr)/2), lower=0; sys_reset(); setmode(mc_choose(3)); mc_desc("%.60s",pr[2*k]);
	char b[600]="DIM A(3),N(3),D(2,2):A(0)=1:A(1)=2:A(2)=0:N(1)=1:N(2)=2:I=0:J=0:C=4:CLS\r"; for (const char* s=pr[2*k];*s;++s){ int n=strlen(b); b[n]=*s=='\n'?'\r':lower&&*s>='A'&&*s<='Z'?*s+32:*s; b[n+1]=0; } 
	strcat(b,"\r"); if (lower && strchr(pr[2*k],'@')){ mc_skip(); }
	int e=sys_run(b,opts()); if (e) mc_fail("failed: %s",errname(e)); mc_validated(1);
	char g[40]; int n=0; for (const char* s=sys_row(0);*s&&n<30;++s) if (*s!=' ') g[n++]=*s; g[n]=0;
	if (strcmp(g,pr[2*k+1])) mc_fail("shows %s, expected %s",g,pr[2*k+1]); mc_state(k); mc_nontrivial(k*6+lower*3+mode);
}
const mc_suite mc_suites[]={{"small",s_small,MC_QT,sys_boot},{"bits",s_bits,MC_QT,sys_boot},{"perm",s_perm,MC_QT,sys_boot},{"shape",s_shape,MC_QT,sys_boot},{"big",s_big,MC_QT,b_big},{"strings",s_strings,MC_QT,sys_boot},{"args",s_args,MC_QT,sys_boot},{"many",s_many,MC_QT,b_many},{"place",s_place,MC_QT,sys_boot}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

// C08: arrays keep elements separate and check indexes, sizes and memory.
#include "bas.h"
const char* mc_rule = "all dimensions up to the bound, all index and size values of the suites' lists (legal, illegal, fractional, extreme), all operation sequences up to the stated length, all three lookup modes; non-trivial = at least one element written or an illegal access refused, counted by program text and mode";
static const char* dims(char* o, int d1, int d2){ if (d2<0) sprintf(o,"%d",d1); else sprintf(o,"%d,%d",d1,d2); return o; }
// ---- every element of every shape
static void s_dims(void){
	int M=mc_thorough?9:5; int d1=1+mc_choose(M), d2=mc_choose(M+1), s=mc_choose(2), br=mc_choose(2); if (!d2) d2=-1;
	int ord=mc_choose(2); sys_reset(); setmode(mc_choose(3));
	const char* o=br?"[":"("; const char* c=br?"]":")"; const char* n=s?"A$":"A"; char t[40];
	mc_desc("DIM %s%s%s%s order %d",n,o,dims(t,d1,d2),c,ord);
	must("DIM Z(3):DIM %s%s%s%s:DIM Y$(3)",n,o,t,c);
	must("Z(0)=8:Z(2)=9:Y$(0)=\"y\":Y$(2)=\"z\"");
	int m2=d2<0?1:d2; char ix[40];
	for (int j=0;j<m2;++j) for (int i=0;i<d1;++i) shows(s?"":"0","%s%s%s%s",n,o,dims(ix,i,d2<0?-1:j),c);
	for (int k=0;k<d1*m2;++k){ int q=ord?d1*m2-1-k:k; int i=q/m2, j=q%m2; dims(ix,i,d2<0?-1:j);
		if (s) must("%s%s%s%s=\"v%d\"",n,o,ix,c,q); else must("%s%s%s%s=%d.5",n,o,ix,c,q); }
	for (int q=0;q<d1*m2;++q){ int i=q/m2, j=q%m2; dims(ix,i,d2<0?-1:j); char w[40]; sprintf(w,s?"v%d":"%d.5",q); shows(w,"%s%s%s%s",n,o,ix,c); }
	// a scalar and the other kinds of the same name are different variables
	must("A=77:A$=\"sc\""); must(s?"A(0)=66":"A$(0)=\"el\"");
	{ char w[40]; sprintf(w,s?"v%d":"%d.5",0); shows(w,"%s%s%s%s",n,o,dims(ix,0,d2<0?-1:0),c); }
	shows("8","Z(0)"); shows("0","Z(1)"); shows("9","Z(2)"); shows("y","Y$(0)"); shows("","Y$(1)"); shows("z","Y$(2)");
	uint64_t h=sys_hash_vars();
	// just outside
	static const int off[][2]={{0,-1},{1,0},{1,-1},{0,1},{2,1}};(void)off;
	char bad[8][40]; int nb=0;
	sprintf(bad[nb++],d2<0?"%d":"%d,0",d1); sprintf(bad[nb++],d2<0?"-1":"-1,0"); if (d2>0){ sprintf(bad[nb++],"0,%d",d2); sprintf(bad[nb++],"0,-1"); sprintf(bad[nb++],"%d,%d",d1,d2); } else sprintf(bad[nb++],"0,0");
	for (int k=0;k<nb;++k){ 
		if (!bas("%s%s%s%s=%s",n,o,bad[k],c,s?"\"x\"":"1")) mc_fail("index %s was accepted for writing",bad[k]);
		if (!bas("%s%s%s%s%s",s?"Q$=":"Q=",n,o,bad[k],c)) mc_fail("index %s was accepted for reading",bad[k]);
	}
	bas("Q=0:Q$=\"\""); must("Q=0"); must("Q$=\"\"");
	// apart from the scratch variables nothing changed
	for (int q=0;q<d1*m2;++q){ int i=q/m2, j=q%m2; dims(ix,i,d2<0?-1:j); char w[40]; sprintf(w,s?"v%d":"%d.5",q); shows(w,"%s%s%s%s",n,o,ix,c); }
	shows("8","Z(0)"); shows("9","Z(2)"); shows("y","Y$(0)"); shows("z","Y$(2)");
	mc_state(h); mc_nontrivial(mc_mix(h,mode*4+br*2+ord));
}
// ---- index values
static const char* const ixs[]={"-524287","-1000","-10","-2","-1.001","-1","-0.001","0","0.999","1","2","2.5","3","3.999","4","5","9","9.999","10","11","255","256","4095","65535","65536","262144","524287"};
#define NIX ((int)(sizeof ixs/sizeof*ixs))
static int fl(const char* s){ double d=atof(s); int i=(int)d; if (d<i) --i; return i; }
static void s_index(void){
	static const int shp[][2]={{4,-1},{1,-1},{4,3},{1,1},{3,10},{10,-1},{11,2}};
	int sh=mc_choose(7), s=mc_choose(2), two=mc_choose(2), a=mc_range(NIX), b=two?mc_range(NIX):0, form=mc_choose(3), imp=0;
	if (two && !mc_thorough && form==2) mc_skip();
	sys_reset(); setmode(mc_choose(3));
	int d1=shp[sh][0], d2=shp[sh][1]; char t[40]; const char* n=s?"A$":"A";
	if (sh==5){ imp=1; d1=10; d2=two?10:-1; } // never dimensioned
	char ix[60];
	if (form==0) two?sprintf(ix,"%s,%s",ixs[a],ixs[b]):sprintf(ix,"%s",ixs[a]);
	else if (form==1) two?sprintf(ix,"I,J"):sprintf(ix,"I");
	else two?sprintf(ix,"I+0,(J)"):sprintf(ix,"(I)*1");
	mc_desc("%s(%s) index %s,%s form %s",n,imp?"default":dims(t,d1,d2),ixs[a],two?ixs[b]:"-",ix);
	must("DIM B(2):B(0)=1:B(1)=2"); if (!imp) must("DIM %s(%s)",n,dims(t,d1,d2)); must("DIM C(2):C(0)=3:C(1)=4");
	must("I=%s:J=%s",ixs[a],two?ixs[b]:"0");
	int i=fl(ixs[a]), j=two?fl(ixs[b]):0;
	bool ok = i>=0 && i<d1 && (two ? d2>=0 && j>=0 && j<d2 : true);
	int e=bas("%s(%s)=%s",n,ix,s?"\"w\"":"5"); mc_validated(2);
	if (ok && e) mc_fail("refused: %s",errname(e)); if (!ok && !e) mc_fail("accepted for writing");
	e=bas("?%s(%s)",n,ix); if (ok && e) mc_fail("reading refused: %s",errname(e)); if (!ok && !e) mc_fail("accepted for reading");
	// exactly one element holds the value
	if (ok||!imp) for (int y=0;y<(d2<0?1:d2);++y) for (int x=0;x<d1;++x){
		char k[40]; dims(k,x,d2<0?-1:y); bool hit=ok&&x==i&&y==j; shows(hit?(s?"w":"5"):(s?"":"0"),"%s(%s)",n,k); }
	shows("1","B(0)"); shows("2","B(1)"); shows("3","C(0)"); shows("4","C(1)");
	mc_nontrivial(mc_mix(a*1000+b,mc_mix(sh*8+s*4+two*2,form*3+mode))); mc_state(sys_hash_vars());
}
// ---- sizes and memory
static void b_small(void){ sys_boot_small(0,0,40); }
static void s_size(void){
	static const char* const sz[]={"-524287","-2","-1","-0.5","0","1","2","5","5.9","6","20","39","40","41","60","100","255","256","4096","32768","65536","131072","262144","524287"};
	int n=sizeof sz/sizeof*sz; int pre=mc_choose(4), two=mc_choose(2), a=mc_range(n), b=two?mc_range(n):0, s=mc_choose(2); sys_reset(); setmode(mc_choose(3));
	int S=P->arrs.arr_data_size, used=0;
	for (int k=0;k<pre;++k){ must("DIM P%d(8)",k); used+=10; must("P%d(0)=%d:P%d(7)=%d",k,k+1,k,k+5); }
	char ix[60]; two?sprintf(ix,"%s,%s",sz[a],sz[b]):sprintf(ix,"%s",sz[a]);
	mc_desc("%d arrays, DIM %s(%s)",pre,s?"A$":"A",ix);
	long i=fl(sz[a]), j=two?fl(sz[b]):1; long tot=i*j;
	int e=bas("DIM %s(%s)",s?"A$":"A",ix); mc_validated(1);
	bool neg=i<0||j<0, zero=i==0||j==0;
	if (neg && !e) mc_fail("a negative size was accepted");
	if (!neg && !zero && used+tot+2>S && !e) mc_fail("%ld elements accepted with %d of %d cells used",tot,used,S);
	if (!neg && !zero && used+tot+2<S-2 && e) mc_fail("%ld elements refused with %d of %d cells used: %s",tot,used,S,errname(e));
	if (!e && zero){ if (!bas("%s(0)=%s",s?"A$":"A",s?"\"x\"":"1") && i==0) mc_fail("element of an empty array accepted"); }
	else if (!e){
		if (two) must("%s(%ld,%ld)=%s",s?"A$":"A",i-1,j-1,s?"\"l\"":"9"); else must("%s(%ld)=%s",s?"A$":"A",i-1,s?"\"l\"":"9");
		if (tot>1) shows(s?"":"0",two?"%s(0,0)":"%s(0)",s?"A$":"A");
		if (two) shows(s?"l":"9","%s(%ld,%ld)",s?"A$":"A",i-1,j-1);
		if (!bas("DIM %s(1)",s?"A$":"A")) mc_fail("redefinition accepted");
		if (two) shows(s?"l":"9","%s(%ld,%ld)",s?"A$":"A",i-1,j-1); 
	} else if (S-used>5){
		// a refused DIM leaves the name free
		must("DIM %s(1)",s?"A$":"A"); shows(s?"":"0","%s(0)",s?"A$":"A");
	}
	for (int k=0;k<pre;++k){ char w[20]; sprintf(w,"%d",k+1); shows(w,"P%d(0)",k); shows("0","P%d(1)",k); sprintf(w,"%d",k+5); shows(w,"P%d(7)",k); }
	must("CLEAR"); must("DIM A(10)"); must("DIM A$(10)"); for (int k=0;k<10;++k){ shows("0","A(%d)",k); shows("","A$(%d)",k); }
	mc_nontrivial(mc_mix(a*100+b,pre*100+two*8+s*4+mode)); mc_state(mc_mix(used,tot)); mc_outcome(mc_mix(e,tot));
}
// ---- arrays up to the whole memory of the system
static void b_huge(void){ sys_boot_small(0,200,262144); }
static void s_huge(void){
	static const struct { int x,y; } sh[]={{65535,4},{65536,3},{65537,3},{65538,2},{131000,2},{100000,2},{262000,-1},{262120,-1},{65536,-1},{65537,-1},{131073,-1},{2,65536},{2,131000},{3,65537},{256,257},{257,256},{511,512},{1,262000},{4,65535},{5000,52},{32768,7},{32769,7},{32767,7},{255,1000},{1000,255}};
	static const int at[]={0,1,127,255,256,257,4095,4096,32767,32768,65535,65536,65537,131071,131072};
	int k=mc_range(sizeof sh/sizeof*sh), str=mc_choose(2), ord=mc_choose(2), m=mc_choose(3); sys_reset(); setmode(m); must("CLEAR"); int d1=sh[k].x,d2=sh[k].y; char ix[60]; const char* n=str?"A$":"A";
	must("DIM B(5):B(0)=1:B(4)=2"); mc_desc("DIM %s(%s)",n,dims(ix,d1,d2)); must("DIM %s(%s)",n,ix); must("DIM C(5):C(0)=3:C(4)=4");
	int xs[20],nx=0,ys[20],ny=0; for (int i=0;i<15;++i){ if (at[i]<d1-2) xs[nx++]=at[i]; if (d2>0&&at[i]<d2-2) ys[ny++]=at[i]; } for (int i=d1>1?d1-2:0;i<d1;++i) xs[nx++]=i; if (d2>0) for (int i=d2>1?d2-2:0;i<d2;++i) ys[ny++]=i; else ys[ny++]=-1;
	int N=nx*ny; for (int a=0;a<N;++a) shows(str?"":"0","%s(%s)",n,dims(ix,xs[a%nx],ys[a/nx]));
	for (int a=0;a<N;++a){ int q=ord?N-1-a:a; dims(ix,xs[q%nx],ys[q/nx]); if (str) must("%s(%s)=\"w%d\"",n,ix,q); else must("%s(%s)=%d",n,ix,q+1); }
	for (int q=0;q<N;++q){ char w[20]; sprintf(w,str?"w%d":"%d",str?q:q+1); shows(w,"%s(%s)",n,dims(ix,xs[q%nx],ys[q/nx])); }
	shows("1","B(0)"); shows("2","B(4)"); shows("0","B(3)"); shows("3","C(0)"); shows("4","C(4)"); shows("0","C(1)");
	if (!bas(str?"%s(%s)=\"x\"":"%s(%s)=1",n,dims(ix,d1,d2<0?-1:0))) mc_fail("index %s was accepted",ix);
	must("CLEAR:DIM %s(%s)",n,dims(ix,d1,d2)); for (int q=0;q<N;++q) shows(str?"":"0","%s(%s)",n,dims(ix,xs[q%nx],ys[q/nx]));
	must("CLEAR"); mc_nontrivial(mc_mix(k*4+str*2+ord,m)); mc_state(mc_mix(k*2+str,N));
}
// sizes whose product does not fit, up to several times 2^32, with all of the memory available
static void s_hugebad(void){
	static const int z[]={1,2,3,4,5,8,16,17,255,256,257,1000,4095,4096,8191,8192,8193,16384,16385,32767,32768,32769,65535,65536,65537,85900,100000,131071,131072,131073,200000,262143,262144,262145,300000,524287}; enum { NZ=sizeof z/sizeof*z };
	int a=mc_range(NZ), b=mc_range(NZ), str=mc_choose(2); sys_reset(); setmode(mc_choose(3)); must("CLEAR"); const char* n=str?"A$":"A"; long tot=(long)z[a]*z[b]; int S=P->arrs.arr_data_size;
	must("DIM B(5):B(0)=1:B(4)=2"); mc_desc("DIM %s(%d,%d)",n,z[a],z[b]); int e=bas("DIM %s(%d,%d)",n,z[a],z[b]); mc_validated(1);
	if (tot+2+7>S){ if (e!=ERR_OUT_OF_MEMORY) mc_fail("%ld elements: \"%s\"",tot,errname(e)); must("DIM %s(2,3)",n); shows(str?"":"0","%s(1,2)",n); if (!bas(str?"%s(2,0)=\"x\"":"%s(2,0)=1",n)) mc_fail("an index of the refused size was accepted"); }
	else if (tot+2+7<S-4){ if (e) mc_fail("%ld of %d elements: \"%s\"",tot,S,errname(e)); must(str?"%s(%d,%d)=\"e\"":"%s(%d,%d)=6",n,z[a]-1,z[b]-1); if (tot>1) shows(str?"":"0","%s(0,0)",n); if (z[b]>1) shows(str?"":"0","%s(%d,%d)",n,z[a]-1,z[b]-2); shows(str?"e":"6","%s(%d,%d)",n,z[a]-1,z[b]-1); }
	shows("1","B(0)"); shows("2","B(4)"); shows("0","B(3)"); must("CLEAR"); mc_nontrivial(mc_mix(a*64+b,str*3+mode)); mc_state(mc_mix(a*64+b,e)); mc_outcome(e);
}
// ---- sequences
static void b_seq(void){ sys_boot_small(8,0,64); }
static void s_seq(void){
	int depth=mc_thorough?4:3; sys_reset(); setmode(mc_choose(3));
	static const char* const nm[]={"A","A$","B"}; struct { int d1,d2,v[100]; } m[3]; for (int i=0;i<3;++i) m[i].d1=0;
	int used=0, S=P->arrs.arr_data_size; 
	bool lost=false; // memory use no longer known exactly
	for (int d=0;d<depth;++d){
		int op=mc_choose(3*8+1); mc_desc("; ");
		if (op==24){ must("CLEAR"); mc_desc("CLEAR"); for (int i=0;i<3;++i) m[i].d1=0; used=0; continue; }
		int a=op/8,k=op%8; bool s=a==1; static const char* const sh[]={"2","3,4","5,5"}; static const int sd[][2]={{2,-1},{3,4},{5,5}};
		if (k<3){
			int tot=sd[k][0]*(sd[k][1]<0?1:sd[k][1])+2; int e=bas("DIM %s(%s)",nm[a],sh[k]); mc_desc("DIM %s(%s)",nm[a],sh[k]); mc_validated(1);
			if (m[a].d1){ if (e!=ERR_DUPLICATE_DIM) mc_fail("redefinition: %s",errname(e)); }
			else if (used+tot>S){ if (!e) mc_fail("no memory left but DIM succeeded"); }
			else if (used+tot<S-2){ if (e) mc_fail("DIM refused: %s",errname(e)); }
			if (!e){ m[a].d1=sd[k][0]; m[a].d2=sd[k][1]; memset(m[a].v,0,sizeof m[a].v); used+=tot; }
		} else {
			static const char* const ix[]={"0","1","4","1,1","2,3"}; static const int iv[][2]={{0,-1},{1,-1},{4,-1},{1,1},{2,3}};
			int i=iv[k-3][0], j=iv[k-3][1]; 
			int e= s?bas("%s(%s)=\"s%d\"",nm[a],ix[k-3],d+1):bas("%s(%s)=%d",nm[a],ix[k-3],d+1); mc_desc("%s(%s)=%d",nm[a],ix[k-3],d+1); mc_validated(1);
			if (!m[a].d1){ int tot=j<0?12:102; 
				if (used+tot>S){ if (!e) mc_fail("no memory left but the array was created"); continue; }
				if (used+tot<S-2 && e) mc_fail("first use refused: %s",errname(e));
				if (e) continue;
				m[a].d1=10; m[a].d2=j<0?-1:10; memset(m[a].v,0,sizeof m[a].v); used+=tot; }
			bool ok=i<m[a].d1 && (j<0 || (m[a].d2>=0 && j<m[a].d2));
			if (ok==(e!=0)) mc_fail("index %s of a %dx%d array: %s",ix[k-3],m[a].d1,m[a].d2,errname(e));
			if (ok) m[a].v[i+(j<0?0:j)*m[a].d1]=d+1;
		}
		for (int b=0;b<3;++b) if (m[b].d1) for (int y=0;y<(m[b].d2<0?1:m[b].d2);++y) for (int x=0;x<m[b].d1;++x){
			struct named_var* v=sys_find(nm[b][0]=='B'?"B":"A",b==1?VAR_STRING|VAR_ARRAY:VAR_NUMBER|VAR_ARRAY); if (!v||!v->value.ptr) mc_fail("array %s vanished",nm[b]);
			union value* e=arr_entry(v->value.ptr,x,y); int w=m[b].v[x+y*m[b].d1]; mc_validated(1);
			if (b==1){ u8 q[300]; int l=sys_strv(e->ptr,q); char ws[10]; if (w) sprintf(ws,"s%d",w); else *ws=0; if (l!=(int)strlen(ws)||memcmp(q,ws,l)) mc_fail("%s(%d,%d) is %.*s, expected %s",nm[b],x,y,l,q,ws); }
			else if (e->number!=w*4096) mc_fail("%s(%d,%d) is %g, expected %d",nm[b],x,y,e->number/4096.0,w);
		}
		mc_state(mc_mix(sys_hash_vars(),used));
	}
	(void)lost; mc_nontrivial(mc_mix(sys_hash_vars(),mode)); mc_outcome(mc_mix(sys_hash_vars(),used));
}
// ---- wrong argument lists
static void s_args(void){
	static const char* const bad[]={"DIM A","DIM A()","DIM A(1,2,3)","DIM A(\"x\")","DIM A$(\"x\",1)","A()=1","A(1,2,3)=1","A(\"x\")=1","X=A()","X=A(1,2,3)","X=A(\"x\")","X=A(1,\"x\")","A$(\"1\")=\"a\"","A(1)=\"s\"","A$(1)=1","DIM 5","DIM \"A\"(3)","DIM A(2),A(3)","A(A(A(50)))=1","X=A(1/0)","DIM D(1/0)","DIM","A(,)=1","A(1,)=1","A(,1)=1","X=A(,)","DIM D(,)","DIM D(2,)","A(1=1","A 1)=2","DIM D(3","DIM D 3)","A[1)=9]","DIM PI(3)","PI(1)=2","DIM N(1,2,3)","DIM N$(1,2,3)","DIM N()","DIM N$()","DIM N(\"3\")","DIM N(2,\"3\")","DIM N","DIM N(1,2,3,4)","DIM N(2)+1","DIM N(2)=1","DIM N(2);M(2)","N(1,2,3)=1","N$(1,2,3)=\"\"","X=N(1,2,3)","DIM N(2),"};
	int k=mc_range(sizeof bad/sizeof*bad); sys_reset(); setmode(mc_choose(3)); mc_desc("%s",bad[k]);
	must("A(1)=4:A(2)=5:A$(1)=\"q\":X=6:D=7");
	int e=bas("%s",bad[k]); if (!e && strcmp(bad[k],"A[1)=9]") && strcmp(bad[k],"A(1,)=1")) { if (strcmp(bad[k],"DIM")) mc_fail("accepted"); }
	if (strcmp(bad[k],"A(1,)=1")) shows("4","A(1)"); shows("5","A(2)"); shows("0","A(0)"); shows("q","A$(1)"); shows("6","X"); shows("7","D"); mc_validated(1);
	if (!strncmp(bad[k],"DIM N",5)||bad[k][0]=='N'||!strncmp(bad[k],"X=N",3)){ shows("0","N(9)"); shows("","N$(9)"); if (!bas("N(10)=1")) mc_fail("%s made an array",bad[k]); }
	mc_nontrivial(k*3+mode); mc_state(sys_hash_vars());
}
// ---- repetition does not use memory up
static void s_loop(void){
	static const char* const st[]={"CLEAR:DIM A(10,10)","CLEAR:DIM A$(50)","A(5)=1","A$(3)=\"x\"*5","CLEAR:A(1,1)=1:A$(2)=\"e\"","DIM A(5)","A(99)=1"};
	int k=mc_choose(7); sys_reset(); setmode(mc_choose(3)); mc_desc("%s x200",st[k]); must("B(0)=3");
	int e0=0; for (int i=0;i<200;++i){ int e=bas("%s",st[k]); if (k<5 && e) mc_fail("repetition %d: %s",i,errname(e)); if (k==5){ if (i==0) e0=e; if (e0||(i&&e!=ERR_DUPLICATE_DIM)) mc_fail("repetition %d: %s",i,errname(e)); } if (k==6 && e==ERR_OUT_OF_MEMORY) mc_fail("memory used up by failing accesses"); }
	must("C(9)=2"); shows("2","C(9)"); mc_nontrivial(k*3+mode); mc_state(k); mc_validated(200);
}
// ---- FREEMEM: whole kilobytes left for elements (8 bytes each here), whatever was created before
static void s_free(void){
	static const int ns[]={1,10,126,127,128,129,1000,1023,5000,65536,131072,200000}; int T=mc_choose(2)?262144:20000; 
	sys_cfg.arr=T; int used=0,cnt=0; sys_reset(); setmode(mc_choose(3)); P->arrs.arr_data_size=T; must("CLEAR");
	for (int i=0;i<3;++i){ int op=mc_choose(5), e, n; mc_trans(1);
		if (op==4){ if (mc_choose(2)){ must("CLEAR"); used=cnt=0; mc_desc("CLEAR:"); } else { e=bas("V%c(3)=1",'A'+i); n=10; if (used+2*cnt+n+3<=T-1){ if (e) mc_fail("an array of 10: %s",errname(e)); used+=n; ++cnt; } mc_desc("V(3)=1:"); } }
		else { n=ns[mc_thorough?mc_choose(12):(int[]){0,3,5,8,10,11}[mc_choose(6)]]; int two=op>1&&n%2==0; mc_desc("DIM(%d)%s:",n,two?"x2":""); e=two?bas("DIM D%c%s(2,%d)",'A'+i,op&1?"$":"",n/2):bas("DIM D%c%s(%d)",'A'+i,op&1?"$":"",n); if (used+2*cnt+n+8<T){ if (e) mc_fail("an array of %d elements of %d left: %s",n,T-used-2*cnt,errname(e)); used+=n; ++cnt; } else if (used+2*cnt+n>T){ if (!e) mc_fail("an array of %d elements of %d left is accepted",n,T-used-2*cnt); } else if (!e){ used+=n; ++cnt; } }
		must("R=FREEMEM"); double want=(T-used-2.0*cnt)*8/1024; int k=sys_num("R"); mc_validated(1); if (k&4095||k/4096.0>want+.02||k/4096.0<want-1.05) mc_fail("FREEMEM is %g with %g kilobytes left",k/4096.0,want); }
	mc_state(mc_mix(mc_mix(used,cnt),T)); mc_nontrivial(mc_mix(mc_mix(used,cnt),mode*2+(T>20000)));
}
static void b_loop(void){ sys_boot_small(16,0,130); }
static void b_dims(void){ sys_boot_small(64,200,1024); }
const mc_suite mc_suites[]={{"dims",s_dims,MC_QT,b_dims},{"index",s_index,MC_QT,sys_boot},{"size",s_size,MC_QT,b_small},{"huge",s_huge,MC_QT,b_huge},{"hugebad",s_hugebad,MC_QT,b_huge},{"seq",s_seq,MC_QT,b_seq},{"args",s_args,MC_QT,sys_boot},{"loop",s_loop,MC_QT,b_loop},{"freemem",s_free,MC_QT,b_huge}};
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

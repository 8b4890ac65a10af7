// C15: background statements against a reference of both layers of both screens.
#include "bas.h"
#include "subsystem/background.h"
const char* mc_rule = "every BGPUT and BGREAD position and form of boundary sets and every tile code; every BGFILL and BGCOPY region of boundary sets and every small overlapping copy; every illegal value of every argument; every sequence of statements up to the stated length from a palette over both screens; every scroll history with every retargeting point, also between dots; counted by statement arguments and start";
typedef u16 layer_t[64][64]; // [y][x]
static layer_t ref[2][2]; static int page; static u16 other[8][4096];
static int idx_(int x, int y){ return (x&31)+(y&31)*32+(x>>5)*1024+(y>>5)*2048; }
static u16* scr(int pg, int l){ return P->res.scr[pg*4+2+l]; }
static u16 pat(int pg, int l, int x, int y){ return (u16)(x|y<<6|(pg*2+l)<<12); }
static void start(void){ sys_reset(); mode=0; setmode(0); page=0; for (int g=0;g<2;++g) for (int l=0;l<2;++l) for (int y=0;y<64;++y) for (int x=0;x<64;++x) scr(g,l)[idx_(x,y)]=ref[g][l][y][x]=pat(g,l,x,y); for (int b=0;b<8;++b) memcpy(other[b],P->res.scr[b],8192); }
static void check(void){
	for (int g=0;g<2;++g) for (int l=0;l<2;++l){ const u16* s=scr(g,l); for (int y=0;y<64;++y) for (int h=0;h<2;++h){ const u16* row=s+(y&31)*32+h*1024+(y>>5)*2048; if (memcmp(row,&ref[g][l][y][h*32],64)) for (int x=0;x<32;++x) if (row[x]!=ref[g][l][y][h*32+x]) mc_fail("screen %d layer %d cell %d,%d is %04X, expected %04X",g,l,h*32+x,y,row[x],ref[g][l][y][h*32+x]); } }
	for (int b=0;b<8;++b) if ((b&3)<2 && memcmp(other[b],P->res.scr[b],8192)) mc_fail("other screen memory %d changed",b);
	if (P->background.page!=page) mc_fail("addressed screen is %d, expected %d",P->background.page,page); mc_validated(4*4096);
}
static uint64_t state(void){ return mc_mix(mc_hash(ref,sizeof ref),page); }
static int clamp(int v){ return v<0?0:v>63?63:v; }
static void r_fill(int l, int x1, int y1, int x2, int y2, u16 t){ x1=clamp(x1);x2=clamp(x2);y1=clamp(y1);y2=clamp(y2); if (x1>x2){int q=x1;x1=x2;x2=q;} if (y1>y2){int q=y1;y1=y2;y2=q;} for (int y=y1;y<=y2;++y) for (int x=x1;x<=x2;++x) ref[page][l][y][x]=t; }
static void r_copy(int l, int x1, int y1, int x2, int y2, int x3, int y3){ x1=clamp(x1);x2=clamp(x2);y1=clamp(y1);y2=clamp(y2);x3=clamp(x3);y3=clamp(y3); if (x1>x2){int q=x1;x1=x2;x2=q;} if (y1>y2){int q=y1;y1=y2;y2=q;} static layer_t c; memcpy(c,ref[page][l],sizeof c); for (int y=y1;y<=y2;++y) for (int x=x1;x<=x2;++x){ int dx=x-x1+x3, dy=y-y1+y3; if (dx<64&&dy<64) ref[page][l][dy][dx]=c[y][x]; } }
static u16 td(int c, int p, int h, int v){ return c|h<<10|v<<11|p<<12; }
static const int pos[]={0,1,31,32,33,62,63,64,65,127,128,-1,-2,-63,-64,-65,524287,-524287};
enum { NP=sizeof pos/sizeof*pos };
static void form(char* s, int f, u16 t){ if (f==0) sprintf(s,"%d",t); else if (f==1) sprintf(s,"\"%04X\"",t); else if (f==2) sprintf(s,"%d,%d,%d,%d",t&1023,t>>12,t>>10&1,t>>11&1); else sprintf(s,"%d.5,%d,%d,%d",t&1023,t>>12,t>>10&1,t>>11&1); }
static void s_put(void){ // positions and forms of BGPUT, read back in every form
	int l=mc_choose(2), g=mc_choose(2), f=mc_choose(4), xi=mc_choose(NP), yi=mc_choose(NP); static const u16 tt[]={0,1,0xffff,0x1234,0x8000,0xabcd,0x0400,0x0800}; u16 t=tt[(xi*5+yi*3+f)%8]; start(); char a[60]; form(a,f,t); if (g){ must("BGPAGE 1"); page=1; } mc_desc("screen %d BGPUT %d,%d,%d,%s",g,l,pos[xi],pos[yi],a);
	must("BGPUT %d,%d,%d,%s",l,pos[xi],pos[yi],a); ref[g][l][pos[yi]&63][pos[xi]&63]=t; check(); must("BGREAD(%d,%d,%d),A:BGREAD(%d,%d,%d),C,D,H,V:BGREAD(%d,%d,%d),A$",l,pos[xi],pos[yi],l,pos[xi],pos[yi],l,pos[xi],pos[yi]); char w[8]; sprintf(w,"%04X",t);
	if (sys_num("A")!=t*4096||sys_num("C")!=(t&1023)*4096||sys_num("D")!=(t>>12)*4096||sys_num("H")!=(t>>10&1)*4096||sys_num("V")!=(t>>11&1)*4096||strcmp(sys_strz("A"),w)) mc_fail("BGREAD gives %d, %d,%d,%d,%d and %s, expected %d and %s",sys_num("A")>>12,sys_num("C")>>12,sys_num("D")>>12,sys_num("H")>>12,sys_num("V")>>12,sys_strz("A"),t,w); check(); mc_trans(2); mc_state(state()); mc_nontrivial(mc_mix(l*8+g*4+f,xi*NP+yi));
}
static void s_codes(void){ // every tile code in every form: put, read, put again
	int hi=mc_range(512); start(); must("T=0:X=0:T$=\"\""); if (sys_compile("BGPUT 0,63,0,T:BGREAD(0,63,0),A:BGREAD(0,63,0),A$:BGREAD(0,63,0),C,P,H,V:BGPUT 1,0,63,A$:BGREAD(1,0,63),B:BGPUT 1,32,31,C,P,H,V:BGREAD(1,32,31),D\r",0)) mc_fail("does not compile");
	for (int k=0;k<128;++k){ u16 t=hi*128+k; sys_find("T",VAR_NUMBER)->value.number=t*4096; int e=sys_go(); mc_trans(1); mc_validated(3); char w[8]; sprintf(w,"%04X",t); if (e||sys_num("A")!=t*4096||sys_num("B")!=t*4096||sys_num("D")!=t*4096||strcmp(sys_strz("A"),w)) mc_fail("tile %04X: %s, read as %d, %s, %d and %d",t,errname(e),sys_num("A")>>12,sys_strz("A"),sys_num("B")>>12,sys_num("D")>>12); ref[0][0][0][63]=ref[0][1][63][0]=ref[0][1][31][32]=t; } check(); mc_nontrivial(hi); mc_state(hi);
}
static const int fp[]={0,1,31,32,63,64,-1,100,-524287,524287,5,62};
static void s_fill(void){
	int n=mc_thorough?12:6, x1=fp[mc_choose(n)], y1=fp[mc_choose(n)], x2=fp[mc_choose(n)], y2=fp[mc_choose(n)], g=mc_choose(2), l=mc_choose(2); int f=(x1+y1+x2+y2)&3; u16 t=0x9a5b+x1*7; start(); char a[60]; form(a,f,t); if (g){ must("BGPAGE 1"); page=1; } mc_desc("screen %d BGFILL %d,%d,%d,%d,%d,%s",g,l,x1,y1,x2,y2,a); must("BGFILL %d,%d,%d,%d,%d,%s",l,x1,y1,x2,y2,a); r_fill(l,x1,y1,x2,y2,t); check(); mc_trans(1); mc_state(state()); mc_nontrivial(mc_mix(mc_mix(x1,y1),mc_mix(x2,y2)*4+l*2+g));
}
static void s_copy(void){
	static const int cp[]={0,1,31,32,63,64,-1,30,62,524287,-524287,100}; int n=mc_thorough?8:5; int v[6]; uint64_t h=0; for (int i=0;i<6;++i){ v[i]=cp[mc_choose(n)]; h=mc_mix(h,v[i]); } int l=(v[0]+v[3]+v[4])&1; start(); mc_desc("BGCOPY %d,%d,%d,%d,%d,%d,%d",l,v[0],v[1],v[2],v[3],v[4],v[5]); must("BGCOPY %d,%d,%d,%d,%d,%d,%d",l,v[0],v[1],v[2],v[3],v[4],v[5]); r_copy(l,v[0],v[1],v[2],v[3],v[4],v[5]); check(); mc_trans(1); mc_state(state()); mc_nontrivial(h);
}
static void s_overlap(void){ // every small overlapping copy at several places
	static const int ox[]={10,30,59,0}, oy[]={31,2,60,0}; int k=mc_choose(4), w=mc_choose(5)+1, h=mc_choose(5)+1, dx=mc_choose(9)-4, dy=mc_choose(9)-4, l=mc_choose(2), sw=mc_choose(4); int x=ox[k], y=oy[k], a=x+dx, b=y+dy; start(); int x1=x,x2=x+w-1,y1=y,y2=y+h-1; if (sw&1){ int q=x1;x1=x2;x2=q; } if (sw&2){ int q=y1;y1=y2;y2=q; } mc_desc("BGCOPY %d,%d,%d,%d,%d,%d,%d",l,x1,y1,x2,y2,a,b); must("BGPAGE 1:BGCOPY %d,%d,%d,%d,%d,%d,%d",l,x1,y1,x2,y2,a,b); page=1; r_copy(l,x1,y1,x2,y2,a,b); check(); mc_trans(1); mc_state(state()); mc_nontrivial(mc_mix(mc_mix(k*64+w*8+h,dx*16+dy),l*4+sw));
}
static const struct { const char* f; int n, lo[9], hi[9]; } sig[]={
	{"BGPAGE %d",1,{0},{1}}, {"BGCLR %d",1,{0},{1}}, {"BGPUT %d,3,3,5",1,{0},{1}}, {"BGPUT %d,3,3,%d,%d,%d,%d",5,{0,0,0,0,0},{1,1023,15,1,1}}, {"BGPUT %d,3,3,\"12AB\"",1,{0},{1}},
	{"BGFILL %d,1,1,4,4,%d,%d,%d,%d",5,{0,0,0,0,0},{1,1023,15,1,1}}, {"BGFILL %d,1,1,4,4,7",1,{0},{1}}, {"BGCOPY %d,1,1,3,3,5,5",1,{0},{1}}, {"BGOFS %d,5,6",1,{0},{1}}, {"BGOFS %d,5,6,%d",2,{0,0},{1,524287}}, {"BGCLIP %d,%d,%d,%d",4,{0,0,0,0},{31,23,31,23}}, {"BGREAD(%d,1,1),A",1,{0},{1}}, {"BGREAD(%d,1,1),A$",1,{0},{1}}, {"BGREAD(%d,1,1),A,B,C,D",1,{0},{1}}, {"A=BGCHK(%d)",1,{0},{1}} };
static void s_bad(void){ // one argument outside its range: an error that changes nothing
	int i=mc_choose(sizeof sig/sizeof*sig), a=mc_choose(sig[i].n), k=mc_choose(7), g=mc_choose(2); int lo=sig[i].lo[a], hi=sig[i].hi[a]; int bad[]={lo-1,hi+1,hi+256,lo-256,hi+65536,-524287,524287}; if (bad[k]>524287||(bad[k]>=lo&&bad[k]<=hi)) mc_skip(); int v[9]; for (int j=0;j<9;++j) v[j]=j==a?bad[k]:sig[i].hi[j]>1?sig[i].hi[j]/2:sig[i].hi[j]; start(); if (g){ must("BGPAGE 1"); page=1; } must("A=77:A$=\"Q\":BGOFS 0,3,4:BGOFS 1,100,-50,9:BGCLIP 2,3,20,21"); struct background keep=P->background; char t[200]; sprintf(t,sig[i].f,v[0],v[1],v[2],v[3],v[4],v[5]); mc_desc("%s",t);
	if (!bas("%s",t)) mc_fail("accepted"); check(); if (memcmp(keep.ofs,P->background.ofs,sizeof keep.ofs)||memcmp(keep.clip,P->background.clip,sizeof keep.clip)) mc_fail("scroll or clipping changed"); if (sys_num("A")!=77*4096||strcmp(sys_strz("A"),"Q")) mc_fail("a variable changed"); mc_trans(1); mc_state(mc_mix(i*9+a,k)); mc_nontrivial(mc_mix(i*9+a,k*2+g));
}
static void s_odd(void){ // tile strings and numbers that are no tile code: at most the addressed cell changes
	static const char* const q[]={"\"\"","\"G\"","\"12345\"","\"1\"","\"-1\"","65536","-1","524287","-524287","\"FFFFFFFF\"","\" 12\"","\"ffff\""}; int i=mc_choose(12), f=mc_choose(2); start(); mc_desc("tile %s",q[i]); if (f){ bas("BGFILL 0,31,31,32,32,%s",q[i]); for (int y=31;y<33;++y) for (int x=31;x<33;++x) ref[0][0][y][x]=scr(0,0)[idx_(x,y)]; } else { bas("BGPUT 0,31,32,%s",q[i]); ref[0][0][32][31]=scr(0,0)[idx_(31,32)]; } check(); mc_nontrivial(i*2+f); mc_state(i*2+f);
}
static const char* const pal[]={"BGPAGE 0","BGPAGE 1","BGCLR","BGCLR 0","BGCLR 1","BGPUT 0,63,63,11","BGPUT 1,-1,0,22","BGPUT 1,0,64,\"0021\"","BGFILL 0,0,0,70,0,33","BGFILL 1,31,-4,32,90,2,3,1,0","BGCOPY 0,0,0,40,2,1,0","BGCOPY 1,0,0,1,40,0,1","BGCOPY 0,1,1,63,63,0,0","BGPUT 0,0,0,55","BGFILL 0,33,40,29,30,9","BGCOPY 0,28,28,36,45,60,50","BGPUT 1,32,31,1"};
static void r_pal(int k){ switch(k){ case 0: page=0; break; case 1: page=1; break; case 2: memset(ref[page],0,sizeof ref[page]); break; case 3: case 4: memset(ref[page][k-3],0,8192); break; case 5: ref[page][0][63][63]=11; break; case 6: ref[page][1][0][63]=22; break; case 7: ref[page][1][0][0]=0x21; break; case 8: r_fill(0,0,0,70,0,33); break; case 9: r_fill(1,31,-4,32,90,td(2,3,1,0)); break; case 10: r_copy(0,0,0,40,2,1,0); break; case 11: r_copy(1,0,0,1,40,0,1); break; case 12: r_copy(0,1,1,63,63,0,0); break; case 13: ref[page][0][0][0]=55; break; case 14: r_fill(0,33,40,29,30,9); break; case 15: r_copy(0,28,28,36,45,60,50); break; case 16: ref[page][1][31][32]=1; } }
static void s_seq(void){
	int n=mc_thorough?4:3; start(); uint64_t h=0; for (int i=0;i<n;++i){ int k=mc_choose(17); mc_desc("%s:",pal[k]); must("%s",pal[k]); r_pal(k); mc_trans(1); h=mc_mix(h,k); mc_state(state()); } check(); mc_nontrivial(h); mc_outcome(state());
}
// scrolling
static struct { int64_t x, y, sx, sy, tx, ty; int time, n; } sc[2][2];
static void scheck(void){ for (int g=0;g<2;++g) for (int l=0;l<2;++l){ int64_t x=P->background.ofs[g][l].x, y=P->background.ofs[g][l].y, wx=sc[g][l].tx, wy=sc[g][l].ty; if (sc[g][l].time){ int64_t n=sc[g][l].n, d=n-sc[g][l].time; wx=sc[g][l].sx+(wx-sc[g][l].sx)*d/n; wy=sc[g][l].sy+(wy-sc[g][l].sy)*d/n; if (llabs(x-wx)>2048||llabs(y-wy)>2048) mc_fail("screen %d layer %d is at %lld,%lld, expected about %lld,%lld (in 1/4096)",g,l,(long long)x,(long long)y,(long long)wx,(long long)wy); if (x<sc[g][l].sx&&x<sc[g][l].tx) mc_fail("outside"); } else if (x!=wx||y!=wy) mc_fail("screen %d layer %d is at %lld,%lld, expected %lld,%lld (in 1/4096)",g,l,(long long)x,(long long)y,(long long)wx,(long long)wy); }
	int pg=P->background.page; int e=sys_run("A=BGCHK(0):B=BGCHK(1)\r",0); if (e) mc_fail("BGCHK: %s",errname(e)); if (sys_num("A")!=(sc[pg][0].time>0)*4096||sys_num("B")!=(sc[pg][1].time>0)*4096) mc_fail("BGCHK gives %d,%d, remaining frames %d,%d",sys_num("A")>>12,sys_num("B")>>12,sc[pg][0].time,sc[pg][1].time); mc_validated(6); mc_state(mc_hash(sc,sizeof sc)); }
static void sstep(void){ step_background(&P->background); for (int g=0;g<2;++g) for (int l=0;l<2;++l) if (sc[g][l].time) --sc[g][l].time; mc_trans(1); }
static void sset(int g, int l, int x, int y, int t){ // t<0: no time given
	mc_desc("%d:BGOFS %d,%d,%d,%d ",g,l,x,y,t); if (t<0) must("BGPAGE %d:BGOFS %d,%d,%d",g,l,x,y); else must("BGPAGE %d:BGOFS %d,%d,%d,%d",g,l,x,y,t); sc[g][l].sx=P->background.ofs[g][l].x; sc[g][l].sy=P->background.ofs[g][l].y; sc[g][l].tx=x*4096ll; sc[g][l].ty=y*4096ll; sc[g][l].n=sc[g][l].time=t<0?0:t; }
static const int sv[]={0,10,-7,511,-524287,524287,1,255};
static void s_scroll(void){ // one scroll, any start, target and time; then a second one started at any frame
	int g=mc_choose(2), l=mc_choose(2), nv=mc_thorough?8:6, a=mc_choose(nv), b=mc_choose(nv), ti=mc_choose(6), dy=2+mc_choose(2); static const int tv[]={-1,0,1,3,7,60}; sys_reset(); setmode(mode=0); memset(sc,0,sizeof sc); sset(g,l,sv[a],sv[(a+3)%6],-1); scheck(); sset(g,l,sv[b],sv[(b+dy)%6],tv[ti]); scheck(); for (int f=0;f<tv[ti]+2;++f){ sstep(); scheck(); } mc_nontrivial(mc_mix(g*2+l,mc_mix(a*8+b,ti*2+dy)));
}
static void s_retarget(void){
	int at=mc_choose(6), t1=mc_choose(5)+1, t2=mc_choose(6)-1, l2=mc_choose(4), b=mc_choose(4); sys_reset(); setmode(mode=0); memset(sc,0,sizeof sc); sset(0,0,100,-33,t1); for (int f=0;f<at;++f){ sstep(); scheck(); } sset(l2>>1,l2&1,sv[b],sv[b+2],t2); scheck(); for (int f=0;f<8;++f){ sstep(); scheck(); } mc_nontrivial(mc_mix(at*8+t1,t2*16+l2*4+b)); mc_outcome(mc_hash(sc,sizeof sc));
}
static void s_frac(void){ static const char* const v[]={"0.5","-0.25","10.75","1/3"}; static const int w[]={2048,-1024,44032,1365}; int i=mc_choose(4), j=mc_choose(4); sys_reset(); setmode(mode=0); must("BGOFS 0,%s,%s",v[i],v[j]); mc_desc("BGOFS 0,%s,%s",v[i],v[j]); if (P->background.ofs[0][0].x!=w[i]||P->background.ofs[0][0].y!=w[j]) mc_fail("%d,%d",P->background.ofs[0][0].x,P->background.ofs[0][0].y); mc_nontrivial(i*4+j); mc_state(i*4+j); }
static void s_ftime(void){ // timed moves to points between dots end exactly there
	static const char* const v[]={"0.5","-0.25","10.75","1/3","100","-511.5","7.125"}; static const int w[]={2048,-1024,44032,1365,409600,-2095104,29184}; static const int tv[]={1,2,3,7,60,255}; int i=mc_choose(7), j=mc_choose(7), t=tv[mc_choose(6)], st=mc_choose(3), l=mc_choose(2), g=mc_choose(2); sys_reset(); setmode(mode=0); memset(sc,0,sizeof sc); must("BGPAGE %d",g); if (st){ must("BGOFS %d,%s,%s",l,v[(i+st)%7],v[(j+2)%7]); sc[g][l].sx=sc[g][l].tx=w[(i+st)%7]; sc[g][l].sy=sc[g][l].ty=w[(j+2)%7]; } scheck(); mc_desc("%d:BGOFS %d,%s,%s,%d",g,l,v[i],v[j],t); must("BGOFS %d,%s,%s,%d",l,v[i],v[j],t); sc[g][l].sx=sc[g][l].tx; sc[g][l].sy=sc[g][l].ty; sc[g][l].tx=w[i]; sc[g][l].ty=w[j]; sc[g][l].n=sc[g][l].time=t; scheck(); for (int f=0;f<t+2;++f){ sstep(); if (t<10||f<3||f>t-3) scheck(); } mc_nontrivial(mc_mix(mc_mix(i*7+j,t),st*4+l*2+g)); mc_outcome(mc_hash(sc,sizeof sc)); }
static void s_clip(void){ static const int cv[]={0,1,30,31,12,23,22}; int a=cv[mc_choose(7)], b=cv[mc_choose(7)], c=cv[mc_choose(7)], d=cv[mc_choose(7)], g=mc_choose(2); if (b>23||d>23) mc_skip(); sys_reset(); setmode(mode=0); struct background k=P->background; mc_desc("%d:BGCLIP %d,%d,%d,%d",g,a,b,c,d); must("BGPAGE %d:BGCLIP %d,%d,%d,%d",g,a,b,c,d); struct bg_clip q=P->background.clip[g]; if (a<=c&&b<=d&&(q.x1!=a*8||q.y1!=b*8||q.x2!=c*8+7||q.y2!=d*8+7)) mc_fail("clipped to %d,%d-%d,%d",q.x1,q.y1,q.x2,q.y2); if (memcmp(&k.clip[!g],&P->background.clip[!g],sizeof q)) mc_fail("the other screen's clipping changed"); mc_validated(1); mc_nontrivial(mc_mix(a*32+b,c*64+d*2+g)); mc_state(mc_hash(&q,sizeof q)); }
const mc_suite mc_suites[]={ {"put",s_put,MC_QT,sys_boot},{"codes",s_codes,MC_QT,sys_boot},{"fill",s_fill,MC_QT,sys_boot},{"copy",s_copy,MC_QT,sys_boot},{"overlap",s_overlap,MC_QT,sys_boot},{"bad",s_bad,MC_QT,sys_boot},{"odd",s_odd,MC_QT,sys_boot},{"seq",s_seq,MC_QT,sys_boot},{"scroll",s_scroll,MC_QT,sys_boot},{"retarget",s_retarget,MC_QT,sys_boot},{"fraction",s_frac,MC_QT,sys_boot},{"fractime",s_ftime,MC_QT,sys_boot},{"clip",s_clip,MC_QT,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

// C18: sprite collision against an exact sweep test of the boxes.
#include "bas.h"
#include "subsystem/sprites.h"
void step_sprites(struct sprites*);
const char* mc_rule = "every offset of two boxes around touching for a set of box, scale, vector and motion pairs; every pair of masks from a covering set; every subset of overlapping sprites with every start number; far positions; counted by the pair's geometry or set";
typedef __int128 i128; typedef struct { int x, y, bx, by, bw, bh, sc, vx, vy; } box; // positions in pixels, scale in percent, movement per frame
static bool le(i128 an, i128 ad, i128 bn, i128 bd){ return an*bd<=bn*ad; } // denominators positive
// do the closed boxes meet at some time 0..1 when a moves by its movement relative to b; e widens the boxes (in 1/4096)
static bool meet(const box* a, const box* b, int e){
	int64_t as=a->sc*4096/100, bs=b->sc*4096/100; int64_t al[2]={a->x*4096ll+a->bx*as,a->y*4096ll+a->by*as}, ah[2]={al[0]+a->bw*as,al[1]+a->bh*as}, bl[2]={b->x*4096ll+b->bx*bs-e,b->y*4096ll+b->by*bs-e}, bh[2]={b->x*4096ll+(b->bx+b->bw)*bs+e,b->y*4096ll+(b->by+b->bh)*bs+e}; int64_t v[2]={(a->vx-b->vx)*4096ll,(a->vy-b->vy)*4096ll};
	i128 ln=0, ld=1, hn=1, hd=1; for (int i=0;i<2;++i){ if (!v[i]){ if (al[i]>bh[i]||ah[i]<bl[i]) return false; continue; } i128 d=v[i]<0?-v[i]:v[i], n0=v[i]>0?bl[i]-ah[i]:al[i]-bh[i], n1=v[i]>0?bh[i]-al[i]:ah[i]-bl[i]; if (le(ln,ld,n0,d)){ ln=n0; ld=d; } if (le(n1,d,hn,hd)){ hn=n1; hd=d; } } return le(ln,ld,hn,hd); }
static int verdict(const box* a, const box* b){ int e=a->sc==100&&b->sc==100?0:4; bool w=meet(a,b,e), n=meet(a,b,-e); return w==n?w:-1; } // -1: within rounding
static void start(void){ sys_reset(); setmode(mode=0); }
static void def(int id, const box* b, int flag, int how){ // how: 0 none, 1 SPCOLVEC, 2 motion in progress
	must("SPSET %d,0,0,0,0,0:SPOFS %d,%d,%d:SPCOL %d,%d,%d,%d,%d,%d",id,id,b->x,b->y,id,b->bx,b->by,b->bw,b->bh,flag); if (b->sc!=100) must("SPSCALE %d,%d",id,b->sc); if (how==1) must("SPCOLVEC %d,%d,%d",id,b->vx,b->vy); if (how==2) must("SPOFS %d,%d,%d,3",id,b->x+3*b->vx,b->y+3*b->vy); mc_desc("sprite %d at %d,%d box %d,%d+%d,%d scale %d%s move %d,%d; ",id,b->x,b->y,b->bx,b->by,b->bw,b->bh,b->sc,flag?"":" unscaled",b->vx,b->vy); }
static int ask(int a, int b){ must("H=SPHIT(%d):N=SPHITNO:I=SPHIT(%d):M=SPHITNO:J=SPHITSP(%d,%d):K=SPHITSP(%d,%d)",a,b,a,b,b,a); int h=sys_num("H")>>12, i=sys_num("I")>>12, j=sys_num("J")>>12, k=sys_num("K")>>12; if (h!=i||h!=j||h!=k) mc_fail("SPHIT says %d and %d, SPHITSP %d and %d",h,i,j,k); if (h&&h!=1) mc_fail("result %d",h); if (h&&(sys_num("N")!=b*4096||sys_num("M")!=a*4096)) mc_fail("SPHITNO is %d and %d",sys_num("N")>>12,sys_num("M")>>12); mc_validated(4); mc_trans(1); return h; }
static void judge(int a, int b, const box* A, const box* B){ int w=verdict(A,B), h=ask(a,b); mc_state(mc_mix(mc_hash(A,sizeof*A),mc_hash(B,sizeof*B))); mc_outcome(h); if (w>=0&&h!=w) mc_fail("%s",w?"a collision is not reported":"reported as collision"); }
static const int bx[][4]={{0,0,16,16},{0,0,8,8},{-4,2,5,3},{2,2,1,1},{0,0,0,0},{-128,-128,255,255},{127,0,3,200}}; static const int vv[][2]={{0,0},{5,0},{0,-4},{3,7},{-6,6},{20,-20},{-40,3}};
static void s_pair(void){ // offsets around touching
	int p=mc_choose(7), q=mc_choose(mc_thorough?7:3), z=mc_choose(4), dx=mc_range(9)-4, dy=mc_range(9)-4, sx=mc_choose(3), sy=mc_choose(3); static const int sc[][2]={{100,100},{200,100},{50,150},{33,0}}; box A={100,80,bx[p][0],bx[p][1],bx[p][2],bx[p][3],sc[z][0],0,0}, B={0,0,bx[q][0],bx[q][1],bx[q][2],bx[q][3],sc[z][1],0,0}; if (!mc_thorough&&(dx*2+dy+sx+p)%3) mc_skip();
	int al=A.x+A.bx*A.sc/100, ah=al+A.bw*A.sc/100, at=A.y+A.by*A.sc/100, ab=at+A.bh*A.sc/100; int bl=B.bx*B.sc/100, bh=bl+B.bw*B.sc/100, bt=B.by*B.sc/100, bb=bt+B.bh*B.sc/100; B.x=dx+(sx==0?ah-bl:sx==1?al-bh:(al+ah)/2-(bl+bh)/2); B.y=dy+(sy==0?ab-bt:sy==1?at-bb:(at+ab)/2-(bt+bb)/2); start(); int a=p==2?99:3, b=a==3?20:5; if (z) { a=p==2?31:3; } def(a,&A,1,0); def(b,&B,1,0); mc_nontrivial(mc_mix(mc_mix(p*7+q,z),mc_mix(B.x,B.y))); judge(a,b,&A,&B); }
static void s_flag(void){ // the box keeps its size when scaling is not to be applied to it
	int z=mc_choose(4), f=mc_choose(2), d=mc_range(60)-20, y=mc_choose(3); static const int sc[]={50,200,0,150}; box A={100,80,0,0,16,16,sc[z],0,0}, B={100+d,80+y*12-6,0,0,8,8,100,0,0}; start(); def(1,&A,f,0); def(2,&B,1,0); if (!f) A.sc=100; mc_nontrivial(mc_mix(z*2+f,d*3+y)); judge(1,2,&A,&B); }
static void s_vec(void){ // movement: boxes that meet on the way
	int i=mc_choose(7), j=mc_choose(mc_thorough?7:4), how=mc_choose(3), k=mc_choose(mc_thorough?3:2); int r=mc_thorough?24:14; int dx=(mc_range(2*r+1)-r)*2, dy=(mc_range(2*r+1)-r)*2; if (!mc_thorough&&(dx/2+dy/2+i)%3) mc_skip(); box A={150,100,bx[k][0],bx[k][1],bx[k][2],bx[k][3],100,vv[i][0],vv[i][1]}, B={150+dx,100+dy,0,0,4,4,100,vv[j][0],vv[j][1]}; start(); def(0,&A,1,how==2?2:1); def(9,&B,1,how==0?1:2); if ((how==2&&!A.vx&&!A.vy)||(how!=0&&!B.vx&&!B.vy)) mc_skip(); mc_nontrivial(mc_mix(mc_mix(i*7+j,how*3+k),mc_mix(dx,dy))); judge(0,9,&A,&B); }
static void s_stopped(void){ // movement that has ended or been replaced no longer counts
	int t=mc_choose(3)+1, f=mc_choose(5), e=mc_choose(3), d=mc_range(30)-15; start(); box A={50,50,0,0,8,8,100,0,0}; def(4,&A,1,0); must("SPOFS 4,%d,50,%d",50+10*t,t); A.vx=10; int left=t; for (int k=0;k<f;++k){ step_sprites(&P->sprites); if (left){ A.x+=10; if (!--left) A.vx=0; } } if (e==1){ must("SPOFS 4,70,50"); A.x=70; A.vx=0; } if (e==2){ must("SPOFS 4,90,50,0"); A.x=90; A.vx=0; } box B={A.x+8+d,50,0,0,3,3,100,0,0}; def(8,&B,1,0); mc_desc("moved for %d frames, %d passed, then %d",t,f,e); mc_nontrivial(mc_mix(t*5+f,e*30+d)); judge(4,8,&A,&B); }
static void s_mask(void){ static const int mv[]={0,1,2,128,255,254,127,3,85,170,16,240,255}; int a=mc_choose(13), b=mc_choose(13), d=mc_choose(2), on=mc_choose(3), was=mc_choose(2); start(); char m[2][8]={"",""}; if (a<12) sprintf(m[0],",%d",mv[a]); if (b<12) sprintf(m[1],",%d",mv[b]); must("SPSET 6,0,0,0,0,0:SPSET 7,0,0,0,0,0:SPOFS 7,%d,0:SPCOL 6,0,0,9,9,0%s:SPCOL 7,0,0,9,9,0%s",d?20:5,was?",2:SPCOL 6,1,1,2,2,1":"",m[1]); if (was) must("SPCOL 7,0,0,3,3,1,1:SPCOL 6,0,0,9,9,0%s:SPCOL 7,0,0,9,9,0%s",m[0],m[1]); else must("SPCOL 6,0,0,9,9,0%s",m[0]); if (on==1) must("SPCLR 7"); if (on==2) must("SPCLR 6"); mc_desc("masks %d %d distance %d cleared %d%s",mv[a],mv[b],d?20:5,on,was?", masked differently before":""); int h=ask(6,7), w=!d&&!on&&(mv[a]&mv[b]); if (h!=(w!=0)) mc_fail("%d",h); mc_nontrivial(mc_mix(a*13+b,d*6+on*2+was)); mc_state(mc_mix(a*13+b,d*6+on*2+was)); }
static void s_set(void){ // which of several sprites is reported
	static const int ids[]={0,3,7,50,98,99}; int m=mc_range(64), me=mc_choose(6), stv=mc_choose(8), far_=mc_choose(2), g=mc_choose(2); static const int sv[]={-1,0,3,4,8,50,98,99}; start(); if (g) must("SPPAGE 1"); for (int i=0;i<6;++i) if (m>>i&1||i==me) must("SPSET %d,0,0,0,0,0:SPOFS %d,%d,40",ids[i],ids[i],far_&&i%2?200:10+i); must("SPPAGE %d",!g); must("SPSET 1,0,0,0,0,0:SPOFS 1,10,40:SPPAGE %d",g); mc_desc("screen %d set %02x sprite %d from %d%s",g,m,ids[me],sv[stv],far_?" apart":""); int want=-1; for (int i=0;i<6;++i) if (i!=me&&(m>>i&1)&&ids[i]>=sv[stv]&&(!far_||i%2==me%2)){ want=ids[i]; break; }
	if (sv[stv]<0) must("H=SPHIT(%d):N=SPHITNO",ids[me]); else must("H=SPHIT(%d,%d):N=SPHITNO",ids[me],sv[stv]); if (sys_num("H")!=(want>=0)*4096) mc_fail("SPHIT is %d",sys_num("H")>>12); if (want>=0&&sys_num("N")!=want*4096) mc_fail("SPHITNO is %d, expected %d",sys_num("N")>>12,want); mc_validated(2); mc_trans(1); mc_nontrivial(mc_mix(m*6+me,stv*4+far_*2+g)); mc_state(mc_mix(m*6+me,stv*4+far_*2+g)); }
static void s_far(void){ static const int fv[]={524287,-524287,524270,-524280,0,32767,-32768}; int a=mc_choose(7), b=mc_choose(7), c=mc_choose(7), d=mc_choose(7); box A={fv[a],fv[b],0,0,16,16,100,0,0}, B={fv[c],fv[d],-3,-3,20,20,100,0,0}; start(); def(0,&A,1,0); def(1,&B,1,0); mc_nontrivial(mc_mix(a*7+b,c*7+d)); judge(0,1,&A,&B); }
static void s_undef(void){ int i=mc_choose(4), w=mc_choose(2); start(); must("SPSET 2,0,0,0,0,0"); if (w) must("SPSET 5,0,0,0,0,0:SPCLR 5"); static const char* const t[]={"SPHIT(5)","SPHIT(2)","SPHITSP(2,5)","SPHITSP(5,2)"}; mc_desc("%s",t[i]); must("H=%s",t[i]); if (sys_num("H")) mc_fail("hit"); mc_nontrivial(i*2+w); mc_state(i*2+w); }
const mc_suite mc_suites[]={ {"pair",s_pair,MC_QT,sys_boot},{"flag",s_flag,MC_QT,sys_boot},{"movement",s_vec,MC_QT,sys_boot},{"stopped",s_stopped,MC_QT,sys_boot},{"mask",s_mask,MC_QT,sys_boot},{"set",s_set,MC_QT,sys_boot},{"far",s_far,MC_QT,sys_boot},{"undefined",s_undef,MC_QT,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

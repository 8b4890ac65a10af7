// C17: sprites of both screens against a reference sprite table stepped frame by frame.
#include "bas.h"
#include "subsystem/sprites.h"
const char* mc_rule = "every definition from boundary sets; every illegal value of every argument and every statement on undefined sprites; every start, target, time and retargeting point of moves, turns and scalings; every animation length, interval, loop count, size and restart point next to other animated sprites; every sequence of statements and frames up to the stated length over several sprites of both screens; counted by statement history";
struct sprite_info init_sprite_info(int,int,int,bool,bool,int,int,int); int get_sprite_chr(struct sprite_info*); void step_sprites(struct sprites*);
typedef struct { int64_t s, d; int n, t; } tw; // start, distance, frames in all, frames left
typedef struct { bool on; int chr, pal, fx, fy, prio, w, h, hx, hy, cx, cy, cw, ch, sc, mask, vx, vy; tw x, y, a, z; int chrs, fpc, loop, cnt, idx; bool run, freechr; int most; fixp v[8]; } spr;
static spr R[2][100]; static int pg;
static int64_t at(const tw* t){ return t->t?t->s+t->d*(t->n-t->t)/t->n:t->s+t->d; }
static void put(tw* t, int64_t v){ t->s=v; t->d=0; t->n=t->t=0; }
static void go(tw* t, int64_t from, int64_t dist, int n){ t->s=from; t->d=dist; t->n=t->t=n; }
static void r_set(int i, int chr, int pal, int fx, int fy, int prio, int w, int h){ spr* s=&R[pg][i]; memset(s,0,sizeof *s); s->on=true; s->chr=chr; s->pal=pal; s->fx=fx; s->fy=fy; s->prio=prio; s->w=w; s->h=h; s->cw=w; s->ch=h; s->mask=255; put(&s->z,4096); }
static void r_step(void){ for (int g=0;g<2;++g) for (int i=0;i<100;++i){ spr* s=&R[g][i]; if (!s->on) continue; if (s->most) --s->most; if (s->x.t){ --s->x.t; --s->y.t; } if (s->a.t) --s->a.t; if (s->z.t) --s->z.t; if (s->run&&++s->cnt==s->fpc){ s->cnt=0; if (++s->idx==s->chrs){ if (s->loop&&!--s->loop){ s->run=false; s->idx=s->chrs-1; } else s->idx=0; } } } step_sprites(&P->sprites); mc_trans(1); }
static int unit(const spr* s){ int k=s->w*s->h/256; return k<1?1:k; }
static void near_(int g, int i, const char* w, int64_t got, const tw* t, int mod){ int64_t d=got-at(t); if (mod){ d%=mod; if (d>mod/2) d-=mod; if (d<-mod/2) d+=mod; } if (llabs(d)>(t->t?2048:0)) mc_fail("screen %d sprite %d: %s is %lld, expected %lld (in 1/4096)",g,i,w,(long long)got,(long long)at(t)); }
static int chk(const spr* s){ return !s->on?0:(s->x.t>0)|(s->a.t>0)<<1|(s->z.t>0)<<2|s->run<<3; }
#define EQ(f,v) if ((int64_t)p->f!=(int64_t)(v)) mc_fail("screen %d sprite %d: " #f " is %d, expected %d",g,i,(int)p->f,(int)(v))
static void check(void){ if (P->sprites.page!=pg) mc_fail("addressed screen is %d, expected %d",P->sprites.page,pg); for (int g=0;g<2;++g) for (int i=0;i<100;++i){ const spr* s=&R[g][i]; struct sprite_info* p=&P->sprites.info[g][i]; EQ(active,s->on); if (!s->on) continue; EQ(id,i); EQ(pal,s->pal); EQ(w,s->w); EQ(h,s->h); EQ(prio,s->prio); EQ(flip_x,s->fx); EQ(flip_y,s->fy); EQ(home_x,s->hx); EQ(home_y,s->hy); EQ(hit.x,s->cx*4096); EQ(hit.y,s->cy*4096); EQ(hit.w,s->cw*4096); EQ(hit.h,s->ch*4096); EQ(hit.mask,s->mask); EQ(hit.dx,s->vx*4096); EQ(hit.dy,s->vy*4096); near_(g,i,"x",p->pos.x,&s->x,0); near_(g,i,"y",p->pos.y,&s->y,0); near_(g,i,"angle",p->angle.a,&s->a,360*4096); near_(g,i,"scale",p->scale.s,&s->z,0); for (int k=0;k<8;++k) if (p->vars[k]!=s->v[k]) mc_fail("sprite %d variable %d is %d",i,k,p->vars[k]);
	int c=get_sprite_chr(p), w=s->chr+s->idx*unit(s); if (s->freechr?c<s->chr||c>=s->chr+s->chrs*unit(s):c!=w) mc_fail("screen %d sprite %d shows character %d, expected %d",g,i,c,w); } mc_validated(200); mc_state(mc_hash(R,sizeof R)); }
static void checkb(int i){ // what the program can read
	spr* s=&R[pg][i]; must("K=SPCHK(%d)",i); if (sys_num("K")!=chk(s)*4096&&(!s->most||(sys_num("K")&~(8*4096))!=(chk(s)&~8)*4096)) mc_fail("SPCHK(%d) is %d, expected %d",i,sys_num("K")>>12,chk(s)); if (!s->on) return; must("SPREAD(%d),X,Y,A,S,C",i); struct sprite_info* p=&P->sprites.info[pg][i]; fixp c=sys_num("C"); if (sys_num("X")!=(p->pos.x&-4096)||sys_num("Y")!=(p->pos.y&-4096)||sys_num("A")!=p->angle.a||sys_num("S")!=p->scale.s||(c!=s->chr*4096)) mc_fail("SPREAD gives %d,%d,%d,%d,%d for %d,%d,%d,%d,%d (in 1/4096)",sys_num("X"),sys_num("Y"),sys_num("A"),sys_num("S"),c,p->pos.x,p->pos.y,p->angle.a,p->scale.s,s->chr*4096); mc_validated(6); }
static void start(void){ sys_reset(); setmode(mode=0); memset(R,0,sizeof R); pg=0; }
static void page(int g){ if (g!=pg){ mc_desc("SPPAGE %d:",g); must("SPPAGE %d",g); pg=g; } }
#define DO(...) do { char q_[300]; sprintf(q_,__VA_ARGS__); mc_desc("%s:",q_); must("%s",q_); } while(0)
static void dset(int i, int chr){ DO("SPSET %d,%d,1,0,1,2",i,chr); r_set(i,chr,1,0,1,2,16,16); }
static const char* frac="";
static void dofs(int i, int x, int y, int t){ spr* s=&R[pg][i]; struct sprite_info* p=&P->sprites.info[pg][i]; int64_t x0=p->pos.x, y0=p->pos.y; if (t<0){ DO("SPOFS %d,%d%s,%d%s",i,x,frac,y,frac); } else DO("SPOFS %d,%d%s,%d%s,%d",i,x,frac,y,frac,t); if (t>0){ go(&s->x,x0,x*4096ll-x0,t); go(&s->y,y0,y*4096ll-y0,t); } else { put(&s->x,x*4096ll); put(&s->y,y*4096ll); } }
static void dang(int i, int a, int t, int dir){ spr* s=&R[pg][i]; int64_t a0=P->sprites.info[pg][i].angle.a; if (t<0) DO("SPANGLE %d,%d",i,a); else if (!dir) DO("SPANGLE %d,%d,%d",i,a,t); else DO("SPANGLE %d,%d,%d,%d",i,a,t,dir); if (t>0){ int64_t d=(a*4096ll-a0)%(360*4096); if (d<0) d+=360*4096; if (dir>=0&&d) d-=360*4096; go(&s->a,a0,d,t); } else put(&s->a,a*4096ll); }
static void dsc(int i, int z, int t){ spr* s=&R[pg][i]; int64_t z0=P->sprites.info[pg][i].scale.s, v=z*4096/100; if (t<0) DO("SPSCALE %d,%d",i,z); else DO("SPSCALE %d,%d,%d",i,z,t); if (t>0) go(&s->z,z0,v-z0,t); else put(&s->z,v); }
static void danim(int i, int c, int f, int l){ spr* s=&R[pg][i]; if (l<0) DO("SPANIM %d,%d,%d",i,c,f); else DO("SPANIM %d,%d,%d,%d",i,c,f,l); s->chrs=c; s->fpc=f; s->loop=l<0?0:l; s->cnt=s->idx=0; s->run=true; s->freechr=false; s->most=0; }
static const int szs[][2]={{8,8},{16,16},{32,32},{64,64},{16,8},{32,8},{32,16},{64,32},{8,16},{8,32},{16,32},{32,64}};
static void dirty(int i){ must("SPSET %d,3,1,1,1,1:SPOFS %d,50,60,9:SPANGLE %d,90,7:SPANIM %d,2,3:SPSETV %d,7,5:SPHOME %d,3,4:SPCOL %d,1,2,3,4,1,9:SPCOLVEC %d,5,6",i,i,i,i,i,i,i,i); if (i<32) must("SPSCALE %d,50,8",i); }
static void s_set(void){
	static const int idv[]={0,1,31,32,99}, cv[]={0,1,117,511}; int i=idv[mc_choose(5)], c=cv[mc_choose(4)], z=mc_choose(13), f=mc_choose(4), g=mc_choose(2), d=mc_choose(2), prio=(f+z)&3, pal=(z*5+f)&15; if (g&&c>117) mc_skip(); start(); page(g); if (d){ dirty(i); step_sprites(&P->sprites); } if (z==12){ DO("SPSET %d,%d,%d,%d,%d,%d",i,c,pal,f&1?prio+1:0,f>>1?1-2*(pal&3):0,prio); r_set(i,c,pal,f&1,f>>1,prio,16,16); } else { DO("SPSET %d,%d,%d,%d,%d,%d,%d,%d",i,c,pal,f&1,f>>1,prio,szs[z][0],szs[z][1]); r_set(i,c,pal,f&1,f>>1,prio,szs[z][0],szs[z][1]); }
	check(); checkb(i); r_step(); check(); checkb(i); static const int iv[]={0,7,3}; for (int k=0;k<3;++k){ DO("SPSETV %d,%d,%d.5",i,iv[k],k*100-50); R[pg][i].v[iv[k]]=k*100*4096-50*4096+(k*100-50<0?-2048:2048); must("A=SPGETV(%d,%d):B=SPGETV(%d,%d)",i,iv[k],i,1); if (sys_num("A")!=R[pg][i].v[iv[k]]||sys_num("B")) mc_fail("SPGETV gives %d and %d",sys_num("A"),sys_num("B")); } check();
	DO("SPHOME %d,%d,%d",i,f*40-60,prio*60-128); R[pg][i].hx=f*40-60; R[pg][i].hy=prio*60-128; DO("SPCOL %d,%d,%d,%d,%d,%d,%d",i,-128+f*85,127-prio*85,z*21,255-z*20,f&1,z*21); spr* s=&R[pg][i]; s->cx=-128+f*85; s->cy=127-prio*85; s->cw=z*21; s->ch=255-z*20; s->mask=z*21; DO("SPCOLVEC %d,%d,%d",i,127-f*85,-128+z*21); s->vx=127-f*85; s->vy=-128+z*21; check(); DO("SPCHR %d,%d",i,c/2); s->chr=c/2; check(); DO("SPCHR %d,%d,%d,%d,%d,%d",i,c,15-pal,1-(f&1),1-(f>>1),3-prio); s->chr=c; s->pal=15-pal; s->fx=1-(f&1); s->fy=1-(f>>1); s->prio=3-prio; check(); checkb(i); DO("SPCLR %d",i); s->on=false; check(); checkb(i); mc_nontrivial(mc_mix(mc_mix(i,c),z*16+f*4+g*2+d)); }
static const struct { const char* f; int n, lo[9], hi[9]; bool any; } sig[]={
	{"SPPAGE %d",1,{0},{1},true},{"SPCLR %d",1,{0},{99},true},{"SPSET %d,%d,%d,0,0,%d",4,{0,0,0,0},{99,117,15,3},true},{"SPSET %d,%d,%d,1,1,%d,16,16",4,{0,0,0,0},{99,117,15,3},true},{"SPOFS %d,5,6",1,{0},{99}},{"SPOFS %d,5,6,%d",2,{0,0},{99,524287}},{"SPSETV %d,%d,5",2,{0,0},{99,7}},{"A=SPGETV(%d,%d)",2,{0,0},{99,7}},{"SPCOL %d,%d,%d,%d,%d,%d",6,{0,-128,-128,0,0,0},{99,127,127,255,255,1}},{"SPCOL %d,1,1,1,1,1,%d",2,{0,0},{99,255}},{"SPCOLVEC %d,%d,%d",3,{0,-128,-128},{99,127,127}},{"SPHOME %d,1,2",1,{0},{99}},{"SPSCALE %d,%d",2,{0,0},{31,200}},{"SPSCALE %d,%d,%d",3,{0,0,0},{31,200,524287}},{"A=SPHIT(%d)",1,{0},{99},true},{"A=SPHIT(%d,%d)",2,{0,0},{99,99},true},{"A=SPHITSP(%d,%d)",2,{0,0},{99,99},true},{"SPANGLE %d,50",1,{0},{99}},{"SPANGLE %d,50,%d",2,{0,0},{99,524287}},{"SPANGLE %d,50,%d,1",2,{0,0},{99,524287}},{"SPCHR %d,%d",2,{0,0},{99,117}},{"SPCHR %d,%d,%d,0,0,%d",4,{0,0,0,0},{99,117,15,3}},{"A=SPCHK(%d)",1,{0},{99},true},{"SPREAD(%d),A,B",1,{0},{99}},{"SPANIM %d,%d,%d",3,{0,0,0},{99,524287,524287}},{"SPANIM %d,2,2,%d",2,{0,0},{99,524287}} };
enum { NS=sizeof sig/sizeof*sig };
static void frozen(struct sprites* k){ for (int g=0;g<2;++g) for (int i=0;i<100;++i) if (memcmp(&k->info[g][i],&P->sprites.info[g][i],sizeof k->info[g][i])) mc_fail("screen %d sprite %d changed",g,i); if (k->page!=P->sprites.page) mc_fail("the addressed screen changed"); if (sys_num("A")!=77*4096||sys_num("B")!=78*4096) mc_fail("a variable changed"); mc_validated(200); }
static void s_bad(void){
	int i=mc_choose(NS), a=mc_choose(sig[i].n), k=mc_choose(9), g=mc_choose(2); int lo=sig[i].lo[a], hi=sig[i].hi[a]; if (!g&&hi==117&&a==1) hi=511; int bad[]={lo-1,hi+1,hi+256,lo-256,hi+65536,-524287,524287,lo-2,hi+300}; if (bad[k]>524287||(bad[k]>=lo&&bad[k]<=hi)) mc_skip(); int v[9]; for (int j=0;j<9;++j) v[j]=j==a?bad[k]:j?sig[i].hi[j]>200?1:sig[i].hi[j]/2:0; start(); page(g); for (int q=0;q<100;q+=33) dirty(q); dirty(31); dirty(1); must("A=77:B=78"); step_sprites(&P->sprites); struct sprites keep=P->sprites; char t[200]; sprintf(t,sig[i].f,v[0],v[1],v[2],v[3],v[4],v[5]); mc_desc("%s",t); if (!bas("%s",t)) mc_fail("accepted"); frozen(&keep); mc_trans(1); mc_state(mc_mix(i*9+a,k*2+g)); mc_nontrivial(mc_mix(i*9+a,k*2+g)); }
static void s_undef(void){ // statements on a sprite that is not defined
	int i=mc_choose(NS), g=mc_choose(2), was=mc_choose(2); static const int idv[]={0,5,31}; int id=idv[mc_choose(3)]; if (sig[i].any&&i!=22) mc_skip(); start(); page(g); dirty(id?0:1); must("A=77:B=78"); if (was){ dirty(id); step_sprites(&P->sprites); must("SPCLR %d",id); } page(g); struct sprites keep=P->sprites; int v[9]={id,1,1,1,1,1}; char t[200]; sprintf(t,sig[i].f,v[0],v[1],v[2],v[3],v[4],v[5]); mc_desc("%s undefined%s",t,was?" again":""); int e=bas("%s",t); if (i==22){ if (!e&&sys_num("A")) mc_fail("SPCHK is %d",sys_num("A")>>12); must("A=77"); } else if (!e) mc_fail("accepted"); frozen(&keep); mc_nontrivial(mc_mix(i*2+g,id*2+was)); mc_state(mc_mix(i*2+g,id*2+was)); }
static void s_badsize(void){ int w=mc_choose(12), h=mc_choose(12); static const int v[]={8,16,32,64,0,-8,1,24,128,256,264,524287}; bool ok=false; for (int k=0;k<12;++k) ok|=szs[k][0]==v[w]&&szs[k][1]==v[h]; start(); dirty(0); must("A=77:B=78"); struct sprites keep=P->sprites; mc_desc("SPSET 0,1,2,0,0,3,%d,%d",v[w],v[h]); int e=bas("SPSET 0,1,2,0,0,3,%d,%d",v[w],v[h]); if (ok){ if (e) mc_fail("%s",errname(e)); if (P->sprites.info[0][0].w!=v[w]||P->sprites.info[0][0].h!=v[h]) mc_fail("size is %d,%d",P->sprites.info[0][0].w,P->sprites.info[0][0].h); } else { if (!e) mc_fail("accepted"); frozen(&keep); } mc_nontrivial(w*12+h); mc_state(w*12+h); }
static void s_dir(void){ static const int dv[]={0,2,-2,256,-524287}; int d=dv[mc_choose(5)], t=mc_choose(3)*5; start(); dirty(0); must("A=77:B=78"); struct sprites keep=P->sprites; mc_desc("SPANGLE 0,20,%d,%d",t,d); if (!bas("SPANGLE 0,20,%d,%d",t,d)) mc_fail("accepted"); frozen(&keep); mc_nontrivial(mc_mix(d,t)); mc_state(mc_mix(d,t)); }
static const int tv[]={-1,0,1,2,3,7,60};
static void frames(int n, int i){ for (int f=0;f<n;++f){ r_step(); check(); checkb(i); } }
static void s_move(void){ static const int xv[]={0,10,-7,255,-524287,524287}; int n=mc_thorough?6:5; int a=mc_choose(n), b=mc_choose(n), t=tv[mc_choose(7)], id=mc_choose(2)*99, g=mc_choose(2), yb=mc_choose(2)?(a+2)%6:(b+3)%6; static const char* const fr[]={"","+.5","+.9999"}; frac=fr[mc_choose(3)]; if (*frac&&(xv[a]==524287||xv[b]==524287||xv[(a+2)%6]==524287||xv[yb]==524287)) frac=""; start(); page(g); dset(id,5); dset(50,6); dofs(id,xv[a],xv[(a+2)%6],-1); check(); dofs(id,xv[b],xv[yb],t); check(); checkb(id); frames(t+3,id); mc_nontrivial(mc_mix(a*8+b,mc_mix(t,id+g))); mc_outcome(at(&R[g][id].x)); frac=""; }
static void s_turn(void){ static const int av[]={0,90,45,359,360,-90,725,180}; int a=mc_choose(8), b=mc_choose(8), t=tv[mc_choose(7)], dir=t<0?0:mc_choose(3)-1; start(); dset(7,5); dset(8,6); dang(7,av[a],-1,0); check(); dang(7,av[b],t,dir); check(); checkb(7); frames(t+3,7); mc_nontrivial(mc_mix(a*8+b,mc_mix(t,dir))); }
static void s_spin(void){ // turned again and again before the turn is over
	int st=mc_choose(3), d=mc_choose(2)*2-1, n=3200, full=360*4096; static const int by[]={350,181,90}; start(); dset(7,5); mc_desc("turned %d times by %d, direction %d, half way each time",n,by[st],d); for (int k=0;k<n;++k){ fixp a0=P->sprites.info[0][7].angle.a; int to=(a0/4096-d*by[st])%360; must("SPANGLE 7,%d,2,%d",to,d); step_sprites(&P->sprites); int64_t ds=((to*4096ll-a0)*-d%full+full)%full, df=((P->sprites.info[0][7].angle.a-(a0-d*ds/2))%full+full)%full; if (df>4&&df<full-4) mc_fail("turn %d from %d/4096 to %d: the angle is %d/4096",k,a0,to,P->sprites.info[0][7].angle.a); } mc_validated(n); mc_nontrivial(st*2+d); mc_state(st*2+d); }
static void s_grow(void){ static const int zv[]={0,100,200,50,33,1}; int a=mc_choose(6), b=mc_choose(6), t=tv[mc_choose(7)], id=mc_choose(2)*31; start(); dset(id,5); dset(50,6); dsc(id,zv[a],-1); check(); dsc(id,zv[b],t); check(); checkb(id); frames(t+3,id); mc_nontrivial(mc_mix(a*8+b,mc_mix(t,id))); }
static void s_retarget(void){ int k=mc_choose(3), at_=mc_choose(5), t1=mc_choose(4)+1, t2=mc_choose(5)-1, o=mc_choose(3), v=mc_choose(3); static const int tg[]={40,-120,200}; start(); dset(0,5); dset(1,6); if (k==0) dofs(0,30,-60,t1); else if (k==1) dang(0,30,t1,1); else dsc(0,180,t1); frames(at_,0); int id=o==1; if (o==2){ dset(0,9); } if (k==0) dofs(id,tg[v],9,t2); else if (k==1) dang(id,tg[v],t2,t2<0?0:-1); else dsc(id,abs(tg[v]),t2); check(); frames(6,id); mc_nontrivial(mc_mix(mc_mix(k*5+at_,t1*8+t2),o*3+v)); mc_outcome(mc_hash(R[0],2*sizeof(spr))); }
static void s_anim(void){ // an animation, another one on sprites before and after it, restart or image change at any frame
	int c=mc_choose(3)+1, f=mc_choose(3)+1, l=mc_choose(5)-1, z=mc_choose(mc_thorough?5:3), k=mc_choose(5), w=mc_choose(4), at_=mc_choose(mc_thorough?10:7); static const int zz[]={1,0,2,3,10}; if (!w&&at_) mc_skip(); int ch0=w?mc_choose(2)*8:8; start(); if (!k){ page(1); } int ch=ch0; for (int i=4;i<7;++i){ if (k!=1||i==5){ DO("SPSET %d,%d,0,0,0,0,%d,%d",i,ch,szs[zz[z]][0],szs[zz[z]][1]); r_set(i,ch,0,0,0,0,szs[zz[z]][0],szs[zz[z]][1]); } }
	if (k>=2){ danim(4,2,k==3?1:2,k==4?1:2); danim(6,3,1,k==4?0:1); } danim(5,c,f,l); check(); checkb(5); frames(at_,5); if (w==1){ danim(5,c,f,l); check(); } else if (w==2){ DO("SPSET 5,20,0,0,0,0"); r_set(5,20,0,0,0,0,16,16); check(); } else if (w==3){ spr* s=&R[pg][5]; DO("SPCHR 5,30"); s->chr=30; if (s->run){ s->freechr=true; s->most=s->loop*s->chrs*s->fpc; } else s->idx=0; check(); } frames(c*f*(l>0?l:2)+4,5); mc_nontrivial(mc_mix(mc_mix(c*4+f,l*8+z),mc_mix(k*4+w,at_))); mc_outcome(mc_hash(&R[pg][4],3*sizeof(spr))); }
static void op(int k){ switch (k){ case 0: page(0); break; case 1: page(1); break; case 2: dset(3,10); break; case 3: dset(99,20); break; case 4: DO("SPCLR 3"); R[pg][3].on=false; break; case 5: DO("SPCLR"); for (int i=0;i<100;++i) R[pg][i].on=false; break; case 6: case 7: r_step(); mc_desc("frame:"); break;
	default: { int id=k&1?99:3; spr* s=&R[pg][id]; if (!s->on){ // every statement must fail and change nothing
			static const char* const t[]={"SPOFS %d,4,4","SPOFS %d,9,-9,3","SPANGLE %d,20","SPANGLE %d,90,2,1","SPCHR %d,7","SPANIM %d,2,1,2","SPSETV %d,2,8","SPCOL %d,1,1,2,2,0"}; char q[60]; sprintf(q,t[(k-8)/2],id); mc_desc("%s!:",q); if (!bas("%s",q)) mc_fail("%s accepted",q); break; }
		switch ((k-8)/2){ case 0: dofs(id,4,4,-1); break; case 1: dofs(id,9,-9,3); break; case 2: dang(id,20,-1,0); break; case 3: dang(id,90,2,1); break; case 4: DO("SPCHR %d,7",id); s->chr=7; if (s->run){ s->freechr=true; s->most=s->loop*s->chrs*s->fpc; } else s->idx=0; break; case 5: danim(id,2,1,2); break; case 6: DO("SPSETV %d,2,8",id); s->v[2]=8*4096; break; case 7: DO("SPCOL %d,1,1,2,2,0",id); s->cx=s->cy=1; s->cw=s->ch=2; s->mask=255; break; } } } }
static void s_seq(void){ int n=mc_thorough?4:3; start(); dset(3,40); page(1); dset(3,41); dset(99,42); uint64_t h=0; for (int i=0;i<n;++i){ int k=mc_choose(24); if (k==7) mc_skip(); op(k); h=mc_mix(h,k); } check(); checkb(3); checkb(99); frames(2,3); mc_nontrivial(h); mc_outcome(mc_hash(R,sizeof R)); }
static void s_stride(void){ int z=mc_choose(12), c=mc_choose(3)+1, f=mc_choose(2)+1, n=mc_choose(2); start(); dset(2,7); DO("SPSET 3,4,0,0,0,0,%d,%d",szs[z][0],szs[z][1]); r_set(3,4,0,0,0,0,szs[z][0],szs[z][1]); danim(3,c,f,n?2:-1); frames(c*f*2+3,3); mc_nontrivial(mc_mix(z*3+c,f*2+n)); }
const mc_suite mc_suites[]={ {"set",s_set,MC_QT,sys_boot},{"bad",s_bad,MC_QT,sys_boot},{"undefined",s_undef,MC_QT,sys_boot},{"sizes",s_badsize,MC_QT,sys_boot},{"direction",s_dir,MC_QT,sys_boot},{"move",s_move,MC_QT,sys_boot},{"turn",s_turn,MC_QT,sys_boot},{"spin",s_spin,MC_QT,sys_boot},{"grow",s_grow,MC_QT,sys_boot},{"retarget",s_retarget,MC_QT,sys_boot},{"stride",s_stride,MC_QT,sys_boot},{"anim",s_anim,MC_QT,sys_boot},{"seq",s_seq,MC_QT,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

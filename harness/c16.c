// C16: graphics statements against a reference of all four pages.
#include "bas.h"
#include "subsystem/graphics.h"
#include "subsystem/resources.h"
#include <math.h>
const char* mc_rule = "every coordinate of boundary sets for every drawing statement, colour form and mode; every line in a range of directions and lengths from on and off the page; every radius and several centres; every wall pattern of a small area, start cell and paint form; every region, overlap and page of copies; every size, position and resource form of characters; every sequence of statements up to the stated length over both screens; every illegal argument; counted by statement and start";
#define SZ 49152
static u8 ref[4][SZ], base[4][SZ]; static int scrn, draw[2], disp[2], prio[2], color, xmode; static u16 col0[6][256];
static int gi(int x, int y){ return (x&7)+(y&7)*8+((x>>3)&7)*64+((y>>3)&7)*512+(x>>6)*4096+(y>>6)*16384; }
static bool on(int x, int y){ return x>=0&&x<256&&y>=0&&y<192; }
static u8* dp(void){ return ref[draw[scrn]]; }
static void px(int64_t x, int64_t y, int c){ if (x>=0&&x<256&&y>=0&&y<192){ if (xmode) dp()[gi(x,y)]^=c; else dp()[gi(x,y)]=c; } }
static void start(int kind){ sys_reset(); setmode(mode=0); scrn=0; color=0; xmode=0; prio[0]=prio[1]=3; draw[0]=disp[0]=0; draw[1]=disp[1]=1;
	static bool made; if (!made){ made=true; for (int g=0;g<4;++g) for (int y=0;y<192;++y) for (int x=0;x<256;++x) base[g][gi(x,y)]=(x*7+y*13+g*50+x*y/5); } if (kind) for (int g=0;g<4;++g) memcpy(ref[g],base[g],SZ); else memset(ref,0,sizeof ref); for (int g=0;g<4;++g) memcpy(P->res.grp[g],ref[g],SZ); for (int i=0;i<6;++i) memcpy(col0[i],P->res.col[i],512); }
static void settings(void){ struct graphics* g=&P->graphics; if (g->screen!=scrn||g->color!=color||!!g->drawmode!=xmode) mc_fail("screen %d colour %d mode %d, expected %d %d %d",g->screen,g->color,g->drawmode,scrn,color,xmode); for (int i=0;i<2;++i) if (g->info[i].drawpage!=draw[i]||g->info[i].displaypage!=disp[i]||g->info[i].prio!=prio[i]) mc_fail("screen %d draws %d shows %d at %d, expected %d %d %d",i,g->info[i].drawpage,g->info[i].displaypage,g->info[i].prio,draw[i],disp[i],prio[i]); }
static void check(void){ settings(); for (int g=0;g<4;++g) if (memcmp(P->res.grp[g],ref[g],SZ)) for (int y=0;y<192;++y) for (int x=0;x<256;++x) if (P->res.grp[g][gi(x,y)]!=ref[g][gi(x,y)]) mc_fail("page %d pixel %d,%d is %d, expected %d",g,x,y,P->res.grp[g][gi(x,y)],ref[g][gi(x,y)]); mc_validated(4*SZ); mc_trans(1); }
static void cols(void){ for (int i=0;i<6;++i) if (memcmp(col0[i],P->res.col[i],512)) mc_fail("palette %d changed",i); }
static uint64_t state(void){ uint64_t h=0; for (int g=0;g<4;++g) h=mc_mix(h,mc_hash(ref[g],SZ)); return mc_mix(h,mc_mix(color*2+xmode,mc_mix(scrn*16+draw[0]*4+draw[1],disp[0]*4+disp[1]))); }
static void env(int e){ // where to draw: screen, page and mode
	if (e&1){ must("GPAGE 1"); scrn=1; } if (e&2){ must("GPAGE %d,3,2",scrn); draw[scrn]=3; disp[scrn]=2; } if (e&4){ must("GDRAWMD 1"); xmode=1; } must("GCOLOR 200"); color=200; }
static const int cv[]={0,1,255,256,-1,191,192,100,524287,-524287};
static void s_pset(void){
	int x=cv[mc_choose(10)], y=cv[mc_choose(10)], e=mc_choose(8), f=mc_choose(3); start(1); env(e); mc_desc("GPSET %d,%d",x,y); int c=color; if (f==0) must("GPSET %d,%d",x,y); else { c=f==1?0:255; mc_desc(",%d",c); must("GPSET %d,%d,%d",x,y,c); } px(x,y,c); check();
	must("A=GSPOIT(%d,%d):B=GSPOIT(0,%d,%d):C=GSPOIT(3,%d,%d)",x,y,x,y,x,y); int w[]={on(x,y)?dp()[gi(x,y)]:-1,on(x,y)?ref[0][gi(x,y)]:-1,on(x,y)?ref[3][gi(x,y)]:-1}; for (int i=0;i<3;++i){ char n[2]={'A'+i,0}; if (sys_num(n)!=w[i]*4096) mc_fail("GSPOIT gives %d, expected %d",sys_num(n)>>12,w[i]); } check(); mc_nontrivial(mc_mix(mc_mix(x,y),e*3+f)); mc_state(state()); }
static void r_fill(int x1, int y1, int x2, int y2, int c){ if (x1>x2){int q=x1;x1=x2;x2=q;} if (y1>y2){int q=y1;y1=y2;y2=q;} for (int y=y1<0?0:y1;y<=y2&&y<192;++y) for (int x=x1<0?0:x1;x<=x2&&x<256;++x) px(x,y,c); }
static void r_box(int x1, int y1, int x2, int y2, int c){ if (x1>x2){int q=x1;x1=x2;x2=q;} if (y1>y2){int q=y1;y1=y2;y2=q;} for (int y=0;y<192;++y) for (int x=0;x<256;++x) if (x>=x1&&x<=x2&&y>=y1&&y<=y2&&(x==x1||x==x2||y==y1||y==y2)) px(x,y,c); }
static void s_rect(void){
	int n=mc_thorough?10:7; int x1=cv[mc_choose(n)], y1=cv[mc_choose(n)], x2=cv[mc_choose(n)], y2=cv[mc_choose(n)], b=mc_choose(2), e=mc_choose(mc_thorough?8:2); if (!mc_thorough&&e) e=4+((x1+y2)&3); int f=(x1+y1)&1, c=f?255:200; start(1); env(e); mc_desc("%s %d,%d,%d,%d%s mode %d",b?"GBOX":"GFILL",x1,y1,x2,y2,f?",255":"",e);
	if (f) must("%s %d,%d,%d,%d,255",b?"GBOX":"GFILL",x1,y1,x2,y2); else must("%s %d,%d,%d,%d",b?"GBOX":"GFILL",x1,y1,x2,y2); (b?r_box:r_fill)(x1,y1,x2,y2,c); check(); mc_nontrivial(mc_mix(mc_mix(mc_mix(x1,y1),mc_mix(x2,y2)),e*2+b)); mc_state(state()); }
static void s_smallrect(void){ int x=mc_choose(5)-2, y=mc_choose(5)-2, w=mc_choose(5)-2, h=mc_choose(5)-2, b=mc_choose(2), e=mc_choose(2)*4, k=mc_choose(2); if (k){ x+=255; y+=191; } start(1); env(e); mc_desc("%s %d,%d,%d,%d mode %d",b?"GBOX":"GFILL",x,y,x+w,y+h,e); must("%s %d,%d,%d,%d",b?"GBOX":"GFILL",x,y,x+w,y+h); (b?r_box:r_fill)(x,y,x+w,y+h,200); check(); mc_nontrivial(mc_mix(mc_mix(x,y),mc_mix(w*8+h,b*2+e))); mc_state(state()); }
// the pixels changed on a blank page
static u8 got[192][256]; static int changed(void){ int n=0; for (int g=0;g<4;++g) if (g!=draw[scrn]){ if (memcmp(P->res.grp[g],ref[g],SZ)) mc_fail("page %d changed",g); } const u8* d=P->res.grp[draw[scrn]]; for (int y=0;y<192;++y) for (int x=0;x<256;++x){ int c=d[gi(x,y)]; if (c&&c!=color) mc_fail("pixel %d,%d is %d",x,y,c); n+=got[y][x]=c!=0; } settings(); return n; }
static void line(int64_t x1, int64_t y1, int64_t x2, int64_t y2, int e){
	mc_desc("GLINE %d,%d,%d,%d mode %d",(int)x1,(int)y1,(int)x2,(int)y2,e); must("GLINE %d,%d,%d,%d",(int)x1,(int)y1,(int)x2,(int)y2); changed(); mc_trans(1); int64_t dx=x2-x1, dy=y2-y1; bool hor=llabs(dx)>=llabs(dy); int64_t M=hor?dx:dy, m=hor?dy:dx, s=hor?x1:y1, t=hor?y1:x1; if (M<0){ s+=M; t+=m; M=-M; m=-m; }
	int lim=hor?256:192, lim2=hor?192:256; for (int i=0;i<lim;++i){ int cnt=0, at=-1; for (int j=0;j<lim2;++j) if (hor?got[j][i]:got[i][j]){ ++cnt; at=j; } int64_t k=i-s; if (k<0||k>M){ if (cnt) mc_fail("pixel %d,%d lies past the ends",hor?i:at,hor?at:i); continue; }
		double y=t+(M?(double)m*k/M:0); if (cnt>1) mc_fail("%d pixels at %s %d",cnt,hor?"x":"y",i); if (cnt){ if (fabs(at-y)>0.5+1/16.) mc_fail("pixel %d,%d, the line passes at %g",hor?i:at,hor?at:i,y); } else if (y>-0.4&&y<lim2-0.6) mc_fail("no pixel at %s %d, the line passes at %g",hor?"x":"y",i,y); }
	if (on(x1,y1)&&!got[y1][x1]) mc_fail("start point not drawn"); if (on(x2,y2)&&!got[y2][x2]) mc_fail("end point not drawn"); mc_validated(lim); mc_state(mc_hash(got,sizeof got)); }
static void s_line(void){ int r=mc_thorough?48:24, dx=mc_range(2*r+1)-r, dy=mc_range(2*r+1)-r, k=mc_choose(2), e=mc_choose(2)*4; static const int ox[]={100,3}, oy[]={100,2}; start(0); env(e); line(ox[k],oy[k],ox[k]+dx,oy[k]+dy,e); mc_nontrivial(mc_mix(mc_mix(dx,dy),k*8+e)); }
static void s_longline(void){ static const int lx[]={0,255,-1,256,128,-300,1000,-524287,524287,77777}, ly[]={0,191,-1,192,96,-200,900,524287,-524287,-33333}; int n=mc_thorough?10:9; int a=mc_choose(n),b=mc_choose(n),c=mc_choose(n),d=mc_choose(n); start(0); env(0); mc_no_case_timer(20); line(lx[a],ly[b],lx[c],ly[d],0); mc_nontrivial(mc_mix(a*10+b,c*10+d)); }
static void s_edgeline(void){ // from every border point to several others
	int i=mc_range(896), k=mc_choose(5), f=mc_choose(2); int x=i<256?i:i<512?i-256:i<704?0:255, y=i<256?0:i<512?191:i<704?i-512:i-704; static const int tx[]={128,0,255,37,200}, ty[]={96,191,100,11,190}; start(0); env(4); if (f) line(x,y,tx[k],ty[k],4); else line(tx[k],ty[k],x,y,4); mc_nontrivial(mc_mix(i,k*2+f)); }
static void s_circle(void){
	static const int cx[]={128,0,255,-20,100,60}, cy[]={96,0,191,50,300,-700}; static const int big[]={300,500,700,1000,5000,100000,524287}; int k=mc_choose(6), ri=mc_range(mc_thorough?267:137), e=mc_choose(2); int r=ri<(mc_thorough?260:130)?ri:big[ri-(mc_thorough?260:130)]; start(0); env(0); mc_no_case_timer(20); mc_desc("GCIRCLE %d,%d,%d%s",cx[k],cy[k],r,e?" mode 1":""); must("GCIRCLE %d,%d,%d",cx[k],cy[k],r); int n=changed(); mc_trans(1); bool full=r>1&&on(cx[k]-r-2,cy[k]-r-2)&&on(cx[k]+r+2,cy[k]+r+2);
	for (int y=0;y<192;++y) for (int x=0;x<256;++x) if (got[y][x]){ double d=hypot(x-cx[k],y-cy[k]); if (fabs(d-r)>2.1) mc_fail("pixel %d,%d at distance %g",x,y,d); if (full){ int nb=0; for (int j=-1;j<2;++j) for (int i=-1;i<2;++i) nb+=(i||j)&&got[y+j][x+i]; if (nb<2) mc_fail("open at %d,%d",x,y); } }
	for (int a=0;a<256;++a){ double fx=cx[k]+r*cos(a*M_PI/128), fy=cy[k]+r*sin(a*M_PI/128); if (fx<4||fy<4||fx>251||fy>187) continue; bool f=false; for (int y=fy-3;y<=fy+3;++y) for (int x=fx-3;x<=fx+3;++x) if (on(x,y)&&got[y][x]&&hypot(x-fx,y-fy)<2.3) f=true; if (!f) mc_fail("nothing near %g,%g",fx,fy); } if (!r&&on(cx[k],cy[k])&&(n!=1||!got[cy[k]][cx[k]])) mc_fail("radius 0 draws %d pixels",n);
	mc_validated(n+256); mc_state(mc_hash(got,sizeof got)); mc_nontrivial(mc_mix(k,ri*2+e)); if (e){ static u8 g1[192][256]; memcpy(g1,got,sizeof got); must("GCLS 0:GDRAWMD 1:GCIRCLE %d,%d,%d,200",cx[k],cy[k],r); xmode=1; changed(); for (int y=0;y<192;++y) for (int x=0;x<256;++x) if (got[y][x]!=g1[y][x]) mc_fail("with GDRAWMD 1 pixel %d,%d is %s",x,y,got[y][x]?"drawn":"not drawn"); must("GCIRCLE %d,%d,%d",cx[k],cy[k],r); if (changed()) mc_fail("drawing it again does not restore the page"); } }
// paint
static void r_paint(int x, int y, int c, int b){ // b<0: region of the start's colour
	if (!on(x,y)) return; static u8 seen[192][256]; static int q[SZ]; memset(seen,0,sizeof seen); u8* d=dp(); int m=d[gi(x,y)], n=0; if (b>=0&&m==b) return; q[n++]=y*256+x; seen[y][x]=1; while (n){ int v=q[--n], vx=v&255, vy=v>>8; d[gi(vx,vy)]=c; static const int ax[]={1,-1,0,0}, ay[]={0,0,1,-1}; for (int i=0;i<4;++i){ int nx=vx+ax[i], ny=vy+ay[i]; if (on(nx,ny)&&!seen[ny][nx]&&(b>=0?d[gi(nx,ny)]!=b:d[gi(nx,ny)]==m)){ seen[ny][nx]=1; q[n++]=ny*256+nx; } } } }
static void s_paint(void){ // every pattern of walls
	int w=4, h=mc_thorough?4:3, m=mc_range(1<<(w*h)), k=mc_choose(2), f=mc_choose(4), s=mc_choose(w*h); int ox=k?252:0, oy=k?192-h:0; if (!mc_thorough&&(s+m)%2) mc_skip(); start(0);
	for (int y=-1;y<=h;++y) for (int x=-1;x<=w;++x) if (on(ox+x,oy+y)){ bool in=x>=0&&y>=0&&x<w&&y<h; int v=in?(m>>(y*w+x)&1?9:f==2?(x+y)&3:0):9; ref[0][gi(ox+x,oy+y)]=P->res.grp[0][gi(ox+x,oy+y)]=v; }
	int x=ox+s%w, y=oy+s/w; int c=f==3?0:f==1?9:5; mc_desc("walls %04x at %d,%d form %d start %d,%d",m,ox,oy,f,x,y); if (f==0||f==3){ must("GPAINT %d,%d,%d",x,y,c); r_paint(x,y,c,-1); } else { must("GPAINT %d,%d,%d,9",x,y,c); r_paint(x,y,c,9); } check(); mc_nontrivial(mc_mix(m,mc_mix(k*4+f,s))); if (mc_state(state())) mc_outcome(state()); }
static void s_paintpage(void){ // whole page shapes
	int sh=mc_choose(8), st=mc_choose(mc_thorough?14:10), f=mc_choose(4); static const int sx[]={0,255,128,-1,256,30,255,0,255,128,0,128,254,1}, sy[]={0,191,96,5,5,40,0,191,96,0,96,191,1,190}; start(0); u8* d=ref[0]; for (int y=0;y<192;++y) for (int x=0;x<256;++x){ int v=0; switch (sh){ case 1: v=hypot(x-128,y-96)<30; break; case 2: v=x%16==8&&y%16==8; break; case 3: v=x==100||y==50; break; case 4: v=y%4==1&&x!=(y%8==1?0:255); break; case 5: v=(x^y)&1; break; case 6: v=x%4==1&&y!=(x%8==1?0:191); break; case 7: v=abs(x-128)%20==5&&abs(y-96)<60; } d[gi(x,y)]=v?9:0; } memcpy(P->res.grp[0],d,SZ);
	int c=f==3?0:f==1?9:5; mc_desc("page %d form %d start %d,%d",sh,f,sx[st],sy[st]); int e=f==0||f==3?bas("GPAINT %d,%d,%d",sx[st],sy[st],c):bas("GPAINT %d,%d,%d,9",sx[st],sy[st],c); static u8 before[SZ]; memcpy(before,ref[0],SZ); r_paint(sx[st],sy[st],c,f==0||f==3?-1:9); if (e==ERR_PAINT_STACK_OVERFLOW&&sh){ for (int i=0;i<SZ;++i){ int v=P->res.grp[0][i]; if (v!=before[i]&&v!=ref[0][i]) mc_fail("painted outside the region"); } } else { if (e) mc_fail("%s",errname(e)); check(); } mc_nontrivial(mc_mix(sh*16+st,f)); mc_state(state()); }
// copy
static void r_copy(int pg, int x1, int y1, int x2, int y2, int x3, int y3, int m){ static u8 c[SZ]; memcpy(c,ref[pg],SZ); if (x1>x2){int q=x1;x1=x2;x2=q;} if (y1>y2){int q=y1;y1=y2;y2=q;} for (int dy=0;dy<192;++dy) for (int dx=0;dx<256;++dx){ int x=dx-x3+x1, y=dy-y3+y1; if (x<x1||x>x2||y<y1||y>y2) continue; int v=on(x,y)?c[gi(x,y)]:0; if (v||m) dp()[gi(dx,dy)]=v; } }
static void holes(int g){ for (int y=0;y<192;++y) for (int x=0;x<256;++x) if ((x*3+y*5)%7<3) ref[g][gi(x,y)]=P->res.grp[g][gi(x,y)]=0; }
static void s_copy(void){ static const int xv[]={0,255,-1,3,256,-100,524287,-524287}, yv[]={0,191,-1,2,192,-90,524287,-524287}; int n=mc_thorough?8:4; int a=mc_choose(n),b=mc_choose(n),c=mc_choose(n),d=mc_choose(n),e=mc_choose(n),f=mc_choose(n), m=mc_choose(2); int pf=(a+c+d+f)%3; start(1); holes(0); holes(2); env(0); mc_desc("GCOPY %s%d,%d,%d,%d,%d,%d,%d",pf==1?"2,":pf?"0,":"",xv[a],yv[b],xv[c],yv[d],xv[e],yv[f],m); must("GCOPY %s%d,%d,%d,%d,%d,%d,%d",pf==1?"2,":pf?"0,":"",xv[a],yv[b],xv[c],yv[d],xv[e],yv[f],m); r_copy(pf==1?2:0,xv[a],yv[b],xv[c],yv[d],xv[e],yv[f],m);
	bool off=xv[a]<0||xv[c]<0||yv[b]<0||yv[d]<0||xv[a]>255||xv[c]>255||yv[b]>191||yv[d]>191; if (off&&m){ // pixels copied from off the page may be cleared or stay
		for (int i=0;i<SZ;++i) if (!ref[0][i]) ref[0][i]=P->res.grp[0][i]; } check(); mc_nontrivial(mc_mix(mc_mix(a*8+b,c*8+d),mc_mix(e*8+f,m))); mc_state(state()); }
static void s_overlap(void){ int w=mc_choose(4)+1,h=mc_choose(4)+1,dx=mc_choose(9)-4,dy=mc_choose(9)-4,m=mc_choose(2),k=mc_choose(3),sw=mc_choose(2); static const int ox[]={100,1,250}, oy[]={64,187,2}; start(1); holes(0); int x=ox[k],y=oy[k]; mc_desc("GCOPY %d,%d,%d,%d,%d,%d,%d",sw?x+w-1:x,y,sw?x:x+w-1,y+h-1,x+dx,y+dy,m); must("GCOPY %d,%d,%d,%d,%d,%d,%d",sw?x+w-1:x,y,sw?x:x+w-1,y+h-1,x+dx,y+dy,m); r_copy(0,x,y,x+w-1,y+h-1,x+dx,y+dy,m); check(); mc_nontrivial(mc_mix(mc_mix(w*8+h,dx*16+dy),k*4+m*2+sw)); mc_state(state()); }
// characters
static const char* const rn[]={"BGF0U","BGF0L","BGD1U","BGU3L","SPU2","SPD3","SPS1U","SPS0L","SPU7","BGU","BGF0","SPS1"};
static void s_chr(void){
	int r=mc_choose(12), si=mc_choose(4), xi=mc_choose(6), yi=mc_choose(6), e=mc_choose(8), pg=mc_choose(2); if (!mc_thorough&&(e*3+r+si+xi+yi)%4) mc_skip(); static const int pxv[]={0,-3,250,100,-64,256}, pyv[]={0,-3,186,77,-60,192}; int sz=1<<si, x=pxv[xi], y=pyv[yi], chr=(r*37+xi)&255, pal=(r+yi)&15; start(1);
	static const char hx[]="0123456789ABCDEF"; char t[65]; u8 pix[8][8]; for (int j=0;j<8;++j) for (int i=0;i<8;++i){ int v=(i*3+j*5+i*j+r)&15; pix[j][i]=v; t[j*8+i]=hx[v]; } t[64]=0;
	must("BGPAGE %d:SPPAGE %d:CHRSET \"%s\",%d,\"%s\"",pg,!pg,rn[r],chr,t); must("FOR I=0 TO 255:FOR J=0 TO 2:COLSET MID$(\"BG SP GRP\",J*3,2+(J==2)),I,HEX$(J*70+I/4,2)+\"1234\":NEXT:NEXT"); env(e); char rd[200]; int L=strlen(rn[r])==5; bool low=L?rn[r][4]=='L':-1; int bg=rn[r][0]=='B'; int cb=bg?0:1, cs=L?low:bg?pg:!pg; u16* src=P->res.col[cs*3+cb]; u16* dst=P->res.col[scrn*3+2]; for (int i=0;i<6;++i) memcpy(col0[i],P->res.col[i],512); memcpy(col0[scrn*3+2]+16*pal,src+16*pal,32); (void)dst; (void)rd;
	mc_desc("GPUTCHR %d,%d,\"%s\",%d,%d,%d pages %d mode %d",x,y,rn[r],chr,pal,sz,pg,e); must("GPUTCHR %d,%d,\"%s\",%d,%d,%d",x,y,rn[r],chr,pal,sz); for (int j=0;j<8*sz;++j) for (int i=0;i<8*sz;++i) if (pix[j/sz][i/sz]) px(x+i,y+j,pal*16+pix[j/sz][i/sz]); check(); cols(); mc_nontrivial(mc_mix(mc_mix(r,si),mc_mix(xi*6+yi,e*2+pg))); mc_state(state()); }
static void s_badchr(void){ static const char* const t[]={"GPUTCHR 5,5,\"\",0,0,1","GPUTCHR 5,5,\"X\",0,0,1","GPUTCHR 5,5,\"COL0\",200,0,1","GPUTCHR 5,5,\"MEM\",255,0,1","GPUTCHR 5,5,\"GRP0\",0,0,1","GPUTCHR 5,5,\"SCU0\",0,0,1","GPUTCHR 5,5,\"PRG\",0,0,1","GPUTCHR 5,5,\"BGF9\",0,0,1","GPUTCHR 5,5,\"BGF0X\",0,0,1","GPUTCHR 5,5,\"BGF0UU\",0,0,1","GPUTCHR 5,5,\"BGF0U\",256,0,1","GPUTCHR 5,5,\"BGF0U\",-1,0,1","GPUTCHR 5,5,\"BGF0U\",0,16,1","GPUTCHR 5,5,\"BGF0U\",0,-1,1","GPUTCHR 5,5,\"BGF0U\",0,0,0","GPUTCHR 5,5,\"BGF0U\",0,0,3","GPUTCHR 5,5,\"BGF0U\",0,0,16","GPUTCHR 5,5,\"BGF0U\",0,0,-1","GPUTCHR 5,5,\"SPU9\",0,0,1","GPUTCHR 5,5,\"SP\",0,0,1","GPUTCHR 5,5,\"BG\",0,0,1","GPUTCHR 5,5,\"L\",0,0,1",
	"GPSET 5,5,256","GPSET 5,5,-1","GFILL 1,1,9,9,256","GFILL 1,1,9,9,-1","GBOX 1,1,9,9,256","GBOX 1,1,9,9,-1","GLINE 1,1,9,9,256","GLINE 1,1,9,9,-1","GCIRCLE 20,20,5,256","GCIRCLE 20,20,5,-1","GPAINT 5,5,256","GPAINT 5,5,-1","GPAINT 5,5,1,256","GPAINT 5,5,1,-1","GCLS 256","GCLS -1","GCOLOR 256","GCOLOR -1","GDRAWMD 2","GDRAWMD -1","GPRIO 4","GPRIO -1","GPAGE 2","GPAGE -1","GPAGE 1,4,2","GPAGE 1,-1,2","GPAGE 1,2,4","GPAGE 1,2,-1","GPAGE 2,1,1","GCOPY 4,0,0,9,9,3,3,1","GCOPY -1,0,0,9,9,3,3,1","A=GSPOIT(4,0,0)","A=GSPOIT(-1,0,0)"};
	int i=mc_choose(sizeof t/sizeof*t), e=mc_choose(8); start(1); env(e); must("A=5"); mc_desc("%s",t[i]); if (!bas("%s",t[i])) mc_fail("accepted"); check(); cols(); if (sys_num("A")!=5*4096) mc_fail("A changed"); mc_nontrivial(i*8+e); mc_state(i*8+e); }
static const char* const pal[]={"GPAGE 0","GPAGE 1","GPAGE 0,2,3","GPAGE 1,2,0","GCOLOR 7","GCOLOR 255","GCLS","GCLS 3","GDRAWMD 1","GDRAWMD 0","GPSET 5,6","GFILL 9,9,2,2","GBOX 0,0,255,191,90","GLINE 0,3,9,3","GCOPY 2,0,0,9,9,4,4,1","GCOPY 1,1,20,9,3,3,0","GPAINT 7,7,40","GPRIO 1","GPAINT 5,6,77,90"};
static void r_pal(int k){ switch (k){ case 0: case 1: scrn=k; break; case 2: scrn=0; draw[0]=2; disp[0]=3; break; case 3: scrn=1; draw[1]=2; disp[1]=0; break; case 4: color=7; break; case 5: color=255; break; case 6: memset(dp(),color,SZ); break; case 7: memset(dp(),3,SZ); break; case 8: xmode=1; break; case 9: xmode=0; break; case 10: px(5,6,color); break; case 11: r_fill(9,9,2,2,color); break; case 12: r_box(0,0,255,191,90); break; case 13: for (int x=0;x<10;++x) px(x,3,color); break; case 14: r_copy(2,0,0,9,9,4,4,1); break; case 15: r_copy(draw[scrn],1,1,20,9,3,3,0); break; case 16: r_paint(7,7,40,-1); break; case 17: prio[scrn]=1; break; case 18: r_paint(5,6,77,90); } }
static void s_seq(void){ int n=mc_thorough?4:3; start(1); uint64_t h=0; for (int i=0;i<n;++i){ int k=mc_choose(19); mc_desc("%s:",pal[k]); must("%s",pal[k]); r_pal(k); h=mc_mix(h,k); mc_trans(1); } check(); cols(); mc_state(state()); mc_nontrivial(h); mc_outcome(state()); }
static void boot(void){ sys_restore_big=true; sys_boot(); }
const mc_suite mc_suites[]={ {"pset",s_pset,MC_QT,sys_boot},{"rect",s_rect,MC_QT,sys_boot},{"smallrect",s_smallrect,MC_QT,sys_boot},{"line",s_line,MC_QT,sys_boot},{"longline",s_longline,MC_QT,sys_boot},{"edgeline",s_edgeline,MC_QT,sys_boot},{"circle",s_circle,MC_QT,sys_boot},{"paint",s_paint,MC_QT,sys_boot},{"paintpage",s_paintpage,MC_QT,sys_boot},{"copy",s_copy,MC_QT,sys_boot},{"overlap",s_overlap,MC_QT,sys_boot},{"chr",s_chr,MC_QT,boot},{"bad",s_badchr,MC_QT,sys_boot},{"seq",s_seq,MC_QT,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

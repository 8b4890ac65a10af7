// C27: what the window displays. The real renderer (graphics/pc) draws through a software CSFML (soft.h) and every
// pixel of both screens is compared with a composition computed from the statements executed.
#include "bas.h"
#include "subsystem/panel.h"
#include <unistd.h>
#include <sys/stat.h>
#include "soft.h"
const char* mc_rule = "every character, tile code, flip, palette, sprite image and graphics colour; every layer offset, sprite position, home, size, flip, scale and angle of boundary sets; every VISIBLE mask x graphics priority x panel type; every item of every character and colour resource changed in every way; every key, shift state and icon pressed; every CSFML call of a frame as the place where a statement of the program falls; counted by scene";
// ---- the contents of the resources
enum { BGF, BGD, BGU, SPU, SPS, BGFL, BGDL, BGUL, SPD, SPSL, NSET }; static const int sbank[]={0,4,8,12,20,22,26,30,34,42}, sn[]={512,1024,1024,2048,512,512,1024,1024,2048,512};
static u8 C0[NSET][2048][64], CH[NSET][2048][64]; static u16 L0[6][256], COL[6][256]; static bool chd;
static u8* real_chr(int s,int k){ return P->res.chr[sbank[s]+k/256]+32*(k%256); }
static void put_chr(int s,int k){ u8* d=real_chr(s,k); for (int i=0;i<32;++i) d[i]=C0[s][k][2*i]|C0[s][k][2*i+1]<<4; }
static u8 keyimg(int l,int k,int i){ uint64_t h=mc_mix(mc_mix(l*977+5,k),i); return h%3?h>>20&15:0; } // layout, character in 0..511, pixel
// ---- the scene
typedef struct { bool on; int chr,pal,h,v,prio,w,hh,x,y,hx,hy; } spr;
static struct { u8 ch[24][32],fg[24][32],bg[24][32],pc[24][32],pf[24][32],kc[24][32]; u16 bgt[2][2][64][64]; int ofs[2][2][2]; int vis,pnl,gprio[2],disp[2]; spr sp[2][100]; u8 grp[4][192][256]; int icon[4]; bool puse; int pressed; int cx,cy; } M, M0;
static soft_rgba want[SOFT_H][SOFT_W]; static u8 unsure[SOFT_H][SOFT_W];
static soft_rgba rgb(int bank,int i){ u16 c=COL[bank][i]; return (soft_rgba){(c&31)<<3,(c>>5&31)<<3|(c>>15)<<2,(c>>10&31)<<3,255}; }
static int scr; // screen painted
static inline void dot(int x,int y,int bank,int i){ if (x>=0&&x<256&&y>=0&&y<192) want[y+192*scr][x]=rgb(bank,i); }
static void p_chr(int x,int y,int set,int k,int bank,int pal,int h,int v){ for (int j=0;j<8;++j) for (int i=0;i<8;++i){ int c=CH[set][k][8*(v?7-j:j)+(h?7-i:i)]; if (c) dot(x+i,y+j,bank,16*pal+c); } }
static void p_sprite(const spr* s,int set,int bank){ for (int j=0;j<s->hh;++j) for (int i=0;i<s->w;++i){ int k=s->chr*4+i/8+j/8*(s->w/8); int c=CH[set][k%2048][8*(j%8)+i%8]; if (!c) continue; int x=s->h?s->hx-1-i+s->hx-s->hx:0; (void)x;
	int dx=s->h?s->w-1-i:i, dy=s->v?s->hh-1-j:j; dot(s->x-s->hx+dx,s->y-s->hy+dy,bank,16*s->pal+c); } }
static void p_layer(int l){ if (!(M.vis&(l?8:4))) return; int ox=M.ofs[scr][l][0],oy=M.ofs[scr][l][1]; for (int y=-8;y<192;++y) for (int x=0;x<256;++x){ if (y<0) continue; int u=(x+ox)&511,v=(y+oy)&511; u16 t=M.bgt[scr][l][v/8][u/8]; int i=u%8,j=v%8; if (t&0x400) i=7-i; if (t&0x800) j=7-j; int c=CH[scr?BGUL:BGU][t&1023][8*j+i]; if (c) dot(x,y,3*scr,16*(t>>12)+c); } }
static bool lower_free(void){ return M.pnl==0&&(M.vis&2); }
static void p_prio(int p){
	if ((M.vis&32)&&M.gprio[scr]==p&&(!scr||(M.pnl<2&&(M.vis&2)))) for (int y=0;y<192;++y) for (int x=0;x<256;++x) if (M.grp[M.disp[scr]][y][x]) dot(x,y,2+3*scr,M.grp[M.disp[scr]][y][x]);
	if ((M.vis&16)&&(!scr||lower_free())) for (int i=0;i<100;++i) if (M.sp[scr][i].on&&M.sp[scr][i].prio==p) p_sprite(&M.sp[scr][i],scr?SPSL:SPU,1+3*scr); }
// keys of the panel: position, size, first character, number
static const s16 KEYS[][6]={ {0,48,32,32,280,1},{24,48,16,32,384,2},{40,48,16,32,386,3},{56,48,16,32,388,4},{72,48,16,32,390,5},{88,48,16,32,392,6},{104,48,16,32,394,7},{120,48,16,32,396,8},{136,48,16,32,398,9},{152,48,16,32,400,10},{168,48,16,32,402,11},{184,48,16,32,404,12},{200,48,16,32,406,13},{216,48,16,32,408,14},{232,48,32,32,276,15},
 {0,72,16,32,410,16},{16,72,16,32,412,17},{32,72,16,32,414,18},{48,72,16,32,416,19},{64,72,16,32,418,20},{80,72,16,32,420,21},{96,72,16,32,422,22},{112,72,16,32,424,23},{128,72,16,32,426,24},{144,72,16,32,428,25},{160,72,16,32,430,26},{176,72,16,32,432,27},{192,72,16,32,434,28},{208,72,16,32,436,29},{224,72,16,32,438,30},{240,72,16,32,440,31},
 {0,96,32,32,284,32},{24,96,16,32,442,33},{40,96,16,32,444,34},{56,96,16,32,446,35},{72,96,16,32,448,36},{88,96,16,32,450,37},{104,96,16,32,452,38},{120,96,16,32,454,39},{136,96,16,32,456,40},{152,96,16,32,458,41},{168,96,16,32,460,42},{184,96,16,32,462,43},{200,96,16,32,464,44},{216,96,16,32,466,45},{232,96,16,32,468,46},
 {0,120,32,32,296,47},{32,120,16,32,470,48},{48,120,16,32,472,49},{64,120,16,32,474,50},{80,120,16,32,476,51},{96,120,16,32,478,52},{112,120,16,32,480,53},{128,120,16,32,482,54},{144,120,16,32,484,55},{160,120,16,32,486,56},{176,120,16,32,488,57},{192,120,16,32,490,58},{208,120,16,32,492,59},{224,120,32,32,300,60},
 {0,144,16,16,313,61},{24,144,16,16,508,62},{40,144,16,16,509,63},{56,144,16,16,510,64},{80,144,32,16,496,65},{112,144,16,16,495,65},{128,144,16,16,495,65},{144,144,16,16,495,65},{160,144,16,16,495,65},{176,144,16,16,494,65},{200,144,16,16,309,66},{216,144,16,16,310,67},{240,144,16,16,311,68},
 {0,-1,16,16,505,101},{16,-1,32,16,499,101},{48,-1,16,16,504,102},{64,-1,32,16,499,102},{96,-1,16,16,503,103},{112,-1,32,16,499,103},{144,-1,16,16,502,104},{160,-1,32,16,499,104},{192,-1,16,16,501,105},{208,-1,32,16,499,105},{240,0,16,16,315,106},
 {0,168,32,32,304,70},{40,168,32,32,256,71},{72,168,16,32,260,71},{88,168,16,32,262,72},{104,168,32,32,264,72} }; enum { NKEYS=sizeof KEYS/sizeof *KEYS };
static void p_key(int x,int y,int w,int h,int chr,int num){ spr s={true,chr,0,0,0,0,w,h,x,y,0,0}; if (M.pressed&&num==M.pressed){ ++s.x; ++s.y; } p_sprite(&s,SPD,4); }
static u16 scrt(int t,int i){ return t==1?0x1000+i:t?0x2000+i*1%1024+((i*7&3)<<10):0; }
static void compose(void){
	memset(unsure,0,sizeof unsure); for (int y=0;y<SOFT_H;++y) for (int x=0;x<SOFT_W;++x) want[y][x]=(soft_rgba){0,0,0,255};
	scr=0; p_prio(3); p_layer(1); p_prio(2); p_layer(0); p_prio(1);
	for (int y=0;y<24;++y) for (int x=0;x<32;++x){ p_chr(8*x,8*y,BGD,M.bg[y][x]?15:0,0,M.bg[y][x],0,0); if (M.vis&1) p_chr(8*x,8*y,BGF,M.ch[y][x],0,M.fg[y][x],0,0); }
	p_prio(0); if (M.cx>=0) p_chr(8*M.cx,8*M.cy,SPS,432,1,0,0,0);
	scr=1; p_prio(3); p_layer(1); p_prio(2); p_layer(0); p_prio(1);
	if (M.pnl&&(M.vis&2)) for (int i=0;i<768;++i){ u16 t=scrt(M.pnl,i); p_chr(i%32*8,i/32*8,BGDL,t&1023,3,t>>12,t>>10&1,t>>11&1); }
	if (M.pnl>1&&(M.vis&2)) for (int i=0;i<NKEYS;++i) p_key(KEYS[i][0],KEYS[i][1],KEYS[i][2],KEYS[i][3],KEYS[i][4],KEYS[i][5]);
	for (int y=0;y<24;++y) for (int x=0;x<32;++x) p_chr(8*x,8*y,BGFL,M.pnl<2?M.pc[y][x]:M.kc[y][x],3,M.pnl<2?M.pf[y][x]:0,0,0);
	p_prio(0); if (M.puse){ p_key(144,168,16,16,316,80); p_key(144,180,16,16,317,81); } for (int i=0;i<4;++i) if (M.icon[i]>=0) p_key(160+24*i,168,32,32,M.icon[i]*4,90+i); }
static const int sizes[][2]={{16,16},{8,8},{32,32},{8,16},{16,8},{8,32},{32,8},{16,32},{32,16},{32,64},{64,32},{64,64}};
static int turned_chr(int z){ int c=70; for (int i=0;i<z;++i) c+=(sizes[i][0]*sizes[i][1]/64+3)/4; return c; } // images of blocks of 4x4 pixels in 15 colours
static int alive0[8];
static void frame_(void){ int f=soft_frames; display_draw_all(P); mc_trans(1); if (soft_frames!=f+1) mc_fail("a frame is shown %d times",soft_frames-f); for (int k=1;k<8;++k) if (soft_alive[k]!=alive0[k]) mc_fail("a frame leaves %d objects of kind %d behind",soft_alive[k]-alive0[k],k); }
static void compare(void){ mc_validated(1); for (int y=0;y<SOFT_H;++y) for (int x=0;x<SOFT_W;++x){ soft_rgba a=soft_px[y*SOFT_W+x],b=want[y][x]; if (!unsure[y][x]&&(a.r>>3!=b.r>>3||a.g>>2!=b.g>>2||a.b>>3!=b.b>>3)) mc_fail("the %s screen shows %02x%02x%02x at %d,%d, expected %02x%02x%02x",y>=192?"lower":"upper",a.r,a.g,a.b,x,y%192,b.r,b.g,b.b); } }
static void show(void){ frame_(); compose(); compare(); uint64_t h=mc_hash(soft_px,sizeof soft_px); mc_state(h); mc_outcome(h); mc_nontrivial(h); }
static void again(void){ frame_(); frame_(); compare(); } // further frames show the same as long as nothing changes
#define DO(...) do { char q_[600]; snprintf(q_,sizeof q_,__VA_ARGS__); mc_desc("%s:",q_); must("%s",q_); } while(0)
static void say(int x,int y,const char* t,int c){ for (int i=0;t[i];++i){ M.kc[y][x+i]=t[i]; } (void)c; }
static void boot_(bool full){
	char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("resources",0700); mkdir("programs",0700);
	for (int t=1;t<=2;++t){ FILE* f=fopen(t==1?"resources/pnlPANEL.NSCR":"resources/pnlKEY.NSCR","wb"); for (int i=0;i<36;++i) fputc(0,f); for (int i=0;i<768;++i){ u16 v=scrt(t,i); fwrite(&v,2,1,f); } fclose(f); }
	sys_restore_big=true; sys_boot(); P->res.search_path="programs/";
	for (int s=0;s<NSET;++s) for (int k=0;k<sn[s];++k){ for (int i=0;i<64;++i){ uint64_t h=mc_mix(mc_mix(s*131+7,k),i); C0[s][k][i]=h%2?h>>20&15:0; } if ((s==BGD||s==BGDL)&&(k==0||k==15)) memset(C0[s][k],k,64); if ((s==BGF||s==BGFL||s==BGU||s==BGUL)&&!k) memset(C0[s][k],0,64); }
	for (int l=0;l<6;++l) for (int j=0;j<2;++j) for (int k=0;k<256;++k) for (int i=0;i<32;++i) P->res.key_chr[2*l+j][32*k+i]=keyimg(l,256*j+k,2*i)|keyimg(l,256*j+k,2*i+1)<<4;
	for (int k=0;k<512;++k) for (int i=0;i<64;++i) C0[SPD][1536+k][i]=keyimg(0,k,i);
	for (int z=0;z<12;++z) for (int y=0;y<sizes[z][1];++y) for (int x=0;x<sizes[z][0];++x) C0[SPU][turned_chr(z)*4+x/8+y/8*(sizes[z][0]/8)][8*(y%8)+x%8]=C0[SPSL][turned_chr(z)*4+x/8+y/8*(sizes[z][0]/8)][8*(y%8)+x%8]=1+(x/4+y/4*4)%15;
	for (int s=0;s<NSET;++s) for (int k=0;k<sn[s];++k) put_chr(s,k); memcpy(CH,C0,sizeof CH);
	for (int b=0;b<6;++b) for (int i=0;i<256;++i) P->res.col[b][i]=COL[b][i]=L0[b][i]=(b*256+i)*37%65535+1;
	init_display(P); P->display.rw=(sfRenderWindow*)&soft_win; display_draw_all(P); memcpy(alive0,soft_alive,sizeof alive0); soft_keep();
	memset(&M0,0,sizeof M0); M0.vis=63; M0.pnl=2; M0.gprio[0]=M0.gprio[1]=3; M0.cx=-1; for (int i=0;i<4;++i) M0.icon[i]=-1; M0.disp[1]=P->graphics.info[1].displaypage; M0.disp[0]=P->graphics.info[0].displaypage;
	{ static const char* const d[]={"FILES","LOAD\"","SAVE\"","CONT","RUN"}; M=M0; for (int i=0;i<5;++i) for (int j=0;j<5;++j) M0.kc[0][1+6*i+j]=j>=(int)strlen(d[i])?' ':j==4&&d[i][4]?'.':d[i][j]; }
	if (full){ M=M0; for (int s=0;s<2;++s){ must("BGPAGE %d",s); for (int l=0;l<2;++l) for (int y=0;y<64;++y){ must("FOR X=0 TO 63:C=(X*%d+%d)%%1024:BGPUT %d,X,%d,C,(X+%d)%%16,X%%2,%d:NEXT",7+l*4,y*65+s*300+l*17,l,y,y,y&1); for (int x=0;x<64;++x) M0.bgt[s][l][y][x]=(x*(7+l*4)+y*65+s*300+l*17)%1024|((x+y)%16)<<12|(x&1)<<10|(y&1)<<11; } }
		for (int s=0;s<2;++s){ int p=1+s; must("GPAGE %d,%d,%d",s,p,p); M0.disp[s]=p; for (int i=0;i<48;++i){ int x=i%8*31,y=i/8*31,c=(i*5+s*90)%256; must("GFILL %d,%d,%d,%d,%d",x,y,x+20,y+25,c); for (int v=y;v<=y+25&&v<192;++v) for (int u=x;u<=x+20&&u<256;++u) M0.grp[p][v][u]=c; } }
		for (int s=0;s<2;++s){ must("SPPAGE %d",s); for (int i=0;i<16;++i){ spr q={true,(i*5+s*3)%100,i,i&1,i>>1&1,i&3,16,16,i%4*50+9*(i&3)+7,i/4*43+9*(i&3)+11,0,0}; must("SPSET %d,%d,%d,%d,%d,%d,16,16:SPOFS %d,%d,%d",i,q.chr,q.pal,q.h,q.v,q.prio,i,q.x,q.y); M0.sp[s][i]=q; } }
		for (int y=0;y<23;++y){ must("COLOR %d,%d:LOCATE %d,%d:PRINT \"ABCDEFGHIJKLMNOP\";",y%16,y%5*3,y%9,y); for (int i=0;i<16;++i){ M0.ch[y][y%9+i]='A'+i; M0.fg[y][y%9+i]=y%16; M0.bg[y][y%9+i]=y%5*3; } must("PNLSTR %d,%d,\"lower\",%d",y%7,y,y%16); for (int i=0;i<5;++i){ M0.pc[y][y%7+i]="lower"[i]; M0.pf[y][y%7+i]=y%16; } }
		must("COLOR 0,0:BGPAGE 0:SPPAGE 0:GPAGE 0"); }
	sys_snapshot(); }
static void boot_empty(void){ boot_(false); } static void boot_full(void){ boot_(true); }
static void start(void){ sys_reset(); soft_restore(); M=M0; memcpy(COL,L0,sizeof COL); if (chd){ memcpy(CH,C0,sizeof CH); chd=false; } mode=0; P->console.test_mode=true; }
static void cls(void){ DO("CLS"); memset(M.ch,0,sizeof M.ch); memset(M.bg,0,sizeof M.bg); memset(M.fg,0,sizeof M.fg); memset(M.pc,0,sizeof M.pc); memset(M.pf,0,sizeof M.pf); }
static void off(void){ DO("PNLTYPE \"OFF\""); M.pnl=0; }
// every character in every pair of colours
static void s_text(void){ int f=mc_choose(16),b=mc_choose(16),h=mc_choose(2); start(); int y0=h?14:1; DO("COLOR %d,%d:FOR I=0 TO 255:LOCATE I%%32,%d+FLOOR(I/32):PRINT CHR$(I);:NEXT",f,b,y0); for (int i=0;i<256;++i){ if (i==13) continue; M.ch[y0+i/32][i%32]=i; M.fg[y0+i/32][i%32]=f; M.bg[y0+i/32][i%32]=b; }
	{ char q[20]; sprintf(q,"LOCATE 13,%d",y0); must("%s",q); must("PRINT \" \";"); M.ch[y0][13]=' '; M.fg[y0][13]=f; M.bg[y0][13]=b; } if (mc_choose(2)){ DO("VISIBLE 0,1,1,1,1,1"); M.vis=62; } show(); }
static void s_lower(void){ int f=mc_choose(16),t=mc_choose(5),y=mc_range(24),x=mc_choose(4)*9; if (!mc_thorough&&(f+y+t+x)%3) mc_skip(); start(); static const char* const tn[]={"OFF","PNL","KYA","KYM","KYK"}; char s[33]; int n=0; for (int i=0;x+i<32;++i) s[n++]='!'+(i*7+y*3+f)%90; s[n]=0; for (int i=0;i<n;++i) if (s[i]=='"') s[i]='$'; DO("PNLSTR %d,%d,\"%s\",%d:PNLTYPE \"%s\"",x,y,s,f,tn[t]); for (int i=0;i<n;++i){ M.pc[y][x+i]=s[i]; M.pf[y][x+i]=f; } M.pnl=t; if (t>2){ chd=true; for (int k=0;k<512;++k) for (int i=0;i<64;++i) CH[SPD][1536+k][i]=keyimg(2*(t-2),k,i); } show(); }
// every tile, flip and palette on every layer
static void s_tiles(void){ int s=mc_choose(2),l=mc_choose(2),q=mc_choose(2),f=mc_choose(4),p=mc_choose(16); start(); off(); DO("BGPAGE %d:FOR I=0 TO 511:BGPUT %d,I%%32,FLOOR(I/32),I+%d,%d,%d,%d:NEXT",s,l,512*q,p,f&1,f>>1); for (int i=0;i<512;++i) M.bgt[s][l][i/32][i%32]=(i+512*q)|p<<12|f<<10; show(); }
static const int offs[]={0,1,7,8,9,248,255,256,257,264,503,504,505,511,512,513,1024,1031,-1,-7,-8,-9,-255,-256,-511,-512,-513,-1000,524287,-524287,100}; enum { NO=sizeof offs/sizeof *offs };
static void s_offset(void){ int i=mc_choose(NO),j=mc_choose(NO),s=mc_choose(2),l=mc_choose(2); if (!mc_thorough&&i%4&&j%4&&i!=j) mc_skip(); start(); if (s) off(); DO("BGPAGE %d:BGOFS %d,%d,%d",s,l,offs[i],offs[j]); M.ofs[s][l][0]=offs[i]; M.ofs[s][l][1]=offs[j]; show(); }
// a running scroll or movement: each frame shows the whole pixel reached
static void s_moving(void){ int k=mc_choose(3),d=mc_choose(6),t=mc_choose(4)+1,n=mc_choose(6); static const int ds[][2]={{8,0},{-8,3},{5,-7},{-1,-1},{100,-100},{0,64}}; int x=ds[d][0],y=ds[d][1]; if (n>t+1) mc_skip(); start(); if (k==2) off(); if (k<2) DO("BGOFS %d,%d,%d,%d",k,x,y,t); else DO("SPPAGE 1:SPSET 20,4,3,0,0,0,16,16:SPOFS 20,100,80:SPOFS 20,%d,%d,%d",100+x,80+y,t);
	for (int i=0;i<n;++i){ step_background(&P->background); step_sprites(&P->sprites); } mc_desc("frame %d",n); int m=n<t?n:t; (void)m; // (the fraction reached is C15's and C17's; a frame shows the whole pixel)
	if (k<2){ M.ofs[0][k][0]=P->background.ofs[0][k].x>>12; M.ofs[0][k][1]=P->background.ofs[0][k].y>>12; } else { struct sprite_info* q=&P->sprites.info[1][20]; M.sp[1][20]=(spr){true,4,3,0,0,0,16,16,q->pos.x>>12,q->pos.y>>12,0,0}; } show(); }
static void set_spr(int s,int i,int c,int p,int h,int v,int pr,int w,int hh,int x,int y,int hx,int hy){ DO("SPPAGE %d:SPSET %d,%d,%d,%d,%d,%d,%d,%d:SPOFS %d,%d,%d:SPHOME %d,%d,%d",s,i,c,p,h,v,pr,w,hh,i,x,y,i,hx,hy); M.sp[s][i]=(spr){true,c,p,h,v,pr,w,hh,x,y,hx,hy}; }
static void s_sprite(void){ static const int px[]={-64,-63,-17,-8,-1,0,100,239,255,256,-3000,2000}, py[]={-64,-33,-1,0,77,160,191,192,4000}; int s=mc_choose(2),z=mc_choose(12),f=mc_choose(4),i=mc_choose(12),j=mc_choose(9); if (!mc_thorough&&z>1&&(i*9+j+f)%4) mc_skip(); start(); if (s) off(); set_spr(s,(i*31+j)%100,(s?z:7*z),z,f&1,f>>1,i%4,sizes[z][0],sizes[z][1],px[i],py[j],0,0); show(); }
static void s_home(void){ static const int hq[]={0,1,8,-5,63,127,-128}; int s=mc_choose(2),z=mc_choose(12),f=mc_choose(4),i=mc_choose(7),j=mc_choose(7); start(); if (s) off(); set_spr(s,3,9,5,f&1,f>>1,2,sizes[z][0],sizes[z][1],120,90,hq[i],hq[j]); if (f&1){ /* a flipped sprite keeps its place */ } show(); }
static void s_image(void){ int s=mc_choose(2),c=mc_range(s?118:512),p=mc_choose(mc_thorough?16:4),z=mc_choose(2); start(); if (s) off(); DO("SPPAGE %d:SPSET 50,%d,%d,0,0,1,%d,%d:SPOFS 50,60,40",s,c,p*(mc_thorough?1:5),z?8:16,z?8:16); M.sp[s][50]=(spr){true,c,p*(mc_thorough?1:5),0,0,1,z?8:16,z?8:16,60,40,0,0}; show();
	if (c<(s?110:400)){ DO("SPANIM 50,3,2"); for (int k=0;k<5;++k){ step_sprites(&P->sprites); } (void)0; DO("SPREAD(50),X,Y,A,S,C"); } }
// an animation shows the image it has reached
static void s_anim(void){ int z=mc_choose(3),k=mc_choose(4)+1,t=mc_choose(3)+1,n=mc_choose(12); static const int zz[]={0,1,2}; int w=sizes[zz[z]][0],per=w/16*w/16; if (!per) per=1; start(); DO("SPSET 50,40,2,0,0,1,%d,%d:SPOFS 50,60,40:SPANIM 50,%d,%d",w,w,k,t); for (int i=0;i<n;++i) step_sprites(&P->sprites); mc_desc("frame %d",n); struct sprite_info* q=&P->sprites.info[0][50]; int c=q->anim.current_chr>=0?q->anim.current_chr:q->chr; M.sp[0][50]=(spr){true,c,2,0,0,1,w,w,60,40,0,0}; show(); }
// scaled and turned sprites: every pixel shows a colour of the image within a pixel and a half of the exact place
static void s_turned(void){ static const int sc[]={100,0,1,25,50,99,150,199,200}, an[]={0,1,30,45,90,135,180,225,270,300,359,-90,-45,450}; int s=mc_choose(2),z=mc_choose(12),f=mc_choose(4),i=mc_choose(9),j=mc_choose(14),h=mc_choose(3); if (!mc_thorough&&(z*7+f*5+i*3+j*11+h)%6) mc_skip(); start(); if (s) off(); cls(); DO("VISIBLE 0,1,0,0,1,0"); int w=sizes[z][0],hh=sizes[z][1],hx=h==1?w/2:h?w-1:0,hy=h==1?hh/2:h?0:0; 
	DO("SPPAGE 0:SPCLR:SPPAGE 1:SPCLR:SPPAGE %d:SPSET 3,%d,5,%d,%d,2,%d,%d:SPOFS 3,120,90:SPHOME 3,%d,%d:SPSCALE 3,%d:SPANGLE 3,%d",s,turned_chr(z),f&1,f>>1,w,hh,hx,hy,sc[i],an[j]);
	frame_(); memset(M.sp,0,sizeof M.sp); M.vis=2|16; compose(); memset(unsure,0,sizeof unsure); double a=an[j]*M_PI/180,k=sc[i]/100.0; int set=s?SPSL:SPU,ok=0; double tol=2;
	for (int y=0;y<192;++y) for (int x=0;x<256;++x){ soft_rgba g=soft_px[(y+192*s)*256+x]; bool hit=false,near=false; double dx=x+.5-120,dy=y+.5-90;
		double rx=dx*cos(a)+dy*sin(a),ry=-dx*sin(a)+dy*cos(a); soft_rgba e=want[y+192*s][x];
		if (k==0) hit=e.r==g.r&&e.g==g.g&&e.b==g.b; else { double tx=rx/k+hx,ty=ry/k+hy,R=tol/k; 
			for (int J=floor(ty-R);J<=ty+R&&!hit;++J) for (int I=floor(tx-R);I<=tx+R&&!hit;++I){ int c=0; if (I>=0&&I<w&&J>=0&&J<hh){ near=true; int u=f&1?w-1-I:I,v=f&2?hh-1-J:J; c=CH[set][(turned_chr(z)*4+u/8+v/8*(w/8))%2048][8*(v%8)+u%8]; } soft_rgba q=c?rgb(1+3*s,16*5+c):e; hit=q.r==g.r&&q.g==g.g&&q.b==g.b; } }
		if (!hit) mc_fail("the sprite shows %02x%02x%02x at %d,%d, which is no colour of its image near there",g.r,g.g,g.b,x,y); ok+=near; }
	mc_validated(1); uint64_t v=mc_hash(soft_px,sizeof soft_px); mc_state(v); mc_outcome(v); mc_nontrivial(v); }
static void s_pixels(void){ static const int xs[]={0,1,7,8,63,64,100,127,128,254,255},ys[]={0,1,7,8,63,64,95,96,127,128,190,191}; int s=mc_choose(2),d=mc_choose(4),v=mc_choose(4),x=mc_choose(11),y=mc_choose(12); start(); if (s) off(); int c=1+(x*12+y)%255; DO("GPAGE %d,%d,%d:GPSET %d,%d,%d",s,d,v,xs[x],ys[y],c); M.disp[s]=v; M.grp[d][ys[y]][xs[x]]=c; show(); }
static void s_colours(void){ int s=mc_choose(2),c=mc_range(256),p=mc_choose(4); start(); if (s) off(); DO("GPAGE %d:GPRIO %d:GCLS %d",s,p,c); M.gprio[s]=p; memset(M.grp[M.disp[s]],c,sizeof M.grp[0]); show(); }
// order of the layers: every mask, priority of graphics and panel
static void s_order(void){ int v=mc_choose(64),g=mc_choose(4),h=mc_choose(4),t=mc_choose(5); if (!(v&2)) { if (t==0) mc_skip(); } if (!mc_thorough&&t>2&&v!=63) mc_skip(); start(); static const char* const tn[]={"OFF","PNL","KYA","KYM","KYK"}; DO("VISIBLE %d,%d,%d,%d,%d,%d:GPAGE 0:GPRIO %d:GPAGE 1:GPRIO %d:PNLTYPE \"%s\"",v&1,v>>1&1,v>>2&1,v>>3&1,v>>4&1,v>>5&1,g,h,tn[t]); M.vis=v; M.gprio[0]=g; M.gprio[1]=h; M.pnl=t; if (t>2){ chd=true; for (int k=0;k<512;++k) for (int i=0;i<64;++i) CH[SPD][1536+k][i]=keyimg(2*(t-2),k,i); } if (t==1&&!(v&2)) mc_skip(); show(); }
// layers switched one by one: omitted ones keep their state, a wrong one changes nothing
static void s_visible(void){
	int i=mc_choose(6), old=mc_choose(2)?63:21, a=mc_choose(6), rest=mc_choose(3); start(); char t[60]; int n=sprintf(t,"VISIBLE "), w=0;
	DO("VISIBLE %d,%d,%d,%d,%d,%d",old&1,old>>1&1,old>>2&1,old>>3&1,old>>4&1,old>>5&1); frame_(); static const char* const v[]={"","0","1","2","-1","\"1\""};
	for (int k=0;k<6;++k){ int x=k==i?a:rest==2?2:rest?2-(old>>k&1):k==5?(old>>5&1)+1:0; n+=sprintf(t+n,"%s%s",k?",":"",v[x]); w|=(x==1?0:x==2?1:old>>k&1)<<k; } if (i==5&&!a&&!rest) mc_skip();
	mc_desc("%s:",t); int e=bas("%s",t); if (a>2){ w=old; if (!e) mc_fail("%s is accepted",t); } else if (e) mc_fail("%s: %s",t,errname(e)); M.vis=w; P->exec.error=0; show();
}
// sprites of every number and priority
static void s_numbers(void){ int s=mc_choose(2),i=mc_range(100),p=mc_choose(4); start(); if (s) off(); set_spr(s,i,30+i%10,i%16,i&1,i>>1&1,p,16,16,8+i%10*12,6+i/10*9,0,0); DO("VISIBLE 1,1,1,1,1,1"); for (int j=0;j<16;++j) if (j!=i){ M.sp[s][j].on=false; } DO("SPPAGE %d",s); for (int j=0;j<16;++j) if (j!=i) must("SPCLR %d",j); show(); }
// ---- changes of characters and colours
static struct { const char* n; int set, k; } names[80]; static int nnames; static char nbuf[80][8];
static void mk_names(void){ if (nnames) return; static const struct { const char* b; int n,set; } q[]={{"BGF",1,BGF},{"BGD",2,BGD},{"BGU",4,BGU},{"SPS",2,SPS}}; for (int l=0;l<2;++l) for (int i=0;i<4;++i) for (int k=0;k<q[i].n;++k){ sprintf(nbuf[nnames],"%s%d%c",q[i].b,k,l?'L':'U'); names[nnames].n=nbuf[nnames]; names[nnames].set=q[i].set+5*l; names[nnames++].k=k*256; } for (int k=0;k<8;++k){ sprintf(nbuf[nnames],"SPU%d",k); names[nnames].n=nbuf[nnames]; names[nnames].set=SPU; names[nnames++].k=k*256; } for (int k=0;k<4;++k){ sprintf(nbuf[nnames],"SPD%d",k); names[nnames].n=nbuf[nnames]; names[nnames].set=SPD; names[nnames++].k=k*256; } }
static void expose(int set,int k){ // a scene that shows this character
	switch (set%5){ case 0: if (set==BGF){ cls(); DO("PRINT CHR$(%d);",k%256); M.ch[0][0]=k; M.fg[0][0]=0; } else { DO("PNLTYPE \"PNL\":PNLSTR 3,3,CHR$(%d)",k%256); M.pnl=1; M.pc[3][3]=k; M.pf[3][3]=0; } break;
	case 1: if (set==BGDL){ /* panel picture */ DO("PNLTYPE \"PNL\""); M.pnl=1; } break;
	case 2: off(); DO("BGPAGE %d:BGPUT 0,4,4,%d,3,0,0",set==BGUL,k); M.bgt[set==BGUL][0][4][4]=k|3<<12; break;
	case 3: if (set==SPU){ DO("SPPAGE 0:SPSET 70,%d,4,0,0,0,16,8:SPOFS 70,48,48",k/4); M.sp[0][70]=(spr){true,k/4,4,0,0,0,16,8,48,48,0,0}; } else if (k%4==0){ DO("ICONSET 1,%d",clampi(k/16,0,63)); M.icon[1]=clampi(k/16,0,63); } break;
	case 4: if (set==SPSL){ off(); int big=k/4>117,c=big?112:k/4; DO("SPPAGE 1:SPSET 70,%d,4,0,0,0,%d,%d:SPOFS 70,48,48",c,big?64:16,big?64:8); M.sp[1][70]=(spr){true,c,4,0,0,0,big?64:16,big?64:8,48,48,0,0}; } break; } }
static void hexchr(char* h,const u8* px){ for (int i=0;i<64;++i) h[i]="0123456789ABCDEF"[px[i]]; h[64]=0; }
static void s_chr(void){ mk_names(); int n=mc_range(nnames),i=mc_choose(mc_thorough?64:6),way=mc_choose(8),before=mc_choose(2); static const int q[]={0,1,15,16,100,255}; int id=mc_thorough?i*4+i%4:q[i]; int set=names[n].set,k=names[n].k+id; start(); expose(set,k); if (before){ frame_(); } u8 px[64]; for (int j=0;j<64;++j) px[j]=(j*5+id+n*3)%16; char h[65]; chd=true; 
	if (way==0){ hexchr(h,px); DO("CHRSET \"%s\",%d,\"%s\"",names[n].n,id,h); memcpy(CH[set][k],px,64); }
	else if (way==1||way==2){ hexchr(h,px); DO("CHRSET \"%s\",%d,\"%s\":SAVE \"%s:Q\":CHRSET \"%s\",%d,\"%s\"",names[n].n,id,h,names[n].n,names[n].n,id,"0000000000000000000000000000000000000000000000000000000000000000"); if (before) frame_(); if (way==1){ DO("LOAD \"%s:Q\",0",names[n].n); memcpy(CH[set][k],px,64); } else memset(CH[set][k],0,64); }
	else if (way==3){ hexchr(h,px); DO("CHRSET \"%s\",%d,\"%s\"",names[n].n,id,h); if (before) frame_(); int e=bas("CHRINIT \"%s\"",names[n].n); if (!e) mc_skip(); memcpy(CH[set][k],px,64); }
	else if (way==4){ if (names[n].n[4]==0&&strncmp(names[n].n,"SPU",3)&&strncmp(names[n].n,"SPD",3)) mc_skip(); int a=0xAB; DO("POKEB ADDR(\"%s\",%d),%d",names[n].n,id*32+5,a); CH[set][k][10]=a&15; CH[set][k][11]=a>>4; }
	else if (way==6){ int m=(n+13)%nnames; if (names[m].set==set) mc_skip(); DO("MEMCOPY ADDR(\"%s\",%d),ADDR(\"%s\",%d),32",names[n].n,id*32,names[m].n,96); memcpy(CH[set][k],CH[names[m].set][names[m].k+3],64); }
	else if (way==7){ if (!k&&set==BGF) mc_skip(); DO("MEMFILL ADDR(\"%s\",%d)-1/256,83,40",names[n].n,id*32); // starts in the character before
		u8* o=k?CH[set][k-1]:set%5==3?CH[set-1][1023]:set%5==4?CH[set-1][2047]:set%5==0?CH[set-1][511]:NULL; for (int j=0;j<32;++j) if (o){ o[32+j]=j&1?5:3; } for (int j=0;j<48;++j) CH[set][k][j]=j&1?5:3; }
	else { DO("N$=\"%s\":N=%d:POKEH ADDR(N$,N),4660:MEMFILL ADDR(N$,N+8),90,3:MEMCOPY ADDR(N$,N+16),ADDR(N$,N),4",names[n].n,id*32); static const int by[]={0x34,0x12}; for (int j=0;j<2;++j){ CH[set][k][2*j]=by[j]&15; CH[set][k][2*j+1]=by[j]>>4; } for (int j=8;j<11;++j) CH[set][k][2*j]=10,CH[set][k][2*j+1]=5; memcpy(CH[set][k]+32,CH[set][k],8); }
	show(); }
static u16 enc(int r,int g,int b){ r>>=3; g>>=2; b>>=3; return r|(g>>1)<<5|b<<10|(g&1)<<15; }
static void s_col(void){ int s=mc_choose(2),b=mc_choose(3),i=mc_range(256),way=mc_choose(4),before=mc_choose(2); if (!mc_thorough&&way>1&&i%16) mc_skip(); static const char* const bn[]={"BG","SP","GRP"}; start(); off(); DO("%s %d",b==0?"BGPAGE":b==1?"SPPAGE":"GPAGE",s); if (b==2){ DO("GPRIO 0"); M.gprio[s]=0; DO("GPSET 5,5,%d",i); M.grp[M.disp[s]][5][5]=i; } else if (b==1){ DO("SPSET 70,7,%d,0,0,0,64,64:SPOFS 70,100,80",i/16); M.sp[s][70]=(spr){true,7,i/16,0,0,0,64,64,100,80,0,0}; } if (before) frame_();
	int c=i*7777+s*99; if (way==0){ DO("COLSET \"%s\",%d,\"%06X\"",bn[b],i,c&0xffffff); COL[b+3*s][i]=enc(c>>16&255,c>>8&255,c&255); } else if (way==1){ DO("COLSET \"%s\",%d,\"%06X\":SAVE \"COL%d%c:Q\":COLSET \"%s\",%d,\"000000\"",bn[b],i,c&0xffffff,b,s?'L':'U',bn[b],i); if (before) frame_(); DO("LOAD \"COL%d%c:Q\",0",b,s?'L':'U'); COL[b+3*s][i]=enc(c>>16&255,c>>8&255,c&255); }
	else if (way==2){ DO("POKEH ADDR(\"COL%d%c\",%d),%d",b,s?'L':'U',2*i,c&0xffff); COL[b+3*s][i]=c; } else { if (b!=2) mc_skip(); DO("BGPAGE %d:COLSET \"BG\",%d,\"%06X\"",s,i,c&0xffffff); COL[3*s][i]=enc(c>>16&255,c>>8&255,c&255); if (before) frame_(); DO("GPUTCHR 40,50,\"BGF0%c\",65,%d,1",s?'L':'U',i/16); for (int j=0;j<16;++j) COL[2+3*s][i/16*16+j]=COL[3*s][i/16*16+j]; for (int j=0;j<64;++j){ int q=CH[s?BGFL:BGF][65][j]; if (q) M.grp[M.disp[s]][50+j/8][40+j%8]=i/16*16+q; } } show(); }
// ---- the panel
static void touch(bool t,int x,int y){ set_touch(&P->input,t,x,y); press_key(P,t,x,y); inc_time(&P->time); P->exec.error=0; }
static int key_at_(int x,int y){ 
	if (y<16) return x<240?101+x/48:106; if (y<48) return 0;
	if (y<72) return x<24?1:x>=232?15:2+(x-24)/16; if (y<96) return 16+x/16; if (y<120) return x<24?32:x<248?33+(x-24)/16:0; if (y<144) return x<32?47:x<224?48+(x-32)/16:60;
	if (y<160){ static const int p[][3]={{0,16,61},{24,40,62},{40,56,63},{56,72,64},{80,192,65},{200,216,66},{216,232,67},{240,256,68}}; for (int i=0;i<8;++i) if (x>=p[i][0]&&x<p[i][1]) return p[i][2]; return 0; }
	if (y<168) return 0; if (x<32) return 70; if (x<40) return 0; if (x<88) return 71; if (x<136) return 72; if (x<144) return 0; if (x<160) return M.puse?y<180?80:81:0; return 90+(x-160)/24; }
static void s_keys(void){ int t=mc_choose(5),x=mc_range(32)*8+3,y=mc_range(24)*8+3,u=mc_choose(2),r=mc_choose(3); if (!mc_thorough&&t!=2&&(x/8+y/8)%3) mc_skip(); if (u&&y<160) mc_skip(); if (r==2&&!mc_thorough&&(x/8)%2) mc_skip(); if (r==1&&!mc_thorough&&(x/8+y/8)%2) mc_skip(); start(); static const char* const tn[]={"OFF","PNL","KYA","KYM","KYK"}; DO("PNLTYPE \"%s\"",tn[t]); M.pnl=t; int l=2*(t-2),sh=0; if (u){ DO("ICONPMAX=3:ICONPUSE=1:ICONSET 0,3:ICONSET 1,9:ICONSET 2,1:ICONSET 3,30"); M.puse=true; M.icon[0]=3; M.icon[1]=9; M.icon[2]=1; M.icon[3]=30; }
	if (r==0&&(x/8*5+y/8)%4==0){ if (t>=2){ chd=true; for (int q=0;q<512;++q) for (int i=0;i<64;++i) CH[SPD][1536+q][i]=keyimg(l,q,i); } show(); } // drawn before: the new images must replace the ones shown
	mc_desc("touch %d,%d%s",x,y,r==1?" released":r==2?" held":""); touch(true,x,y); int k=key_at_(x,y); if (r==1) touch(false,0,0); if (r==2) touch(true,x,y); M.pressed=r==1?0:k; if (t>=2){ if (k==47||k==61) sh=1; if (k>=62&&k<=64) { M.pnl=2+k-62; l=2*(k-62); } l+=sh; } if (M.pnl>=2){ chd=true; for (int q=0;q<512;++q) for (int i=0;i<64;++i) CH[SPD][1536+q][i]=keyimg(l,q,i); } show(); if (r==2) again(); }
static void s_fkeys(void){ int k=mc_choose(5),n=mc_choose(8),t=mc_choose(5); start(); static const char* const tn[]={"OFF","PNL","KYA","KYM","KYK"}; char s[20]; for (int i=0;i<n;++i) s[i]='a'+i; s[n]=0; DO("KEY %d,\"%s\":PNLTYPE \"%s\"",k+1,s,tn[t]); for (int j=0;j<5;++j) M.kc[0][1+6*k+j]=j==4&&n>4?'.':j<n?s[j]:' '; M.pnl=t; if (t>2){ chd=true; for (int q=0;q<512;++q) for (int i=0;i<64;++i) CH[SPD][1536+q][i]=keyimg(2*(t-2),q,i); } show(); }
static void s_icons(void){ int i=mc_choose(4),c=mc_range(64),u=mc_choose(2),t=mc_choose(3); if (!mc_thorough&&t!=2&&c%8) mc_skip(); start(); static const char* const tn[]={"OFF","PNL","KYA"}; DO("ICONSET %d,%d:ICONPUSE=%d:PNLTYPE \"%s\"",i,c,u,tn[t]); M.icon[i]=c; M.puse=u; M.pnl=t; show(); again(); DO("ICONCLR %d",i); M.icon[i]=-1; show(); }
// ---- the cursor is shown while INPUT waits
static bool shown; static int waits; static void at_sleep(void){ inc_time(&P->time); if (++waits==3&&!shown){ shown=true; frame_(); compose(); compare(); } if (waits>5) P->exec.error=ERR_BREAK; }
static void cursor_gone(int y,int n){ (void)y; (void)n; M.cx=-1; }
static void s_cursor(void){ int x=mc_range(31),y=mc_range(23),k=mc_choose(3); start(); P->console.test_mode=false; sys_on_sleep=at_sleep; shown=false; waits=0; cls(); const char* typed=k==0?"":k==1?"A":"AB"; int n=strlen(typed); for (int i=0;i<n;++i) set_inkey(&P->input,to_wide(typed[i])); char q[80]; sprintf(q,"LOCATE %d,%d:LINPUT A$",x,y); mc_desc("%s with \"%s\" typed",q,typed); M.ch[y][x]='?'; for (int i=0;i<n;++i) M.ch[y+1][i]=typed[i];
	M.cx=n; M.cy=y+1; int e=bas("%s",q); sys_on_sleep=NULL; if (e!=ERR_BREAK||!shown) mc_fail("LINPUT ends with %s",errname(e)); mc_nontrivial(mc_mix(x*100+y,k)); mc_state(mc_hash(soft_px,sizeof soft_px)); M.cx=-1; memset(&M.ch[0][0],0,0); cursor_gone(y,n); }
// ---- a statement that falls into a frame is shown by the next one
static int at_call,calls; static const char* stmt; static bool in_stmt;
static void inject(const char* n){ if (in_stmt) return; if (calls++==at_call){ in_stmt=true; mc_desc(" during %s",n); soft_hook=NULL; int e=bas("%s",stmt); if (e) mc_fail("%s fails: %s",stmt,errname(e)); soft_hook=inject; in_stmt=false; } }
static void s_race(void){ mk_names(); int c=mc_range(80),w=mc_choose(5),n=mc_range(w==0?nnames:w==1?6:1); start(); static char st[300]; int set=0,k=0,b=0; u8 px[64]; char h[65]; for (int j=0;j<64;++j) px[j]=(j*5+n*3+1)%16; hexchr(h,px); off();
	if (w==0){ set=names[n].set; k=names[n].k+8; expose(set,k); sprintf(st,"CHRSET \"%s\",8,\"%s\"",names[n].n,h); DO("CHRSET \"%s\",9,\"%s\"",names[n].n,h); memcpy(CH[set][k+1],px,64); memcpy(CH[set][k],px,64); chd=true; }
	else if (w==1){ b=n; DO("%s %d",b%3==0?"BGPAGE":b%3==1?"SPPAGE":"GPAGE",b/3); static const char* const bn[]={"BG","SP","GRP"}; DO("COLSET \"%s\",2,\"FF00FF\"",bn[b%3]); COL[b][2]=enc(255,0,255); sprintf(st,"COLSET \"%s\",%d,\"123456\"",bn[b%3],b%3==2?90:33); COL[b][b%3==2?90:33]=enc(0x12,0x34,0x56); }
	else if (w==2){ sprintf(st,"GPAGE 0:GPSET 9,9,77"); M.grp[M.disp[0]][9][9]=77; }
	else if (w==3){ sprintf(st,"BGPAGE 0:BGPUT 0,3,3,5,2,1,0:SPPAGE 0:SPSET 60,3,2,0,0,0,16,16:SPOFS 60,20,20"); M.bgt[0][0][3][3]=5|2<<12|0x400; M.sp[0][60]=(spr){true,3,2,0,0,0,16,16,20,20,0,0}; }
	else { sprintf(st,"PNLTYPE \"KYK\""); M.pnl=4; chd=true; for (int q=0;q<512;++q) for (int i=0;i<64;++i) CH[SPD][1536+q][i]=keyimg(4,q,i); }
	stmt=st; at_call=c; calls=0; mc_desc("%s at call %d",st,c); soft_hook=inject; frame_(); soft_hook=NULL; if (calls<=c) mc_skip(); show(); }
static void s_end(void){ int n=mc_choose(4); start(); mc_desc("%d frames, then free_display",n); for (int i=0;i<n;++i) frame_(); free_display(&P->display); for (int k=1;k<8;++k) if (k!=SO_SPR&&soft_alive[k]) mc_fail("%d objects of kind %d are never destroyed",soft_alive[k],k); if (soft_alive[SO_SPR]) mc_fail("a sprite is never destroyed"); mc_state(n); mc_nontrivial(n); mc_validated(1); }
const mc_suite mc_suites[]={{"text",s_text,MC_QT,boot_full},{"lower",s_lower,MC_QT,boot_full},{"tiles",s_tiles,MC_QT,boot_empty},{"offset",s_offset,MC_QT,boot_full},{"moving",s_moving,MC_QT,boot_full},{"sprite",s_sprite,MC_QT,boot_full},{"home",s_home,MC_QT,boot_empty},{"image",s_image,MC_QT,boot_empty},{"animation",s_anim,MC_QT,boot_empty},{"turned",s_turned,MC_QT,boot_full},{"pixels",s_pixels,MC_QT,boot_empty},{"colours",s_colours,MC_QT,boot_empty},{"order",s_order,MC_QT,boot_full},{"visible",s_visible,MC_QT,boot_full},{"numbers",s_numbers,MC_QT,boot_full},{"characters",s_chr,MC_QT,boot_full},{"function-keys",s_fkeys,MC_QT,boot_full},{"icons",s_icons,MC_QT,boot_full},{"cursor",s_cursor,MC_QT,boot_full},{"race",s_race,MC_QT,boot_full},{"palettes",s_col,MC_QT,boot_full},{"keys",s_keys,MC_QT,boot_full},{"end",s_end,MC_QT,boot_empty}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

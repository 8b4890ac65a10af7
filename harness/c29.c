// C29: the window loop (the real main()) with a scripted host: keys by config.txt, control schemes, mouse to touch, typed and automatic input, frames.
#include "bas.h"
#include <threads.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <SFML/Window.h>
#include <SFML/Graphics.h>
const char* mc_rule = "every configuration x set of keys x control scheme, every listed window size x mouse position along both axes, every history of mouse positions and buttons, every byte of an automatic input file and every length x reading pace, every code point typed in both schemes, every number of frames; counted by configuration and input";
int sbc_main(int, char**);
enum { NK=128, MAXF=700 };
typedef struct { bool key[NK]; int x, y; int mouse; const u32* text; int ntext; } frame;
static frame fr[MAXF]; static int nfr, frameno, ww, wh, textp; static bool open_, active, joined; static void (*after)(int); static void* started; static void (*init_done)(void);
static int close_at; static bool closed; static int late;
static const frame* F(void){ static const frame none; return frameno<nfr?&fr[frameno]:&none; }
sfRenderWindow* sfRenderWindow_create(sfVideoMode m, const char* t, sfUint32 s, const sfContextSettings* c){ return (sfRenderWindow*)&fr; }
void sfRenderWindow_setFramerateLimit(sfRenderWindow* w, unsigned n){}
void sfRenderWindow_destroy(sfRenderWindow* w){}
void sfRenderWindow_close(sfRenderWindow* w){ open_=false; }
sfBool sfRenderWindow_isOpen(const sfRenderWindow* w){ if (open_&&frameno>nfr+8) mc_fail("the window loop goes on after the window was closed"); return open_; }
sfBool sfRenderWindow_pollEvent(sfRenderWindow* w, sfEvent* e){ memset(e,0,sizeof *e); if (textp<F()->ntext){ e->type=sfEvtTextEntered; e->text.unicode=F()->text[textp++]; return sfTrue; } if (frameno>=close_at&&!closed){ closed=true; e->type=sfEvtClosed; return sfTrue; } return sfFalse; }
sfVector2u sfRenderWindow_getSize(const sfRenderWindow* w){ return (sfVector2u){ww,wh}; }
sfBool sfKeyboard_isKeyPressed(sfKeyCode k){ return k>=0&&k<NK&&F()->key[k]; }
sfVector2i sfMouse_getPosition(const sfWindow* w){ return (sfVector2i){F()->x,F()->y}; }
sfVector2i sfMouse_getPositionRenderWindow(const sfRenderWindow* w){ return (sfVector2i){F()->x,F()->y}; }
sfBool sfMouse_isButtonPressed(sfMouseButton b){ return F()->mouse>>b&1; }
void sfSleep(sfTime t){} sfTime sfMilliseconds(sfInt32 n){ return (sfTime){n*1000}; } sfTime sfSeconds(float n){ return (sfTime){(sfInt64)(n*1e6)}; }
void display_draw_all(struct ptc* p){ if (frameno<nfr){ after(frameno); } ++frameno; textp=0; }
int __wrap_thrd_create(thrd_t* t, thrd_start_t f, void* a){ started=a; return thrd_success; }
int __wrap_thrd_join(thrd_t t, int* r){ joined=true; return thrd_success; }
struct ptc* __real_init_system(int,int,int,bool); struct ptc* __wrap_init_system(int a,int b,int c,bool h){ return active?P:__real_init_system(a,b,c,h); }
void __real_init_memory(int); void __wrap_init_memory(int n){ if (!active) __real_init_memory(n); }
void __real_free_system(struct ptc*); void __wrap_free_system(struct ptc* p){ if (!active) __real_free_system(p); }
void __real_free_memory(void); void __wrap_free_memory(void){ if (!active) __real_free_memory(); }
static FILE* opened[16]; FILE* __real_fopen(const char*,const char*); FILE* __wrap_fopen(const char* n,const char* m){ FILE* f=__real_fopen(n,m); if (active&&f) for (int i=0;i<16;++i) if (!opened[i]){ opened[i]=f; break; } return f; }
int __real_fclose(FILE*); int __wrap_fclose(FILE* f){ for (int i=0;i<16;++i) if (opened[i]==f) opened[i]=NULL; return __real_fclose(f); }
static void wd(void){ static char w[300]; snprintf(w,sizeof w,"%s/%d",mc_scratch,getpid()); if (mkdir(w,0700)&&errno!=EEXIST) abort(); if (chdir(w)) abort(); mkdir("resources",0700); mkdir("programs",0700); }
static int cfg[2][13];
static void config(const char* text){ FILE* f=__real_fopen("resources/config.txt","w"); if (text) fputs(text,f); else for (int m=0;m<2;++m){ for (int i=0;i<13;++i) fprintf(f,i?" %d":"%d",cfg[m][i]); fprintf(f,"\n"); } __real_fclose(f); }
static void start(void){ wd(); sys_reset(); P->console.test_mode=false; memset(fr,0,sizeof fr); nfr=0; ww=512; wh=768; for (int m=0;m<2;++m) for (int i=0;i<13;++i) cfg[m][i]=m*40+i; after=NULL; init_done=NULL; for (int i=0;i<MAXF;++i){ fr[i].x=fr[i].y=-5; } late=0; }
static void window(const char* autofile){ // runs main() until the scripted frames are over
	frameno=0; textp=0; closed=false; open_=true; joined=false; started=NULL; close_at=nfr; char* v[]={"sbc","none.PTC",(char*)autofile,NULL}; active=true; int r=sbc_main(autofile?3:1,v); active=false; for (int i=0;i<16;++i) if (opened[i]){ __real_fclose(opened[i]); opened[i]=NULL; }
	if (!closed||frameno<nfr) mc_fail("the window loop ends after %d of %d frames",frameno,nfr); if (!joined) mc_fail("the program thread is not waited for"); if (r) mc_fail("main ends with %d",r); if (!started) mc_fail("no program thread"); mc_trans(frameno); }
// BASIC in between frames
static int go(const char* t){ P->exec.error=0; int e=sys_run(t,0); P->exec.error=0; return e; }
static int num(const char* e){ static char t[200]; snprintf(t,sizeof t,"Z9=%s\r",e); int r=go(t); if (r) mc_fail("%s: %s",e,errname(r)); fixp v=sys_num("Z9"); if (v&4095) mc_fail("%s is not a whole number",e); return v/4096; }
static int drain(u8* out,int n){ int l=0; while (n--){ int e=go("Z9$=INKEY$()\r"); if (e) mc_fail("INKEY$: %s",errname(e)); u8 b[256]; int k=sys_str("Z9",b); if (!k) break; if (k!=1) mc_fail("INKEY$ gives %d characters",k); out[l++]=b[0]; } return l; }
// ---- buttons
static int mmode, bwas; static uint64_t H;
static bool any_select;
static void b_after(int f){ int err=P->exec.error; int want=0,alt; for (int i=0;i<12;++i) if (cfg[mmode][i]>=0&&cfg[mmode][i]<NK&&fr[f].key[cfg[mmode][i]]) want|=1<<i; bool tog=cfg[mmode][12]>=0&&cfg[mmode][12]<NK&&fr[f].key[cfg[mmode][12]]; alt=want; if (tog){ mmode=!mmode; alt=0; for (int i=0;i<12;++i) if (cfg[mmode][i]>=0&&cfg[mmode][i]<NK&&fr[f].key[cfg[mmode][i]]) alt|=1<<i; }
	int got=num("BUTTON()"); if (got!=want&&got!=alt) mc_fail("frame %d: BUTTON() is %x, expected %x%s",f,got,want,tog?" (the scheme changes in this frame)":""); int trig=num("BUTTON(2)"); if (trig!=(got&~bwas)) mc_fail("frame %d: BUTTON(2) is %x, expected %x",f,trig,got&~bwas); if ((got&~bwas&0x800?ERR_BREAK:0)!=err) mc_fail("frame %d: SELECT is %spressed, but the error is %s",f,got&0x800?"":"not ",errname(err)); bwas=got; H=mc_mix(H,mc_mix(got,f)); mc_validated(3); mc_state(H); }
static const char* const cfgs[]={NULL,"@","0 1 2 3 4 5 6 7 8 9 10 11 12\n3 2 1 0 11 10 9 8 7 6 5 4 12\n","100 101 100 101 99 99 98 98 0 0 0 0 127\n-1 -1 -1 -1 5 5 5 5 126 125 124 123 122\n","12 11 10 9 8 7 6 5 4 3 2 1 0 24 23 22 21 20 19 18 17 16 15 14 13 0","1000 2000 -5 0 1 2 3 4 5 6 7 8 20\r\n\t9 10 11 12 13 14 15 16 17 18 19 21 20\n"};
static void load_cfg(int c){ static char t[4000]; if (!cfgs[c]){ config(NULL); return; } const char* s=cfgs[c]; if (*s=='@'){ snprintf(t,300,"%s/resources/config.txt",getenv("MC_REPO")); FILE* f=__real_fopen(t,"r"); if (!f) mc_skip(); int n=fread(t,1,sizeof t-1,f); t[n]=0; __real_fclose(f); s=t; } config(s); for (int m=0;m<2;++m) for (int i=0;i<13;++i){ int k; if (sscanf(s," %d%n",&cfg[m][i],&k)!=1) mc_skip(); s+=k; } }
static void b_begin(int c){ start(); load_cfg(c); after=b_after; mmode=0; bwas=0; H=c; }
static void mode_press(int f){ int k=cfg[mmode][12]; if (k>=0&&k<NK) fr[f].key[k]=true; }
static void s_single(void){ int c=mc_choose(6),m=mc_choose(2),k=mc_range(NK),k2=mc_thorough?mc_choose(NK/2):mc_choose(2); b_begin(c); int f=0; if (m){ mode_press(f++); f++; } if (k==cfg[0][12]||k==cfg[1][12]) mc_skip(); int o=mc_thorough?k2*2:k2?(k*7+3)%NK:k; if (o==cfg[0][12]||o==cfg[1][12]) mc_skip(); fr[f].key[k]=true; fr[f+1].key[k]=true; fr[f+1].key[o]=true; fr[f+2].key[o]=true; nfr=f+4; mc_desc("configuration %d, scheme %d, key %d then also key %d",c,m,k,o); window(NULL); mc_nontrivial(H); mc_outcome(bwas); }
static void s_schemes(void){ int c=mc_choose(6),n=mc_thorough?7:5; b_begin(c); nfr=n+1; int mode=0; bool last=false; uint64_t h=c; mc_desc("configuration %d:",c); for (int f=0;f<n;++f){ int a=mc_choose(4); // nothing, change, a key of each scheme
		if (a==1){ if (last) mc_skip(); int k=cfg[mode][12]; if (k>=0&&k<NK){ fr[f].key[k]=true; mode=!mode; } last=true; mc_desc(" change"); } else { last=false; if (a){ int k=cfg[a-2][(f*5+4)%12]; if (k>=0&&k<NK&&k!=cfg[0][12]&&k!=cfg[1][12]){ fr[f].key[k]=true; mc_desc(" key %d",k); } } else mc_desc(" -"); } h=h*4+a; }
	window(NULL); mc_nontrivial(h); mc_outcome(H); }
static void s_sets(void){ int m=mc_choose(2),s=mc_range(4096); b_begin(0); int f=0; if (m){ mode_press(f++); f++; } for (int i=0;i<12;++i) if (s>>i&1){ fr[f].key[m*40+i]=true; } for (int i=0;i<12;++i) if (!(s>>i&1)) fr[f+1].key[m*40+i]=true; nfr=f+3; mc_desc("scheme %d, buttons %03x then all others",m,s); window(NULL); mc_nontrivial(mc_mix(s,m)); }
// ---- touch
static int tx,ty,tt; static bool ever;
static bool inside(const frame* f,int* px,int* py,int* py2){ // the position on the lower half of the window; with an odd height its first row may or may not belong to it
	if (ww<1||wh<1||f->x<0||f->x>=ww||f->y<0||f->y>=wh) return false; double h=wh/2.0; long h2=wh/2; if (f->y<h2) return false; *px=256L*f->x/ww; *py2=-1; *py=-1; if (f->y>=h) *py2=192*(f->y-h)/h; if (h2>0&&192L*(f->y-h2)/h2<192) *py=192L*(f->y-h2)/h2; return true; }
static void t_after(int f){ int x=0,y=-1,y2=-1; bool in=inside(&fr[f],&x,&y,&y2); bool press=in&&(fr[f].mouse&1); int st=num("TCHST"),ti=num("TCHTIME"),gx=num("TCHX"),gy=num("TCHY"); bool either=in&&(y<0||y2<0); 
	if (either&&press) press=st; if (st!=press) mc_fail("frame %d: TCHST is %d with the mouse at %d,%d of %d,%d and button %d",f,st,fr[f].x,fr[f].y,ww,wh,fr[f].mouse);
	if (press){ ++tt; tx=x; ty=gy; ever=true; if (gx!=x) mc_fail("frame %d: TCHX is %d for %d of %d, expected %d",f,gx,fr[f].x,ww,x); if (gy!=y&&gy!=y2) mc_fail("frame %d: TCHY is %d for row %d of %d, expected %d",f,gy,fr[f].y,wh,y); } else { tt=0; if (ever&&(gx!=tx||gy!=ty)) mc_fail("frame %d: the released touch moves from %d,%d to %d,%d",f,tx,ty,gx,gy); }
	if (ti!=tt) mc_fail("frame %d: TCHTIME is %d, expected %d",f,ti,tt); mc_validated(4); mc_state(H=mc_mix(H,mc_mix(gx*192+gy,st))); }
static void t_begin(void){ start(); config(NULL); after=t_after; tt=0; ever=false; H=0; }
static const int ws[]={1,2,3,100,255,256,257,511,512,513,640,1023,1920,4000}, hs[]={1,2,3,4,5,100,383,384,385,767,768,769,1079,1080,1081,4000};
static void s_scale(void){ int w=ws[mc_choose(14)],h=hs[mc_choose(16)]; int axis=mc_choose(2); t_begin(); ww=w; wh=h; int n=0; mc_desc("window %d,%d along %s",w,h,axis?"y":"x"); int L=axis?h:w, step=mc_thorough?1:L>600?3:1; // every position along one axis, in groups of 200
	int g=mc_choose((L+20)/step/200+1); for (int i=0;i<200;++i){ int p=(g*200+i)*step-10; if (p>=L+10) break; fr[n].x=axis?w*2/3:p; fr[n].y=axis?p:h/2+h/3; fr[n].mouse=1; ++n; } if (!n) mc_skip(); nfr=n; mc_desc(" from %d",g*200*step-10); window(NULL); mc_nontrivial(mc_mix(H,g)); mc_outcome(H); }
static void s_far(void){ static const int v[]={-2147483647-1,-1000000,-257,-1,0,1,511,512,700,768,1000000,8000000}; int i=mc_choose(12),j=mc_choose(12),s=mc_choose(5); static const int sz[][2]={{512,768},{1,1},{1,2},{2,1},{4000,3}}; t_begin(); ww=sz[s][0]; wh=sz[s][1]; if (abs(v[i]/256)>8300000) mc_skip(); for (int k=0;k<3;++k){ fr[k].x=v[i]; fr[k].y=v[j]; fr[k].mouse=k==1?0:1; } nfr=3; mc_desc("mouse at %d,%d of %d,%d",v[i],v[j],ww,wh); window(NULL); mc_nontrivial(mc_mix(i*12+j,s)); }
static const int pl[][2]={{100,500},{511,767},{100,383},{-1,500},{512,500},{300,768},{40,420},{0,384}};
static const int btn[]={0,1,2,5};
static void s_history(void){ int n=mc_thorough?4:3; t_begin(); uint64_t h=0; for (int f=0;f<n;++f){ int p=mc_choose(mc_thorough?6:8),b=mc_choose(4); fr[f].x=pl[p][0]; fr[f].y=pl[p][1]; fr[f].mouse=btn[b]; mc_desc(" %d,%d:%d",fr[f].x,fr[f].y,btn[b]); h=h*32+p*4+b; } fr[n].x=pl[0][0]; fr[n].y=pl[0][1]; fr[n].mouse=1; fr[n+1]=fr[n]; nfr=n+2; window(NULL); mc_nontrivial(h); mc_outcome(H); }
// a key of the keyboard under the mouse; leaving the screen releases it
static int kwant[MAXF],kn; static u8 kc[MAXF];
static void k_after(int f){ u8 g[300]; int n=drain(g,250); for (int i=0;i<n;++i) if (kn<600) kc[kn++]=g[i]; int k=num("KEYBOARD"); if (k!=kwant[f]&&(k||!kwant[f]||!f||!kwant[f-1])) mc_fail("frame %d: KEYBOARD is %d, expected %d",f,k,kwant[f]); mc_validated(1); }
static void s_leave(void){ start(); config(NULL); if (go("PNLTYPE \"KYA\"\r")) mc_fail("PNLTYPE"); after=k_after; kn=0; int n=mc_thorough?6:5; bool down=false, gone=false; char want[60]; int l=0; static const int ps[][2]={{80,544},{80,300},{-3,544},{600,544},{82,546}}; mc_desc("key Q:"); uint64_t h=0;
	for (int f=0;f<n;++f){ int p=mc_choose(5),b=mc_choose(2); fr[f].x=ps[p][0]; fr[f].y=ps[p][1]; fr[f].mouse=b; bool on=b&&(p==0||p==4); if (on&&!down) want[l++]='?'; down=on; kwant[f]=on?-2:0; h=h*10+p*2+b; mc_desc(" %d,%d:%d",fr[f].x,fr[f].y,b); } nfr=n; (void)gone;
	press_key(P,true,40,80); int id=num("KEYBOARD"); u8 q[9]; if (!id||drain(q,9)!=1) mc_fail("no key at 40,80"); press_key(P,false,0,0); for (int f=0;f<n;++f) if (kwant[f]==-2) kwant[f]=id; window(NULL); if (kn!=l) mc_fail("%d keys arrive, expected %d",kn,l); for (int i=1;i<kn;++i) if (kc[i]!=kc[0]) mc_fail("keys %d and %d arrive",kc[0],kc[i]); mc_nontrivial(h); mc_state(h); mc_outcome(mc_mix(kn,h)); }
// ---- automatic input: every byte of the file arrives, in order, as far as the program reads
static u8 af[3000]; static int an, pace, ag; static u8 agot[3000];
static void a_after(int f){ if (ag<2900) ag+=drain(agot+ag,pace); mc_state(mc_mix(ag,f)); }
static void write_auto(void){ FILE* f=__real_fopen("keys.txt","wb"); fwrite(af,1,an,f); __real_fclose(f); }
static void a_check(void){ if (ag>an) mc_fail("%d keys arrive of a file of %d bytes",ag,an); for (int i=0;i<ag;++i) if (agot[i]!=af[i]) mc_fail("byte %d of the file, %d, arrives as %d",i,af[i],agot[i]); if (ag<an) mc_fail("only %d of %d bytes of the file arrive",ag,an); mc_validated(an); mc_outcome(mc_hash(agot,ag)); }
static bool charcode(int c){ return c>0; }
static void s_bytes(void){ int c=1+mc_range(255),k=mc_choose(3); if (!charcode(c)) mc_skip(); start(); config(NULL); after=a_after; an=0; if (k==1) af[an++]='A'; af[an++]=c; if (k>=1) af[an++]='B'; if (k==2) af[an++]=c; write_auto(); pace=250; ag=0; nfr=4; mc_desc("byte %d, case %d",c,k); window("keys.txt"); a_check(); mc_nontrivial(mc_mix(c,k)); }
static void s_length(void){ static const int ls[]={0,1,2,127,128,129,255,256,257,258,300,511,512,513,700}, pc[]={1,3,200,255,256,257}; int n=ls[mc_choose(15)]; pace=pc[mc_choose(6)]; int typed=mc_choose(2); start(); config(NULL); after=a_after; an=n; for (int i=0;i<n;++i) af[i]='A'+i%53; write_auto(); ag=0; nfr=n/pace+5; if (nfr>=MAXF) mc_skip(); static const u32 ty_[]={'1'}; if (typed){ fr[1].text=ty_; fr[1].ntext=1; } mc_desc("%d bytes read %d at a time%s",n,pace,typed?", with a key in frame 1":""); window("keys.txt");
	if (typed){ int w=0,seen=0; for (int i=0;i<ag;++i) if (agot[i]=='1') ++seen; else agot[w++]=agot[i]; ag=w; if (seen>1||(!seen&&n<250)) mc_fail("the typed key arrives %d times",seen); } a_check(); mc_nontrivial(mc_mix(n,pace*2+typed)); }
static void s_nofile(void){ int k=mc_choose(3); start(); config(NULL); after=a_after; ag=0; pace=20; nfr=3; mkdir("dir",0700); mc_desc("automatic input from %s",k==0?"a missing file":k==1?"a directory":"an empty name"); window(k==0?"missing":k==1?"dir":""); if (ag) mc_fail("keys arrive"); mc_nontrivial(k+1); mc_state(k+1); }
// ---- typed text: a code point of the host arrives as that character of the system, or not at all
static u8 tg[64]; static int tn;
static void y_after(int f){ u8 g[260]; int n=drain(g,250); for (int i=0;i<n&&tn<64;++i) tg[tn++]=g[i]; mc_state(mc_mix(tn,mc_hash(tg,tn))); }
static int typed_code(u32 u,int mode){ // -1 nothing, -2 unspecified
	if (u<=128){ if (mode||u==8||u==13||u==27) return -1; return u==128||!u?-2:(int)u; }
	if (u<12289||u>12540) return -1; for (int c=0xa1;c<0xe0;++c) if (to_wide(c)==u) return c; return -1; }
static u32 ty2[64]; static int tyn;
static void typed_run(int mode,const char* what){ start(); config(NULL); after=y_after; tn=0; int f=0; if (mode){ fr[0].key[cfg[0][12]]=true; f=1; } fr[f+1].text=ty2; fr[f+1].ntext=tyn; nfr=f+3; window(NULL); u8 w[64]; int n=0; for (int i=0;i<tyn;++i){ int c=typed_code(ty2[i],mode); if (c==-2) mc_skip(); if (c>=0) w[n++]=c; } if (n!=tn||memcmp(w,tg,n)) mc_fail("%s: %d characters arrive (first %d), expected %d (first %d)",what,tn,tn?tg[0]:-1,n,n?w[0]:-1); mc_validated(1+n); mc_nontrivial(mc_mix(mc_hash(ty2,tyn*4),mode)); mc_outcome(mc_hash(tg,tn)); }
static void s_typed(void){ int u=mc_range(12600),mode=mc_choose(2),two=mc_choose(2); u+=1; if (!mc_thorough&&u>400&&u<12250) mc_skip(); static const u32 far[]={0xffe5,0xff21,0xff70,0x201d,0x2019,0xffff,0x10000,0x10041,0x13042,0x1f600,0x10ffff,0x80000041,0xffffffff}; u32 c=u; if (u>12600-13) c=far[12600-u]; tyn=0; if (two) ty2[tyn++]='A'; ty2[tyn++]=c; if (two) ty2[tyn++]='b'; if (two) ty2[tyn++]=c; mc_desc("code point %x%s, scheme %d",c,two?" between others":"",mode); char v[40]; sprintf(v,"code point U+%X in scheme %d",c,mode); typed_run(mode,v); }
static void s_texts(void){ static const u32 cs[]={'A','\b',0x30a2,'\r',0x3042,27,'~',' '}; int mode=mc_choose(2),n=mc_thorough?6:4; tyn=0; mc_desc("scheme %d:",mode); for (int i=0;i<n;++i){ int k=mc_choose(8); ty2[tyn++]=cs[k]; mc_desc(" %x",cs[k]); } typed_run(mode,"text"); }
// ---- frames: every frame is one step of the clock, of sprites and of backgrounds
static int f0, fn;
static void f_after(int f){ int c=num("MAINCNTL"); if (c!=(f0+f+1)%524288) mc_fail("frame %d: MAINCNTL is %d, expected %d",f,c,f0+f+1); char v[80]; if (go("SPREAD (0),X,Y:BGREAD (0,0,0),Q\r")) mc_fail("SPREAD"); int x=sys_num("X"), want=f+1>=fn?fn*4:(f+1)*4; snprintf(v,sizeof v,"frame %d",f); if (x!=want*4096) mc_fail("%s: the sprite is at %d/4096, expected %d",v,x,want); int b=num("BGCHK(0)"); if (b!=(f+1<fn)) mc_fail("%s: BGCHK(0) is %d, expected %d",v,b,f+1<fn); mc_validated(3); mc_state(mc_mix(x,c)); }
static void s_frames(void){ int n=1+mc_range(60); int s=mc_choose(4); start(); config(NULL); after=f_after; fn=n; char t[200]; snprintf(t,sizeof t,"SPPAGE 0:SPSET 0,0,0,0,0,0:SPOFS 0,0,0:SPOFS 0,%d,0,%d:BGOFS 0,%d,0,%d\r",n*4,n,n*8,n); int e=go(t); if (e) mc_fail("%s: %s",t,errname(e)); f0=num("MAINCNTL"); nfr=n+6; if (s) for (int f=0;f<nfr;++f){ fr[f].mouse=1; fr[f].x=s==1?100:-100; fr[f].y=500; fr[f].key[f%13]=f%13<11&&s==2; } if (s==3){ an=0; for (int i=0;i<700;++i) af[an++]=32+i%90; write_auto(); } mc_desc("movements of %d frames%s",n,s==3?" with automatic input":""); window(s==3?"keys.txt":NULL); mc_nontrivial(n*3+s); mc_outcome(n); }
static void boot_(void){ wd(); sys_boot(); P->console.test_mode=false; sys_snapshot(); }
const mc_suite mc_suites[]={{"single",s_single,MC_QT,boot_},{"schemes",s_schemes,MC_QT,boot_},{"sets",s_sets,MC_QT,boot_},{"scale",s_scale,MC_QT,boot_},{"far",s_far,MC_QT,boot_},{"history",s_history,MC_QT,boot_},{"leave",s_leave,MC_QT,boot_},{"bytes",s_bytes,MC_QT,boot_},{"length",s_length,MC_QT,boot_},{"nofile",s_nofile,MC_QT,boot_},{"frames",s_frames,MC_QT,boot_},{"typed",s_typed,MC_QT,boot_},{"texts",s_texts,MC_QT,boot_}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

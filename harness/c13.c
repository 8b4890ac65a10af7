// C13: the window thread and the program thread. The real main() of the window thread and the real
// interpreter run as two coroutines under a deterministic scheduler. The repository is compiled with
// -fsanitize=thread, but linked against the hooks below instead of the sanitizer: every access to shared
// state, every lock and every call of the window thread is a point where the other thread may continue.
#include "bas.h"
#include <ucontext.h>
#include <threads.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <SFML/Window.h>
#include <SFML/Graphics.h>
const char* mc_rule = "every schedule of the real window thread (main) and the real program thread with up to the stated number of preemptions at accesses to shared state, locks and calls, for every listed pair of program and sequence of input frames; BREAK from every combination of buttons held before, every hold time and every panel; non-trivial = a schedule with at least one preemption, counted by scenario and preemption points";
int sbc_main(int, char**);
enum { W, PT };
static ucontext_t cx_main, cx[2]; static char* stk[2]; enum { STK=1<<21 };
static int cur; static bool active, started[2], done[2]; static void* wants[2];
static long npts, nsw; static int slice, slice_max;
// ---- what the window does
typedef struct { const char* text; int buttons; bool touch; int x, y; } frame;
static const frame* fr; static int nfr, frameno; static bool pump, closed, open_; static int max_frames; static const char* txt; static const u32* uni; static int nuni; // unicode text of frame 1
static int (*prog)(void*); static void* prog_arg;
// ---- scheduling
static int mode_; enum { NONE, SERIAL, FINE };   // eligible points: none, only boundaries, all
static long sw[8]; static int nswl; static bool explore; // fixed switches, then mc_fault choices
static uintptr_t reg_lo[16], reg_hi[16]; static int nreg;
static void region(const void* p, size_t n){ reg_lo[nreg]=(uintptr_t)p; reg_hi[nreg]=(uintptr_t)p+n; ++nreg; }
static void (*on_switch)(void);
static void go_to(int t){ int o=cur; if (o==t) return; cur=t; slice=0; swapcontext(&cx[o],&cx[t]); }
static bool can(int t){ return started[t]&&!done[t]; }
static void yield_(void){ if (can(!cur)) go_to(!cur); }
static void (*at_point)(void);
static int in_press;
static void point(bool boundary){
	if (!active) return;
	if (at_point) at_point();
	if (cur==PT&&slice_max&&++slice>slice_max){ yield_(); return; }
	if (mode_==NONE||(mode_==SERIAL&&!boundary)) return;
	long k=npts++;
	if (!can(!cur)) return;
	if (wants[!cur]) return; // the other one waits for a lock: it continues when that is free
	if (nsw<nswl){ if (sw[nsw]==k){ ++nsw; go_to(!cur); } return; }
	if (explore&&mc_fault(2)){ mc_desc(" %ld",k); mc_trans(1); go_to(!cur); }
}
static inline void acc(const void* a, size_t n, bool rd){
	if (!active) return; uintptr_t p=(uintptr_t)a;
	for (int i=0;i<nreg;++i) if (p<reg_hi[i]&&p+n>reg_lo[i]){ point(rd&&cur==PT&&p==(uintptr_t)&P->exec.error); return; } }
void __tsan_init(void){} void __tsan_func_entry(void* p){} void __tsan_func_exit(void){}
#define H(n) void __tsan_read##n(void* a){ acc(a,n,true); } void __tsan_write##n(void* a){ acc(a,n,false); } void __tsan_unaligned_read##n(void* a){ acc(a,n,true); } void __tsan_unaligned_write##n(void* a){ acc(a,n,false); } void __tsan_volatile_read##n(void* a){ acc(a,n,true); } void __tsan_volatile_write##n(void* a){ acc(a,n,false); } void __tsan_unaligned_volatile_read##n(void* a){ acc(a,n,true); } void __tsan_unaligned_volatile_write##n(void* a){ acc(a,n,false); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_read_range(void* a, unsigned long n){ acc(a,n,true); } void __tsan_write_range(void* a, unsigned long n){ acc(a,n,false); } void __tsan_vptr_update(void** a, void* b){} void __tsan_vptr_read(void** a){}
#define A(n,T) T __tsan_atomic##n##_load(const volatile T* a, int m){ acc((void*)a,sizeof(T),true); return *a; } void __tsan_atomic##n##_store(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); *a=v; } \
 T __tsan_atomic##n##_exchange(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=v; return o; } T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=o+v; return o; } T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=o-v; return o; } T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=o|v; return o; } T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=o&v; return o; } T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int m){ acc((void*)a,sizeof(T),false); T o=*a; *a=o^v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int f){ acc((void*)a,sizeof(T),false); if (*a==*e){ *a=v; return 1; } *e=*a; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int f){ return __tsan_atomic##n##_compare_exchange_strong(a,e,v,m,f); } T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int m, int f){ acc((void*)a,sizeof(T),false); T o=*a; if (o==e) *a=v; return o; }
A(8,u8) A(16,u16) A(32,u32) A(64,uint64_t)
void __tsan_atomic_thread_fence(int m){} void __tsan_atomic_signal_fence(int m){}
// ---- locks
static struct { void* m; int owner; } lk[32]; static int nlk;
static int* owner_(void* m){ for (int i=0;i<nlk;++i) if (lk[i].m==m) return &lk[i].owner; if (nlk==32) mc_fail("too many locks"); lk[nlk].m=m; lk[nlk].owner=-1; return &lk[nlk++].owner; }
int __wrap_mtx_lock(mtx_t* m){ if (!active) return thrd_success; point(false); int* o=owner_(m);
	while (*o>=0){ if (*o==cur) mc_fail("the %s thread locks a lock it holds",cur?"program":"window"); if (!can(!cur)||wants[!cur]) mc_fail("deadlock: the %s thread waits for a lock that is never freed",cur?"program":"window"); wants[cur]=m; go_to(!cur); wants[cur]=NULL; }
	*o=cur; return thrd_success; }
int __wrap_mtx_trylock(mtx_t* m){ if (!active) return thrd_success; point(false); int* o=owner_(m); if (*o>=0) return thrd_busy; *o=cur; return thrd_success; }
int __wrap_mtx_unlock(mtx_t* m){ if (!active) return thrd_success; int* o=owner_(m); if (*o!=cur) mc_fail("the %s thread unlocks a lock it does not hold",cur?"program":"window"); *o=-1; if (wants[!cur]==m){ wants[!cur]=NULL; } point(false); return thrd_success; }
static void slept(void){ if (!active){ inc_time(&P->time); return; } if (can(!cur)) yield_(); else if (cur==PT) mc_fail("the program waits after the window thread has ended"); }
// ---- the window system
static int polled;
static const frame* F(void){ static const frame none; return frameno<nfr?&fr[frameno]:&none; }
sfRenderWindow* sfRenderWindow_create(sfVideoMode m, const char* t, sfUint32 s, const sfContextSettings* c){ return (sfRenderWindow*)&cx; }
void sfRenderWindow_setFramerateLimit(sfRenderWindow* w, unsigned n){}
void sfRenderWindow_destroy(sfRenderWindow* w){}
void sfRenderWindow_close(sfRenderWindow* w){ open_=false; }
sfBool sfRenderWindow_isOpen(const sfRenderWindow* w){ point(true); txt=F()->text; if (!txt) txt=""; return open_; }
static bool close_now(void);
sfBool sfRenderWindow_pollEvent(sfRenderWindow* w, sfEvent* e){ memset(e,0,sizeof *e); if (close_now()&&!closed){ closed=true; e->type=sfEvtClosed; return sfTrue; } if (uni&&frameno==1&&nuni){ --nuni; e->type=sfEvtTextEntered; e->text.unicode=*uni++; return sfTrue; } if (*txt){ e->type=sfEvtTextEntered; e->text.unicode=(u8)*txt++; return sfTrue; } return sfFalse; }
sfVector2u sfRenderWindow_getSize(const sfRenderWindow* w){ return (sfVector2u){512,768}; }
sfBool sfKeyboard_isKeyPressed(sfKeyCode k){ return k>=0&&k<12&&(F()->buttons>>k&1); }
sfVector2i sfMouse_getPosition(const sfWindow* w){ return (sfVector2i){F()->x*2,384+F()->y*2}; }
sfBool sfMouse_isButtonPressed(sfMouseButton b){ return F()->touch; }
void sfSleep(sfTime t){ slept(); } sfTime sfMilliseconds(sfInt32 n){ return (sfTime){n*1000}; } sfTime sfSeconds(float n){ return (sfTime){(sfInt64)(n*1e6)}; }
static bool may_run_on, compiling, broken; static int close_at; // frame at which the window is closed, or -1: once the program has ended
static bool close_now(void){ return close_at>=0?frameno>=close_at:frameno>=nfr&&done[PT]; }
void display_draw_all(struct ptc* p){ // the end of a frame: the window thread waits for the next one
	++frameno; 
	if (close_at<0&&frameno>=nfr&&!done[PT]&&!pump){ int n=0; while (!done[PT]){ if (wants[PT]) break; if (++n>400){ if (may_run_on&&!broken) mc_skip(); mc_fail(broken?"the program goes on after BREAK":"the program does not end"); } yield_(); } return; }
	if (frameno>max_frames&&!done[PT]) mc_fail("the program does not end");
	yield_(); }
// ---- the calls of the window thread are the units a schedule may separate
void __real_set_input(struct ptc*,int); static int lastb; static bool lastt;
static int pressdepth; static char klog[400]; static int nklog;
#define ATOM(T,n,args,call) T __real_##n args; T __wrap_##n args { if (active&&cur==W&&!pressdepth) point(true); return __real_##n call; }
static void note_break(bool now);
ATOM(void,set_touch,(struct input* i,bool t,u8 x,u8 y),(i,t,x,y)) ATOM(void,step_sprites,(struct sprites* s),(s)) ATOM(void,step_background,(struct background* b),(b)) ATOM(void,inc_time,(struct timers* t),(t))
void __wrap_set_input(struct ptc* p,int b){ if (active&&cur==W&&!pressdepth) point(true); if (b&~lastb&1<<11) note_break(compiling); lastb=b; __real_set_input(p,b); }
static void note_break(bool now){ if (now) broken=true; }
bool __real_set_inkey(struct input*,u16); static bool split_keys; static int prefill; static long acc_keys, read_keys, refused;
bool __wrap_set_inkey(struct input* i,u16 c){ if (active&&cur==W&&(!pressdepth||split_keys)) point(true); long r0=read_keys; bool ok=__real_set_inkey(i,c); if (active){ if (ok){ ++acc_keys; if (nklog<399) klog[nklog++]=c?to_char(c):'0'; klog[nklog]=0; } else { ++refused; if (acc_keys-r0<INKEY_BUF_SIZE) mc_fail("a key is refused although only %ld are waiting",acc_keys-r0); } } return ok; }
u16 __real_get_inkey(struct input*); u16 __wrap_get_inkey(struct input* i){ u16 c=__real_get_inkey(i); if (active&&c) ++read_keys; return c; }
void __real_press_key(struct ptc*,bool,int,int); void __wrap_press_key(struct ptc* p,bool t,int x,int y){ if (active) point(true); ++pressdepth; if (active&&t&&!lastt&&x==10&&y==60) note_break(compiling); lastt=t; __real_press_key(p,t,x,y); --pressdepth; }
int __real_tokenize_full(struct program*,struct bytecode*,void*,int); int __wrap_tokenize_full(struct program* s,struct bytecode* b,void* y,int o){ if (active&&cur==PT) compiling=true; return __real_tokenize_full(s,b,y,o); }
// ---- system start and end
int __wrap_thrd_create(thrd_t* t, thrd_start_t f, void* a); 
static thrd_start_t main_start; static void* main_arg;
static void pbody(void){ int r=prog?prog(prog_arg):main_start(main_arg); (void)r; done[PT]=true; if (!can(W)) mc_fail("the window thread is gone"); cur=W; setcontext(&cx[W]); }
static char* av[4]={"sbc"}; static int ac=1;
static void wbody(void){ sbc_main(ac,av); done[W]=true; setcontext(&cx_main); }
static void make(int t, void (*f)(void)){ getcontext(&cx[t]); cx[t].uc_stack.ss_sp=stk[t]; cx[t].uc_stack.ss_size=STK; cx[t].uc_link=NULL; makecontext(&cx[t],f,0); started[t]=true; done[t]=false; wants[t]=NULL; }
int __wrap_thrd_create(thrd_t* t, thrd_start_t f, void* a){ if (!active) return thrd_error; main_start=f; main_arg=a; make(PT,pbody); point(true); return thrd_success; }
static int joins;
int __wrap_thrd_join(thrd_t t, int* r){ joins=0; while (!done[PT]){ if (++joins>400) mc_fail("the program thread never ends after the window was closed"); if (wants[PT]) mc_fail("deadlock: the program thread waits for a lock the window thread holds"); yield_(); } return thrd_success; }
struct ptc* __real_init_system(int,int,int,bool); struct ptc* __wrap_init_system(int a,int b,int c,bool h){ return active?P:__real_init_system(a,b,c,h); }
void __real_init_memory(int); void __wrap_init_memory(int n){ if (!active) __real_init_memory(n); }
void __real_free_system(struct ptc*); void __wrap_free_system(struct ptc* p){ if (!active) __real_free_system(p); }
void __real_free_memory(void); void __wrap_free_memory(void){ if (!active) __real_free_memory(); }
static FILE* cfgf; FILE* __real_fopen(const char*,const char*); FILE* __wrap_fopen(const char* n,const char* m){ FILE* f=__real_fopen(n,m); if (strstr(n,"config.txt")) cfgf=f; return f; }
int __real_fclose(FILE*); int __wrap_fclose(FILE* f){ if (f==cfgf) cfgf=NULL; return __real_fclose(f); }

static void execute(void){ // one execution under the current schedule
	if (cfgf){ __real_fclose(cfgf); cfgf=NULL; }
	npts=nsw=0; slice=0; frameno=0; closed=false; open_=true; nlk=0; pressdepth=0; nklog=0; klog[0]=0; acc_keys=prefill; read_keys=refused=0; lastb=0; lastt=false; broken=false; compiling=false; done[PT]=false; started[PT]=false; wants[W]=wants[PT]=NULL; main_start=NULL;
	make(W,wbody); cur=W; active=true; getcontext(&cx_main); 
	static volatile bool in; if (active&&!done[W]){ in=true; swapcontext(&cx_main,&cx[W]); }
	active=false; if (cfgf){ __real_fclose(cfgf); cfgf=NULL; }
	for (int i=0;i<nlk;++i) if (lk[i].owner>=0) mc_fail("a lock is still held at the end");
}
// ---- serializability: every schedule ends like one that separates whole instructions and whole calls
typedef struct { const char* setup; const char* text; frame f[10]; int n; int regs; bool split; } scen;
enum { R_IN=1, R_PNL=2, R_SPR=4, R_BG=8, R_ERR=16 };
static char obs[6000]; static int ol;
#define O(...) (ol+=snprintf(obs+ol,sizeof obs-ol>0?sizeof obs-ol:0,__VA_ARGS__))
static uint64_t observe(void){
	ol=0; struct panel* n=&P->panel; struct input* i=&P->input;
	for (unsigned k=0;k<P->vars.vars_max;++k){ struct named_var* v=&P->vars.vars[k]; if (v->type==VAR_NUMBER) O("%.16s=%g ",v->name,v->value.number/4096.0); else if (v->type==VAR_STRING) O("%.16s$=\"%s\" ",v->name,sys_strz((char[17]){v->name[0],v->name[1]})); }
	O("keys typed \"%s\" ",klog); char rest[300]; int l=0; u16 c; while (l<280&&(c=get_inkey(i))) rest[l++]=to_char(c); rest[l]=0; O("left \"%s\" ",rest);
	O("panel %d shift %d cursor %d key %d id %d time %d page %d/%d ",n->type,n->shift,n->cursor,n->key_pressed,n->id_pressed,n->pressed_time,n->iconpage/4096,n->iconpmax/4096);
	uint64_t h=0; for (int k=0;k<5;++k) h=mc_mix(h,mc_mix(n->func_keys_len[k],mc_hash(n->func_keys[k],2*n->func_keys_len[k]))); for (int k=0;k<PANEL_KEYS;++k) h=mc_mix(h,mc_mix(n->keys[k].chr,mc_mix(n->keys[k].pos.x,n->keys[k].pos.y)*2+n->keys[k].active));
	O("function keys and images %08x ",(unsigned)h);
	O("buttons %x<%x touch %d %d,%d ",(int)i->button,(int)i->old_button,(int)i->tchtime,(int)i->tchx,(int)i->tchy); for (int k=0;k<12;++k) if (i->times[k].frame||i->times[k].start||i->times[k].repeat) O("button%d %d/%d/%d ",k,i->times[k].frame,i->times[k].start,i->times[k].repeat);
	for (int p=0;p<2;++p) for (int k=0;k<3;++k){ struct sprite_info* s=&P->sprites.info[p][k]; if (!s->active) continue; O("sprite %d.%d chr %d pos %d,%d+%d,%d>%d,%d t%d scale %d+%d>%d t%d angle %d+%d>%d t%d anim %d/%d/%d/%d/%d/%d ",p,k,s->chr,s->pos.x,s->pos.y,s->pos.time>=0?s->pos.dx:0,s->pos.time>=0?s->pos.dy:0,s->pos.time>=0?s->pos.end_x:0,s->pos.time>=0?s->pos.end_y:0,s->pos.time,s->scale.s,s->scale.time>=0?s->scale.ds:0,s->scale.time>=0?s->scale.end:0,s->scale.time,s->angle.a,s->angle.time>=0?s->angle.da:0,s->angle.time>=0?s->angle.end:0,s->angle.time,s->anim.chrs,s->anim.frames_per_chr,s->anim.loop,s->anim.loop_forever,s->anim.current_frame,s->anim.current_chr); }
	for (int p=0;p<2;++p) for (int k=0;k<2;++k){ struct bg_offset* b=&P->background.ofs[p][k]; if (b->x||b->y||b->time) O("bg %d.%d %d,%d>%d,%d t%d ",p,k,b->x,b->y,b->time?b->dest_x:0,b->time?b->dest_y:0,b->time); }
	O("error %s screen %08x",errname(P->exec.error),(unsigned)sys_hash_console());
	return mc_hash(obs,strlen(obs)); }
static const char* ptext; static int popts, prc;
static int run_text(void* a){ struct program g={strlen(ptext),(char*)ptext}; prc=token_and_run(P,&g,sys_bc(),popts); return 0; }
static void prepare(const scen* s){
	active=false; explore=false; cur=W;
	sys_reset(); P->console.test_mode=false; if (s->setup&&*s->setup){ int e=sys_run(s->setup,0); if (e) mc_fail("setup %s: %s",s->setup,errname(e)); }
	nreg=0; region(&P->exec.error,4); region(&P->time,sizeof P->time.time); struct input* i=&P->input; struct panel* n=&P->panel;
	if (s->regs&R_IN){ region(i,sizeof *i); }
	if (s->regs&R_PNL){ region(&n->type,4); region(n->func_keys,sizeof n->func_keys); region(n->func_keys_len,sizeof n->func_keys_len); region(&n->key_pressed,(char*)(n+1)-(char*)&n->key_pressed); for (int k=90;k<94;++k) region(&n->keys[k].vars,4); }
	if (s->regs&R_SPR) for (int p=0;p<2;++p) region(&P->sprites.info[p][0],2*sizeof(struct sprite_info));
	if (s->regs&R_BG) region(&P->background,sizeof P->background);
	fr=s->f; nfr=s->n; pump=false; close_at=-1; max_frames=200; slice_max=0; prog=run_text; ptext=s->text; prc=-1; may_run_on=false; prefill=0; uni=NULL; nuni=0; ac=1; popts=0; split_keys=s->split; on_switch=NULL; at_point=NULL; }
enum { MAXR=1<<16 }; static uint64_t* rset; static int nr; static const scen* rfor; static char robs[4][6000]; static int nrobs; static long rruns;
static void rput(uint64_t h){ unsigned i=h&(MAXR-1); while (rset[i]&&rset[i]!=h) i=(i+1)&(MAXR-1); if (!rset[i]){ rset[i]=h; if (++nr>MAXR/2) mc_fail("too many serial results"); if (nrobs<4) strcpy(robs[nrobs++],obs); } }
static bool rhas(uint64_t h){ unsigned i=h&(MAXR-1); while (rset[i]&&rset[i]!=h) i=(i+1)&(MAXR-1); return rset[i]==h; }
static void serial(const scen* s, int left){ // all schedules at boundaries with the switches so far and up to 'left' more
	prepare(s); mode_=SERIAL; explore=false; execute(); ++rruns; mc_trans(1); long n=npts; if (nsw<nswl) return; rput(observe()); if (!left) return;
	for (long k=nswl?sw[nswl-1]+1:0;k<n;++k){ sw[nswl++]=k; serial(s,left-1); --nswl; } }
static void conform(const scen* s, int bound){
	if (rfor!=s){ rfor=s; if (!rset) rset=malloc(MAXR*sizeof *rset); memset(rset,0,MAXR*sizeof *rset); nr=nrobs=0; nswl=0; rruns=0; serial(s,bound+1); }
	mc_desc("%s%s%s with",s->setup?s->setup:"",s->setup?" then ":"",s->text); for (int i=0;i<s->n;++i){ mc_desc(" frame %d:",i); if (s->f[i].text) mc_desc(" \"%s\"",s->f[i].text); if (s->f[i].buttons) mc_desc(" buttons %x",s->f[i].buttons); if (s->f[i].touch) mc_desc(" touch %d,%d",s->f[i].x,s->f[i].y); }
	prepare(s); mode_=FINE; explore=false; nswl=0; execute(); long n0=npts; uint64_t h=observe(); if (!rhas(h)) mc_fail("without preemption: %s",obs);
	int k1=mc_range(n0+1); if (k1==n0) { mc_state(h); mc_outcome(h); return; }
	mc_desc(", preempted at %d",k1); prepare(s); nswl=1; sw[0]=k1; explore=true; mc_fault_bound=bound-1; execute(); if (!nsw) mc_skip();
	h=observe(); mc_validated(1); mc_trans(1); mc_state(h); mc_outcome(h); mc_nontrivial(mc_mix(mc_hash(s,sizeof(void*)),mc_mix(k1,npts)));
	if (!rhas(h)){ char o[6000]; strcpy(o,obs); mc_fail("the result is none of the %d a sequence of whole instructions and calls gives:\n%s\ninstead of e.g.\n%s\n%s",nr,o,robs[0],nrobs>1?robs[1]:""); }
}
#define B_A (1<<4)
#define B_B (1<<5)
#define B_SEL (1<<11)
static const scen inputs[]={
 {0,"A=BUTTON():B=BUTTON():C=BUTTON()\r",{{0},{0,B_A},{0,B_B},{0,0}},4,R_IN},
 {0,"A=BUTTON(2):B=BUTTON(2)\r",{{0},{0,B_A},{0,B_B},{0,0}},4,R_IN},
 {0,"A=BUTTON(3):B=BUTTON(3)\r",{{0},{0,B_A},{0,B_B},{0,0}},4,R_IN},
 {0,"A=BUTTON(1):B=BTRIG()\r",{{0},{0,B_A},{0,B_B},{0,B_A}},4,R_IN},
 {0,"BREPEAT 4,1,1:A=BUTTON(1):BREPEAT 4,0,3:B=BTRIG()\r",{{0},{0,B_A},{0,B_A|B_B},{0,B_A}},4,R_IN},
 {0,"A=TCHX:B=TCHY:C=TCHST:D=TCHTIME\r",{{0},{0,0,true,9,200},{0,0,true,250,3},{0}},4,R_IN},
 {0,"A=TCHTIME:B=TCHST:C=TCHX\r",{{0},{0,0,true,9,200},{0,0,true,9,200},{0,0,true,250,3}},4,R_IN},
 {0,"A$=INKEY$():B$=INKEY$():C$=INKEY$()\r",{{0},{"xy"},{"z"}},3,R_IN},
 {0,"FOR I=1 TO 3:A$=A$+INKEY$():NEXT\r",{{0},{"x"},{"yz"}},3,R_IN},
};
static const scen panels[]={
 {"PNLTYPE \"KYA\"\r","PNLTYPE \"OFF\"\r",{{0},{0,0,true,40,80},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYA\"\r","PNLTYPE \"PNL\":PNLTYPE \"KYK\"\r",{{0},{0,0,true,40,80},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYM\"\r","PNLTYPE \"KYA\"\r",{{0},{0,0,true,20,150},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYA\"\r","PNLTYPE \"OFF\"\r",{{0},{0,0,true,20,130},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYA\":KEY 1,\"ABC\"\r","KEY 1,\"XY\"\r",{{0},{0,0,true,4,4},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYA\":KEY 1,\"A\"\r","KEY 1,\"WXYZ\"\r",{{0},{0,0,true,4,4},{0}},3,R_PNL|R_IN},
 {"PNLTYPE \"KYA\"\r","A=KEYBOARD:B=FUNCNO:C=KEYBOARD\r",{{0},{0,0,true,40,80},{0,0,true,4,4},{0}},4,R_PNL|R_IN},
 {"PNLTYPE \"PNL\":ICONPUSE=1:ICONPMAX=3:ICONSET 0,64:ICONSET 1,64\r","A=ICONCHK():B=ICONCHK()\r",{{0},{0,0,true,60,180},{0}},3,R_PNL},
 {"PNLTYPE \"PNL\":ICONPUSE=1:ICONPMAX=3:ICONPAGE=1\r","ICONPAGE=3:A=ICONPAGE\r",{{0},{0,0,true,4,172},{0}},3,R_PNL},
 {"PNLTYPE \"PNL\":ICONPUSE=1:ICONPMAX=3:ICONPAGE=3\r","ICONPMAX=1:A=ICONPAGE:B=ICONPMAX\r",{{0},{0,0,true,4,186},{0}},3,R_PNL},
 {"PNLTYPE \"KYA\"\r","A$=INKEY$():B$=INKEY$()\r",{{0},{"q",0,true,40,80},{0}},3,R_PNL|R_IN},
};
static const scen sprites[]={
 {"SPSET 0,0,0,0,0,0:SPOFS 0,10,20\r","SPOFS 0,100,50\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPOFS 0,10,20,5\r","SPOFS 0,100,50\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPOFS 0,10,20,1\r","SPOFS 0,100,50,3\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPOFS 0,10,20,4\r","SPREAD (0),X,Y:A=X\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPANGLE 0,90,3\r","SPANGLE 0,45\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPANGLE 0,90,1\r","SPANGLE 0,45,2:SPREAD (0),X,Y,R\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPSCALE 0,50,2\r","SPSCALE 0,150\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPSCALE 0,50,1\r","SPSCALE 0,150,3\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPANIM 0,4,1,0\r","SPCHR 0,7\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPANIM 0,2,1,1\r","SPANIM 0,3,2,2\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPANIM 0,2,1,0:SPOFS 0,9,9,3\r","SPSET 0,5,0,0,0,0\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPOFS 0,9,9,3\r","SPCLR 0\r",{{0},{0},{0}},3,R_SPR},
 {"SPSET 0,0,0,0,0,0:SPSET 1,0,0,0,0,0:SPOFS 1,60,0,2\r","A=SPHIT(0):B=SPHITSP(0,1):SPOFS 1,60,0:C=SPHITSP(0,1)\r",{{0},{0},{0}},3,R_SPR},
};
static const scen bgs[]={
 {"BGOFS 0,80,40,3\r","BGOFS 0,8,16\r",{{0},{0},{0}},3,R_BG},
 {"BGOFS 0,80,40,1\r","BGOFS 0,8,16,2\r",{{0},{0},{0}},3,R_BG},
 {"BGOFS 0,80,40,2\r","BGOFS 0,8,16,0:BGOFS 0,3,3\r",{{0},{0},{0}},3,R_BG},
 {"BGOFS 1,80,40,2\r","A=BGCHK(1):B=BGCHK(1)\r",{{0},{0},{0}},3,R_BG},
};
static void s_scen(const scen* t, int n){ int i=mc_choose(n); conform(&t[i],mc_thorough?3:2); }
static void s_inputs(void){ s_scen(inputs,sizeof inputs/sizeof *inputs); }
static void s_panels(void){ s_scen(panels,sizeof panels/sizeof *panels); }
static void s_sprites(void){ s_scen(sprites,sizeof sprites/sizeof *sprites); }
static void s_bgs(void){ s_scen(bgs,sizeof bgs/sizeof *bgs); }
// ---- every schedule of one scenario with up to 'bound' preemptions, judged by 'judge'
static uint64_t schedules(const scen* s, int bound, void (*more)(void), void (*judge)(bool)){
	prepare(s); if (more) more(); mode_=FINE; explore=false; nswl=0; execute(); long n0=npts; judge(false);
	int k1=mc_range(n0+1); if (k1==n0) return 0;
	mc_desc(", preempted at %d",k1); prepare(s); if (more) more(); nswl=1; sw[0]=k1; explore=true; mc_fault_bound=bound-1; execute(); if (!nsw) mc_skip();
	judge(true); mc_trans(1); mc_validated(1); uint64_t h=mc_mix(mc_hash(s,sizeof(void*)),mc_mix(k1,npts)); mc_nontrivial(h); return h; }
static void tell(const scen* s){ mc_desc("%s%s%s with",s->setup?s->setup:"",s->setup?" then ":"",s->text?s->text:"the system"); for (int i=0;i<s->n;++i){ mc_desc(" frame %d:",i); if (s->f[i].text) mc_desc(" \"%s\"",s->f[i].text); if (s->f[i].buttons) mc_desc(" buttons %x",s->f[i].buttons); if (s->f[i].touch) mc_desc(" touch %d,%d",s->f[i].x,s->f[i].y); } }
// keys: every key arrives once, in order; keys are only refused while 256 are waiting
static const scen keys_[]={
 {0,"A$=INKEY$()+INKEY$()+INKEY$()\r",{{0},{"xy"},{"z"}},3,R_IN},
 {0,"A$=INKEY$():B=LEN(A$):A$=A$+INKEY$()\r",{{0},{"xyzuvw"},{"klm"}},3,R_IN},
 {"PNLTYPE \"KYA\":KEY 1,\"ABC\"\r","A$=INKEY$()+INKEY$()\r",{{0},{"xy",0,true,4,4},{"z"}},3,R_IN},
 {"PNLTYPE \"KYA\"\r","A$=INKEY$()+INKEY$()\r",{{0},{"x",0,true,40,80},{"z"},{0,0,true,40,80}},4,R_IN},
 {0,"@A\rA$=A$+INKEY$():IF LEN(A$)<3 THEN @A\r",{{0},{"x"},{"y"},{"z"}},4,R_IN},
};
static int kbase, kfill; static const int kbases[]={0,252,253,254,255,100}, kfills[]={0,1,250,253,254,255,256};
static void k_prefill(void){ struct input* i=&P->input; while (get_inkey(i)); for (int k=0;k<kbase;++k){ set_inkey(i,to_wide('-')); get_inkey(i); } for (int k=0;k<kfill;++k) set_inkey(i,to_wide('a'+k%26)); prefill=kfill; slice_max=40; }
static void k_judge(bool pre){
	char want[700]; int l=0; for (int k=0;k<kfill;++k) want[l++]='a'+k%26; memcpy(want+l,klog,nklog); l+=nklog; want[l]=0;
	char got[700]; strcpy(got,sys_strz("A")); int g=strlen(got); u16 c; while (g<690&&(c=get_inkey(&P->input))) got[g++]=to_char(c); got[g]=0;
	if (prc) mc_fail("the program ends with %s",errname(prc));
	if (strcmp(want,got)) mc_fail("typed \"%s\", but the program reads \"%s\"",want,got); mc_outcome(mc_hash(got,g)); mc_state(mc_mix(mc_hash(sys_strz("A"),20),mc_hash(got,g))); }
static void s_keys(void){ int i=mc_choose(sizeof keys_/sizeof *keys_); kbase=kbases[mc_choose(6)]; kfill=kfills[mc_choose(i==4?2:7)]; tell(&keys_[i]); mc_desc(" with %d keys waiting from place %d",kfill,kbase); schedules(&keys_[i],mc_thorough?3:2,k_prefill,k_judge); }
// editing keys of INPUT: a key held for one frame counts at most once, and once if nobody is delayed
static const scen edits_[]={
 {0,"LINPUT A$\r",{{"abc"},{0},{0,0,true,236,60},{0},{0},{0,0,true,236,130},{0}},7,R_IN|R_PNL},
 {0,"LINPUT A$\r",{{"abc"},{0},{0,0,true,236,60},{0,0,true,236,60},{0,0,true,236,60},{0},{0,0,true,236,130},{0}},8,R_IN|R_PNL},
 {0,"LINPUT A$\r",{{"abc"},{0},{0,1<<2},{0,1<<2},{0,0,true,220,150},{0},{0,0,true,236,130},{0}},8,R_IN|R_PNL},
};
static void e_more(void){ P->console.test_mode=false; may_run_on=true; }
static int eidx;
static void e_judge(bool pre){ const char* a=sys_strz("A"); if (prc) mc_fail("LINPUT ends with %s",errname(prc));
	bool ok=pre?(!strcmp(a,"ab")||!strcmp(a,"abc")):!strcmp(a,"ab"); if (!ok) mc_fail("LINPUT gives \"%s\"",a); mc_outcome(mc_hash(a,strlen(a))); mc_state(mc_mix(eidx,mc_hash(a,strlen(a)))); }
static void s_edits(void){ eidx=mc_choose(sizeof edits_/sizeof *edits_); tell(&edits_[eidx]); schedules(&edits_[eidx],mc_thorough?3:2,e_more,e_judge); }
// BREAK: a running program always ends when SELECT or the ESC key is pressed
static const char* const loops[]={ "@A\rGOTO @A\r","@A\rA=A+1:B$=STR$(A)+B$:B$=\"\"\rGOTO @A\r","FOR I=0 TO 1 STEP 0:NEXT\r","@A\rGOSUB @B\rGOTO @A\r@B\rRETURN\r","@A\rON 0 GOTO @A\r","@A\rIF 1 THEN @A\r","@A\rFOR I=0 TO 1:NEXT\rGOTO @A\r","WAIT 9999\r","VSYNC 9999\r","INPUT A\r","LINPUT A$\r","INPUT \"X\";A$\r","@A\rA$=INKEY$():IF A$==\"\" THEN @A\rGOTO @A\r","@A\rCLEAR\rGOTO @A\r","@A\rACLS\rGOTO @A\r","@A\rREAD A:RESTORE @D\rGOTO @A\r@D\rDATA 1\r","RUN\r","A=1:RUN\r","EXEC \"PRGL\"\r","@A\rBGREAD (0,0,0),A:SPCLR\rGOTO @A\r","@A\rVSYNC 1\rGOTO @A\r","@A\rPRINT A;\rGOTO @A\r","@A\rSWAP A,B:DTREAD (\"2000/01/01\"),A,B,C\rGOTO @A\r","@A\rLOAD \"MEM:NONE\",0\rGOTO @A\r","@A\rA=RND(5):PNLTYPE \"KYA\"\rGOTO @A\r" };
static int run_prg(void* a){ struct bytecode* b=sys_bc(); strcpy((char*)P->exec.prg.data,ptext); P->exec.prg.size=strlen(ptext); prc=token_and_run(P,&P->exec.prg,b,popts); return 0; }
static void b_more(void){ prog=run_prg; slice_max=mc_thorough?17:9; may_run_on=true; max_frames=400; }
static void b_judge(bool pre){ if (!broken){ if (!pre) mc_fail("the program ends with %s before BREAK",errname(prc)); mc_skip(); } if (prc!=ERR_BREAK) mc_fail("the program ends with %s after BREAK",errname(prc)); mc_state(sys_hash_console()); mc_outcome(mc_mix(mc_hash(ptext,strlen(ptext)),sys_hash_console())); }
static void s_break(void){ static scen s; int i=mc_choose(sizeof loops/sizeof *loops); memset(&s,0,sizeof s); s.setup="PNLTYPE \"KYA\"\r"; s.text=loops[i]; s.n=4; int f=1+mc_choose(3); if (mc_choose(2)){ s.f[f].touch=true; s.f[f].x=10; s.f[f].y=60; } else s.f[f].buttons=1<<11; tell(&s); schedules(&s,mc_thorough?strstr(s.text,"ACLS")||strstr(s.text,"EXEC")||strstr(s.text,"RUN")?2:3:(i>=7&&i<=11)||i==21||i<2?2:1,b_more,b_judge); }
// the end: closing the window ends the program thread and the system, whatever runs
static int sclose; static bool sauto;
static void d_more(void){ prog=NULL; slice_max=mc_thorough?13:7; close_at=sclose; max_frames=100; ac=1; if (sauto){ ac=2; av[1]="PRGL"; } }
static void d_judge(bool pre){ mc_state(sys_hash_console()); mc_outcome(sys_hash_console()); if (!done[PT]) mc_fail("the system ends before the program"); }
static void s_end(void){ static scen s; memset(&s,0,sizeof s); static const char* const ln[]={"","@A:GOTO @A","INPUT A","A=1/0","RUN","WAIT 999","ACLS"}; int i=mc_choose(8); sauto=i==7; s.setup=""; s.text=NULL; s.n=5; if (i<7){ s.f[0].text=ln[i]; s.f[2].touch=true; s.f[2].x=236; s.f[2].y=130; } sclose=mc_choose(mc_thorough?7:5); mc_desc("%s, closed in frame %d: ",sauto?"started with PRGL":"prompt",sclose); tell(&s); schedules(&s,mc_thorough?3:2,d_more,d_judge); }
// text typed on the keyboard of the host: a character with a code arrives as this character, others do not arrive
static u32 ub[200]; static int nub;
static void u_more(void){ uni=ub; nuni=nub; }
static void u_judge(bool pre){ static u8 got[800]; int g=0; u16 c; int k=0;
	while ((c=get_inkey(&P->input))&&g<700) got[g++]=to_char(c);
	for (int j=0;j<nub;++j){ u32 u=ub[j]; int want=-1; if (u>=32&&u<127) want=u; else if (u>0x3000&&u<0x3100) for (int q=0xa1;q<0xe0;++q) if (to_wide(q)==u) want=q; if (u<32||u==127||u==128) continue;
		if (want<0) continue; if (k>=g||got[k]!=want) mc_fail("U+%04X arrives as %d (%d of %d) instead of %d",u,k<g?got[k]:-1,k,g,want); ++k; }
	if (k!=g) mc_fail("%d keys arrive instead of %d",g,k); mc_state(mc_hash(got,g)); mc_outcome(mc_hash(got,g)); mc_validated(nub); }
static void s_typed(void){ static const scen s={0,"WAIT 3\r",{{0},{0},{0},{0},{0}},5,R_IN}; int page=mc_range(0x110000/128); nub=0; for (int i=0;i<128;++i){ u32 u=page*128+i; if (u>=32&&u!=127&&u!=128) ub[nub++]=u; } mc_desc("characters U+%04X to U+%04X",page*128,page*128+127); prepare(&s); u_more(); mode_=NONE; explore=false; nswl=0; execute(); u_judge(false); mc_trans(nub); mc_nontrivial(mc_mix(page,nub)); }
// BREAK from any state of the buttons and panels
static void s_signal(void){ static const scen s={0,"",{{0}},1,0}; int a=mc_range(4096),way=mc_choose(4),n=mc_choose(2)+1; if (!mc_thorough&&a%5&&__builtin_popcount(a)>2) mc_skip(); prepare(&s); mc_desc("buttons %x for %d frames, then ",a,n);
	if (way==0){ for (int b=0;b<4096;++b){ set_input(P,0); for (int i=0;i<n;++i) set_input(P,a); P->exec.error=0; set_input(P,b); if ((b&~a)>>11&1){ if (P->exec.error!=ERR_BREAK) mc_fail("buttons %x: SELECT gives %s",b,errname(P->exec.error)); } else if (!(b>>11&1)&&P->exec.error) mc_fail("buttons %x: %s without SELECT",b,errname(P->exec.error)); } mc_validated(4096); mc_trans(4096); }
	else { static const char* const tn[]={"KYA","KYM","KYK"}; must("PNLTYPE \"%s\"",tn[way-1]); for (int k=0;k<4;++k){ if (k){ set_touch(&P->input,true,k&1?10:8,k&1?130:150); press_key(P,true,k&1?10:8,k&1?130:150); set_touch(&P->input,false,0,0); press_key(P,false,0,0); } for (int i=0;i<n;++i) set_input(P,a); P->exec.error=0; set_input(P,a); set_touch(&P->input,true,10,60); press_key(P,true,10,60); if (P->exec.error!=ERR_BREAK) mc_fail("the ESC key gives %s",errname(P->exec.error)); set_touch(&P->input,false,0,0); press_key(P,false,0,0); P->exec.error=0; for (int i=0;i<40;++i){ set_input(P,a); press_key(P,false,0,0); } if (P->exec.error) mc_fail("%s although nothing was pressed",errname(P->exec.error)); } mc_validated(4); mc_trans(4); }
	mc_nontrivial(mc_mix(a,way*2+n)); mc_state(mc_mix(a,way*2+n)); mc_outcome(mc_mix(way,n)); }
static int syscfgprg=4096;
static void boot_(void){
	for (int i=0;i<2;++i) if (!stk[i]) stk[i]=mmap(NULL,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("programs",0700); mkdir("resources",0700);
	FILE* f=__real_fopen("resources/config.txt","w"); for (int m=0;m<2;++m){ for (int i=0;i<13;++i) fprintf(f,"%d ",m?100+i:i); fprintf(f,"\n"); } __real_fclose(f);
	FILE* g=__real_fopen("programs/PRGL.PTC","w"); { char h[36]={0}; const char* t="EXEC \"PRGL\"\r"; memcpy(h,"PETC0300RPRG",12); u32 n=strlen(t); memcpy(h+20,&n,4); fwrite(h,1,24,g); fwrite(t,1,n,g); } __real_fclose(g);
	sys_cfg.prg=syscfgprg; sys_on_sleep=slept; sys_boot(); P->console.test_mode=false; P->res.search_path="programs/"; sys_sleep_limit=100000; sys_snapshot();
}
static void boot_end(void){ syscfgprg=0; boot_(); }
const mc_suite mc_suites[]={{"inputs",s_inputs,MC_QT,boot_},{"panels",s_panels,MC_QT,boot_},{"sprites",s_sprites,MC_QT,boot_},{"backgrounds",s_bgs,MC_QT,boot_},{"keys",s_keys,MC_QT,boot_},{"edits",s_edits,MC_QT,boot_},{"break",s_break,MC_QT,boot_},{"end",s_end,MC_QT,boot_end},{"typed",s_typed,MC_QT,boot_},{"signal",s_signal,MC_QT,boot_}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

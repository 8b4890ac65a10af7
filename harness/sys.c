#include "sys.h"
#include <stdarg.h>
#include <threads.h>
#include <sanitizer/asan_interface.h>
#undef printf
#undef abort

struct ptc* P;
struct sys_cfg sys_cfg = { 64, 32, 1024, 16384, 400, 64, 0 };
bool sys_restore_big;
void (*sys_on_sleep)(void);
int sys_sleeps, sys_sleep_limit = 100000;

// ---- crash traps
void mc_abort_trap(void){ mc_crash("abort() called by the interpreter"); }
void __assert_fail(const char* a, const char* f, unsigned l, const char* fn){
	char b[512]; snprintf(b,sizeof b,"assertion failed: %s (%s:%u %s)",a,f,l,fn); mc_crash(b);
}
__attribute__((weak)) void init_display(struct ptc* p){ (void)p; }
__attribute__((weak)) void free_display(struct display* d){ (void)d; }

int __wrap_thrd_sleep(const struct timespec* a, struct timespec* b){
	(void)a;(void)b;
	if (++sys_sleeps > sys_sleep_limit) mc_fail("waits forever (no progress after %d sleeps)", sys_sleep_limit);
	if (sys_on_sleep) sys_on_sleep();
	else inc_time(&P->time);
	return 0;
}

// ---- allocator with red zones (the allocator itself is exercised by its own suite)
void* __real_sbc_malloc(int); void* __real_sbc_calloc(int,int);
#define RZ 32
static struct blk { u8* p; int n; bool big; } blks[512]; static int nblk;
static u8 *arena, *top;
static bool booted;
bool sys_plain; // no red zones: the whole arena may be accessed
void* __wrap_sbc_malloc(int size){
	if (sys_plain){
		u8* q = __real_sbc_malloc(0); int a = (16 - ((uintptr_t)q & 15)) & 15; if (a) __real_sbc_malloc(a);
		u8* r = __real_sbc_malloc(size); if (r && !booted && nblk < 512) blks[nblk++] = (struct blk){r,size,size>=32768};
		return r;
	}
	u8* z = __real_sbc_malloc(0);
	int pad = (16 - ((uintptr_t)z & 15)) & 15;
	z = __real_sbc_malloc(pad + RZ);
	if (!z) return NULL;
	ASAN_POISON_MEMORY_REGION(z, pad + RZ);
	u8* r = __real_sbc_malloc(size);
	if (!r) return NULL;
	if (size < 0) return r;
	u8* t = __real_sbc_malloc(RZ);
	if (!t) { return NULL; }
	ASAN_UNPOISON_MEMORY_REGION(r, size);
	ASAN_POISON_MEMORY_REGION(t, RZ);
	if (!booted && nblk < 512) blks[nblk++] = (struct blk){r,size,size>=32768};
	return r;
}
void* __wrap_sbc_calloc(int c, int s){ void* p = __wrap_sbc_malloc(c*s); if (p) memset(p,0,(size_t)c*s); return p; }

static struct bytecode BC;
static u8* image; static int image_top;
__attribute__((no_sanitize("address","undefined"),noinline))
static void rawcpy(void* d, const void* s, size_t n){ __asm__ volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }

void sys_snapshot(void){
	top = __real_sbc_malloc(0); image_top = top - arena;
	free(image); image = malloc(image_top);
	for (int i=0;i<nblk;++i) rawcpy(image + (blks[i].p-arena), blks[i].p, blks[i].n);
	booted = true;
	if (!sys_plain) ASAN_POISON_MEMORY_REGION(top, arena + MAX_MEMORY - top);
}
void sys_boot(void){
	init_memory(MAX_MEMORY);
	arena = sbc_membase;
	P = init_system(sys_cfg.vars, sys_cfg.strs, sys_cfg.arr, true);
	P->console.test_mode = true;
	P->res.search_path = "/nonexistent/";
	BC = init_bytecode_size(sys_cfg.bc, sys_cfg.lines, sys_cfg.labels);
	for (int i=0;i<nblk;++i) if (blks[i].p == (u8*)P) blks[i].big = false;
	if (sys_cfg.prg) init_mem_prg(&P->exec.prg, sys_cfg.prg);
	sys_snapshot();
	if (getenv("SYS_DEBUG")) for (int i=0;i<nblk;++i) fprintf(stderr,"blk %d size %d big %d\n",i,blks[i].n,blks[i].big);
}
static u8* srcbuf; static int srccap = -1;
void sys_reset(void){
	for (int i=0;i<nblk;++i){
		if (blks[i].big && !sys_restore_big) continue;
		rawcpy(blks[i].p, image + (blks[i].p-arena), blks[i].n);
	}
	u8* t = __real_sbc_malloc(0);
	if (t != top){ reset_memory(); __real_sbc_malloc(image_top); ASAN_POISON_MEMORY_REGION(top, t > top ? t - top : 0); }
	sys_sleeps = 0;
}
int sys_runn(const char* src, int len, int opts){
	if (srcbuf) { free(srcbuf); srcbuf = NULL; }
	srcbuf = malloc(len ? len : 1);
	memcpy(srcbuf, src, len);
	struct program prg = { len, (char*)srcbuf };
	mc_trans(1);
	return token_and_run(P, &prg, &BC, opts);
}
int sys_compile(const char* src, int opts){ // for sys_go
	static char* keep; free(keep); int len = strlen(src); keep = malloc(len+1); memcpy(keep,src,len);
	struct program prg = { len, keep };
	int e = tokenize_full(&prg, &BC, P, opts); if (!e) { P->exec.code = BC; }
	return e;
}
int sys_go(void){ P->exec.error = 0; P->calls.stack_i = 0; run(BC, P); return P->exec.error; }
int sys_run(const char* src, int opts){ return sys_runn(src, strlen(src), opts); }

struct named_var* sys_find(const char* name, int type){
	size_t l = strlen(name);
	for (unsigned i=0;i<P->vars.vars_max;++i){
		struct named_var* v = &P->vars.vars[i];
		if (v->type != type) continue;
		if (!strncmp(v->name,name,16) && (l>=16 || v->name[l]==0)) return v;
	}
	return NULL;
}
fixp sys_num(const char* n){ struct named_var* v = sys_find(n,VAR_NUMBER); return v ? v->value.number : 0; }
int sys_strv(const void* s, u8* out){
	if (!s) return -1;
	int n = str_len(s);
	for (int i=0;i<n;++i){
		int c = str_type(s)==STR_TYPE_8 ? *(u8*)str_at(s,i) : to_char(*(u16*)str_at(s,i));
		out[i] = c;
	}
	out[n]=0;
	return n;
}
int sys_str(const char* n, u8* out){
	struct named_var* v = sys_find(n,VAR_STRING);
	if (!v){ out[0]=0; return 0; }
	return sys_strv(v->value.ptr,out);
}
const char* sys_strz(const char* n){ static u8 b[4][600]; static int k; k=(k+1)&3; u8 t[300]; int l=sys_str(n,t); int j=0;
	for (int i=0;i<l && j<590;++i) if (t[i]>=32&&t[i]<127) b[k][j++]=t[i]; else j+=sprintf((char*)b[k]+j,"\\x%02x",t[i]);
	b[k][j]=0; return (char*)b[k]; }
uint64_t sys_hash_vars(void){
	uint64_t h = 0;
	for (unsigned i=0;i<P->vars.vars_max;++i){
		struct named_var* v = &P->vars.vars[i];
		if (v->type == VAR_EMPTY) continue;
		uint64_t e = mc_hash(v->name,strnlen(v->name,16)); e = mc_mix(e,v->type);
		if (v->type == VAR_NUMBER) e = mc_mix(e,(u32)v->value.number);
		else if (v->type == VAR_STRING){ u8 b[600]; int l = v->value.ptr ? sys_strv(v->value.ptr,b) : 0; e = mc_mix(e,mc_hash(b,l)); }
		else if (v->value.ptr){
			u32 d1 = arr_size(v->value.ptr,0), d2 = arr_size(v->value.ptr,1);
			e = mc_mix(mc_mix(e,d1),d2);
			u32 n = d1 * (d2==ARR_DIM2_UNUSED?1:d2); if (n > 256) n = 256;
			union value* a = arr_data(v->value.ptr);
			for (u32 j=0;j<n;++j){
				if (v->type & VAR_NUMBER) e = mc_mix(e,(u32)a[j].number);
				else { u8 b[600]; int l = sys_strv(a[j].ptr,b); e = mc_mix(e,mc_hash(b,l)); }
			}
		}
		h += e;
	}
	return h;
}
uint64_t sys_hash_console(void){
	struct console* c = &P->console;
	uint64_t h = mc_hash(c->text,sizeof c->text);
	h = mc_mix(h,mc_hash(c->color,sizeof c->color));
	return mc_mix(mc_mix(h,c->x),mc_mix(c->y,c->col));
}
int sys_live_strings(void){ int n=0; for (unsigned i=0;i<P->strs.strs_max;++i) n += P->strs.strs[i].uses > 0; return n; }
int sys_ref_strings(bool* ok){
	static int refs[4096]; memset(refs,0,sizeof refs);
	for (unsigned i=0;i<P->vars.vars_max;++i){
		struct named_var* v = &P->vars.vars[i];
		if (v->type == VAR_STRING){
			struct string* s = v->value.ptr;
			if (s >= P->strs.strs && s < P->strs.strs + P->strs.strs_max) refs[s-P->strs.strs]++;
		} else if (v->type == (VAR_STRING|VAR_ARRAY) && v->value.ptr){
			u32 d1 = arr_size(v->value.ptr,0), d2 = arr_size(v->value.ptr,1);
			u32 n = d1 * (d2==ARR_DIM2_UNUSED?1:d2);
			union value* a = arr_data(v->value.ptr);
			for (u32 j=0;j<n;++j){ struct string* s = a[j].ptr; if (s >= P->strs.strs && s < P->strs.strs + P->strs.strs_max) refs[s-P->strs.strs]++; }
		}
	}
	struct string* m[1] = { P->res.mem_ptr };
	for (int i=0;i<1;++i) if (m[i] >= P->strs.strs && m[i] < P->strs.strs + P->strs.strs_max) refs[m[i]-P->strs.strs]++;
	int n=0; bool good = true;
	for (unsigned i=0;i<P->strs.strs_max;++i){ if (refs[i]) ++n; if (refs[i] != (int)P->strs.strs[i].uses) good = false; }
	if (ok) *ok = good;
	return n;
}
const char* errname(int e){ return e>=0 && e<80 ? error_messages[e] : "?"; }
fixp fx(double d){ return (fixp)(d*4096.0); }
void sb_init(sb* b){ b->n=0; b->s[0]=0; }
void sb_add(sb* b, const char* f, ...){ va_list a; va_start(a,f); b->n += vsnprintf(b->s+b->n,sizeof b->s-b->n,f,a); va_end(a); if (b->n > (int)sizeof b->s-1) b->n = sizeof b->s-1; }
const char* sys_row(int y){
	static char b[4][40]; static int k; k=(k+1)&3; char* r=b[k];
	for (int x=0;x<32;++x){ int c=to_char(P->console.text[y][x]); r[x]= c==0?' ':(c<32||c>126)?'?':c; }
	int n=32; while (n && r[n-1]==' ') --n; r[n]=0; return r;
}
const char* sys_eval(const char* e, int opts, int* err){
	char b[900]; int er=sys_run("CLS\r",opts); (void)er;
	snprintf(b,sizeof b,"?%s\r",e); er=sys_run(b,opts); if (err) *err=er; return sys_row(0);
}
void sys_boot_small(int vars,int strs,int arr){ if (vars) sys_cfg.vars=vars; if (strs) sys_cfg.strs=strs; if (arr) sys_cfg.arr=arr; sys_boot(); }

// ---- comparison of the whole system with the image taken at the last snapshot
static struct { const u8* p; size_t n; } ign[64]; static int nign;
void sys_ignore(const void* p, size_t n){ ign[nign].p=p; ign[nign++].n=n; }
__attribute__((no_sanitize("address","undefined"),noinline)) static size_t rawdiff(const u8* a, const u8* b, size_t i, size_t n){ for (;i<n;++i) if (a[i]!=b[i]) return i; return n; }
__attribute__((no_sanitize("address","undefined"),noinline)) static bool rawsame(const u8* a, const u8* b, size_t n){ bool r; __asm__ volatile("cmp %%rax,%%rax; repe cmpsq; sete %0":"=r"(r),"+S"(a),"+D"(b),"+c"(n)::"memory","cc"); return r; }
const void* sys_diff(void){ // first changed byte that is not ignored
	for (int i=0;i<nblk;++i){
		if (blks[i].big && !sys_restore_big) continue;
		const u8* a=blks[i].p, *b=image+(a-arena); size_t n=blks[i].n, k=0;
		if (n>64 && rawsame(a,b,n/8)) k=n&~7ul;
		for (;;){
			k=rawdiff(a,b,k,n); if (k==n) break;
			int j; for (j=0;j<nign;++j) if (a+k>=ign[j].p && a+k<ign[j].p+ign[j].n) break;
			if (j==nign) return a+k;
			k=ign[j].p+ign[j].n-a; if (k>=n) break;
		}
	}
	return NULL;
}
u8 sys_image(const void* p){ return image[(const u8*)p-arena]; }
void* sys_block(const void* p, int* n){ for (int i=0;i<nblk;++i) if ((u8*)p>=blks[i].p && (u8*)p<blks[i].p+blks[i].n){ *n=blks[i].n; return blks[i].p; } return NULL; }
struct bytecode* sys_bc(void){ return &BC; }

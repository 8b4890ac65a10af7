#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <dirent.h>
#undef printf

#define MAXPATH 4096
#define DESC 8192
#define MAXW 16
#define MAXV 48
#define HBITS 23
#define NSAMPLES 12

struct pathbuf { int len; int n[MAXPATH]; int c[MAXPATH]; };
struct slot {
	atomic_long beat;
	int busy;
	int boot;           // starting the system, before any case
	int idx;            // prefix index being explored
	int claim;          // prefix index this worker is heading for
	int plen;           // prefix length (choices below this are fixed)
	struct pathbuf path;
	char desc[DESC];
	int desclen;
};
struct viol {
	int suite; int kind;     // 0 fail, 1 crash, 2 hang
	int plen;
	struct pathbuf path;
	char desc[DESC];
	char msg[4096];
};
struct shared {
	atomic_int next;         // next prefix index
	atomic_int stop;
	atomic_int nviol;
	atomic_int nknown_hits;
	atomic_long execs, trans, skips, nontriv, validated, states, outcomes, known;
	atomic_int states_full;
	atomic_int nsamples;
	atomic_int samples_seen;
	char samples[NSAMPLES][1024];
	struct viol v[MAXV];
	struct slot slot[MAXW];
	atomic_ulong table[1u << HBITS];
	char known_seen[256];
};
static struct shared* sh;
static int scan_mode;
int mc_thorough, mc_replaying;
static struct slot* me;
static int cur_suite;
static jmp_buf case_jmp;
enum { J_CUT = 1, J_FAIL, J_SKIP, J_CRASH };
static int in_case;
static int pos;
static long long prod;
static int split = 192;
static char failmsg[4096];
static int faults_used;
int mc_fault_bound = 1000000;
const char* mc_scratch;
static int nworkers = 8;
static int case_cpu = 8;
static double t_limit = 700;
static struct timespec t0;
static int mystderr = -1;

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t);
	return (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)/1e9; }

uint64_t mc_hash(const void* d, size_t n){
	const unsigned char* p = d; uint64_t h = 1469598103934665603ull;
	for (size_t i=0;i<n;++i){ h ^= p[i]; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}

static int table_add(uint64_t h){
	if (!h) h = 1;
	uint64_t m = (1u<<HBITS)-1;
	uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> (64-HBITS);
	for (int k=0;k<64;++k){
		uint64_t cur = atomic_load_explicit(&sh->table[i], memory_order_relaxed);
		if (cur == h) return 0;
		if (!cur){
			unsigned long z = 0;
			if (atomic_compare_exchange_strong(&sh->table[i], &z, h)) return 1;
			if (z == h) return 0;
		}
		i = (i+1) & m;
	}
	sh->states_full = 1; // table too full: later states are not counted as new
	return -1;
}
bool mc_state(uint64_t h){ if (scan_mode||mc_replaying) return true; int r = table_add(mc_mix(h,11)); if (r==1) atomic_fetch_add(&sh->states,1); return r!=0; }
void mc_outcome(uint64_t h){ if (scan_mode||mc_replaying) return; if (table_add(mc_mix(h,22))==1) atomic_fetch_add(&sh->outcomes,1); }
void mc_nontrivial(uint64_t h){ if (scan_mode||mc_replaying) return; if (table_add(mc_mix(h,33))==1) atomic_fetch_add(&sh->nontriv,1); }
void mc_trans(int n){ if (scan_mode||mc_replaying) return; atomic_fetch_add_explicit(&sh->trans,n,memory_order_relaxed); }
void mc_validated(int n){ if (scan_mode||mc_replaying) return; atomic_fetch_add_explicit(&sh->validated,n,memory_order_relaxed); }
void mc_no_case_timer(int s){ case_cpu = s; }

static void die(const char* m){ fprintf(stderr,"mc: %s\n", m); _exit(77); }

static int choose(int n){
	struct pathbuf* p = &me->path;
	if (n <= 0) die("choose(0)");
	if (pos >= MAXPATH) die("path too long");
	if (scan_mode && prod >= split){ longjmp(case_jmp, J_CUT); }
	if (pos < p->len){
		if (p->n[pos] != n){
			fprintf(stderr,"mc: divergence at choice %d: had %d now %d (suite %s) case: %s\n", pos, p->n[pos], n, mc_suites[cur_suite].name, me->desc);
			_exit(78);
		}
	} else {
		p->n[pos] = n; p->c[pos] = 0; p->len = pos+1;
	}
	prod *= n;
	return p->c[pos++];
}
int mc_choose(int n){ if (n == 1) return 0; return choose(n); }
int mc_range(int n){
	if (n <= 64) return mc_choose(n);
	int hi = mc_choose((n + 63) / 64);
	int lo = mc_choose(n - hi*64 < 64 ? n - hi*64 : 64);
	return hi*64 + lo;
}
int mc_fault(int n){
	if (faults_used >= mc_fault_bound) return 0;
	int c = mc_choose(n);
	if (c) ++faults_used;
	return c;
}

void mc_desc_bytes(const char* s, int n){
	for (int i=0;i<n;++i){
		unsigned char c = s[i];
		if (me->desclen > DESC-8) return;
		if (c == '\r') { me->desc[me->desclen++]='\\'; me->desc[me->desclen++]='r'; }
		else if (c == '\\') { me->desc[me->desclen++]='\\'; me->desc[me->desclen++]='\\'; }
		else if (c >= 32 && c < 127) me->desc[me->desclen++]=c;
		else me->desclen += sprintf(me->desc+me->desclen,"\\x%02x",c);
	}
	me->desc[me->desclen]=0;
}
void mc_desc(const char* fmt, ...){
	char b[DESC]; va_list a; va_start(a,fmt); int n = vsnprintf(b,sizeof b,fmt,a); va_end(a);
	if (n > (int)sizeof b-1) n = sizeof b-1;
	mc_desc_bytes(b,n);
}
void mc_fail(const char* fmt, ...){
	va_list a; va_start(a,fmt); vsnprintf(failmsg,sizeof failmsg,fmt,a); va_end(a);
	if (!in_case){ fprintf(stderr,"%s%s\n",me&&me->boot?"":"mc_fail outside case: ",failmsg); _exit(me&&me->boot?76:77); }
	longjmp(case_jmp,J_FAIL);
}
void mc_crash(const char* what){
	snprintf(failmsg,sizeof failmsg,"%s",what);
	if (!in_case){ fprintf(stderr,"crash outside case: %s\n",what); _exit(me&&me->boot?76:77); }
	longjmp(case_jmp,J_CRASH);
}
void mc_skip(void){ longjmp(case_jmp,J_SKIP); }

static void on_cpu(int s){ (void)s; _exit(98); }

// runs the body once on me->path; returns J_* or 0
static volatile int last_skipped;
static int run_once(void){
	pos = 0; prod = 1; faults_used = 0; me->desclen = 0; me->desc[0]=0;
	struct itimerval it = {{0,0},{case_cpu,0}};
	setitimer(ITIMER_VIRTUAL,&it,NULL);
	atomic_fetch_add_explicit(&me->beat,1,memory_order_relaxed);
	int r = setjmp(case_jmp);
	if (!r){ in_case = 1; mc_suites[cur_suite].fn(); }
	in_case = 0;
	if (r == 0 && !scan_mode && pos < me->path.len){
		fprintf(stderr,"mc: divergence: execution made %d choices, prefix has %d (suite %s) case %s\n", pos, me->path.len, mc_suites[cur_suite].name, me->desc);
		_exit(78);
	}
	if ((r == J_FAIL || r == J_CRASH || r == J_SKIP) && pos < me->path.len) me->path.len = pos;
	return r;
}
// advance path to the next sequence; choices below 'floor' stay fixed
static bool next_path(int floor){
	struct pathbuf* p = &me->path;
	int i = p->len-1;
	while (i >= floor && p->c[i]+1 >= p->n[i]) --i;
	if (i < floor) return false;
	p->c[i]++; p->len = i+1;
	return true;
}

// known findings: list of "suite\tdesc"
static int nknown; static char** known;
static int find_known(int suite, const char* desc){
	for (int i=0;i<nknown;++i){
		char* t = strchr(known[i],'\t'); if (!t) continue;
		size_t l = t-known[i];
		if (strlen(mc_suites[suite].name)==l && !strncmp(known[i],mc_suites[suite].name,l) && !strcmp(t+1,desc)) return i;
	}
	return -1;
}
static void record(int kind, const struct slot* s, const char* msg){
	int k = find_known(cur_suite, s->desc);
	if (k >= 0){ sh->known_seen[k]=1; atomic_fetch_add(&sh->known,1); return; }
	int i = atomic_fetch_add(&sh->nviol,1);
	if (i >= MAXV){ sh->stop = 1; return; }
	struct viol* v = &sh->v[i];
	v->suite = cur_suite; v->kind = kind; v->plen = s->plen; v->path = s->path;
	memcpy(v->desc,s->desc,DESC);
	snprintf(v->msg,sizeof v->msg,"%s",msg);
	if (i >= 11) sh->stop = 1;
}
static void sample(void){
	long e = atomic_fetch_add(&sh->samples_seen,1);
	// keep the 1st, 2nd, 4th, 8th, ... execution
	if (e & (e-1) && e) return;
	int k = atomic_fetch_add(&sh->nsamples,1);
	int j = k % NSAMPLES;
	snprintf(sh->samples[j],1024,"%s: %s",mc_suites[cur_suite].name,me->desc);
}
static int run_case(void){
	int r = run_once();
	if (r == J_SKIP) atomic_fetch_add_explicit(&sh->skips,1,memory_order_relaxed);
	else if (!mc_replaying) { atomic_fetch_add_explicit(&sh->execs,1,memory_order_relaxed); sample(); }
	if (r == J_FAIL) record(0,me,failmsg);
	if (r == J_CRASH) record(1,me,failmsg);
	return r;
}

static void make_scratch(int id){
	static char b[256];
	snprintf(b,sizeof b,"%s/w%d.%d", getenv("MC_SCRATCH")?getenv("MC_SCRATCH"):"/tmp", id, (int)getpid());
	mkdir(b,0700);
	mc_scratch = b;
}
static void rm_scratch_dir(const char* d){
	DIR* dir = opendir(d); if (!dir) return;
	struct dirent* e;
	while ((e = readdir(dir))){
		if (!strcmp(e->d_name,".")||!strcmp(e->d_name,"..")) continue;
		char b[600]; snprintf(b,sizeof b,"%s/%s",d,e->d_name);
		if (unlink(b)) { struct stat st; if (!lstat(b,&st) && S_ISDIR(st.st_mode)) rm_scratch_dir(b); }
	}
	closedir(dir); rmdir(d);
}

static void boot_suite(int s){
	if (!mc_suites[s].boot) return;
	me->boot = 1;
	mc_suites[s].boot();
	me->boot = 0;
}
static void worker(int id, bool resume){
	me = &sh->slot[id];
	char fn[256]; snprintf(fn,sizeof fn,"%s/err.%d", getenv("MC_SCRATCH")?getenv("MC_SCRATCH"):"/tmp", id);
	mystderr = open(fn,O_RDWR|O_CREAT|O_TRUNC,0600);
	dup2(mystderr,2);
	int dn = open("/dev/null",O_WRONLY); dup2(dn,1);
	make_scratch(id);
	signal(SIGVTALRM,on_cpu);
	int rb = me->busy; me->busy = 0;
	boot_suite(cur_suite);
	int idx = -1; // index of prefix currently held in scan path
	struct pathbuf scan = {0};
	bool have = false;
	int claim = -1;
	if (resume){
		if (rb == 2 && me->claim > me->idx) claim = me->claim;
		me->busy = 1;
		int pl = me->plen;
		idx = me->idx;
		bool more = next_path(pl);
		// reconstruct scan path
		struct pathbuf full = me->path;
		while (more && !sh->stop){
			run_case();
			more = next_path(pl);
		}
		(void)full;
		// prefix part is intact in me->path[0..pl)
		scan = me->path; scan.len = pl; have = true;
	}
	while (!sh->stop){
		int my = claim >= 0 ? claim : atomic_fetch_add(&sh->next,1);
		claim = -1; me->claim = my;
		bool ok = true;
		while (idx < my){
			// move to next prefix
			me->path = scan;
			if (have){
				if (!next_path(0)){ ok = false; break; }
			} else me->path.len = 0;
			have = true;
			me->busy = 2; me->plen = me->path.len; me->idx = idx+1;
			scan_mode = 1; int r = run_once(); scan_mode = 0;
			(void)r;
			scan = me->path; scan.len = pos < scan.len ? pos : scan.len;
			// on CUT, pos is the number of consumed choices
			++idx;
		}
		if (!ok) break;
		me->path = scan; int pl = scan.len;
		me->plen = pl; me->idx = idx; me->busy = 1;
		do { run_case(); } while (!sh->stop && next_path(pl));
	}
	me->busy = 0;
	rm_scratch_dir(mc_scratch);
	_exit(0);
}

static void read_err(int id, char* out, int n){
	char fn[256]; snprintf(fn,sizeof fn,"%s/err.%d", getenv("MC_SCRATCH")?getenv("MC_SCRATCH"):"/tmp", id);
	int f = open(fn,O_RDONLY); out[0]=0; if (f<0) return;
	int r = read(f,out,n-1); if (r<0) r=0; out[r]=0; close(f);
}
static void clean_worker(int id, pid_t pid){
	char b[256]; snprintf(b,sizeof b,"%s/w%d.%d", getenv("MC_SCRATCH")?getenv("MC_SCRATCH"):"/tmp", id, (int)pid);
	rm_scratch_dir(b);
}

static int hard_error;
static void run_suite(int s){
	cur_suite = s;
	sh->next = 0;
	pid_t pid[MAXW]; long beat[MAXW]; double seen[MAXW]; int restarts = 0;
	for (int i=0;i<nworkers;++i){
		memset(&sh->slot[i],0,sizeof(struct slot));
		fflush(NULL);
		pid[i] = fork();
		if (!pid[i]) worker(i,false);
		beat[i] = -1; seen[i] = now();
	}
	int alive = nworkers;
	while (alive){
		int st; pid_t d = waitpid(-1,&st,WNOHANG);
		if (d > 0){
			int i; for (i=0;i<nworkers;++i) if (pid[i]==d) break;
			if (i==nworkers) continue;
			int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st);
			if (code == 0){ pid[i]=-1; --alive; continue; }
			clean_worker(i,d);
			char err[4096]; read_err(i,err,sizeof err);
			if (sh->slot[i].boot && (code == 76 || code == 1000+SIGSEGV || code == 1000+SIGFPE || code == 1000+SIGBUS || code == 1000+SIGILL || strstr(err,"AddressSanitizer:") || strstr(err,"runtime error:"))){
				struct slot b = {0}; char msg[4096]; snprintf(b.desc,sizeof b.desc,"the start of the system"); // (no choice is made before)
				snprintf(msg,sizeof msg,"fails (status %d): %.3800s",code,err);
				record(1,&b,msg);
				sh->stop = 1; pid[i]=-1; --alive; continue;
			}
			if (code == 77 || code == 78 || !sh->slot[i].busy){
				fprintf(stderr,"mc: worker error %d in suite %s: %s\n",code,mc_suites[s].name,err);
				// a divergence under a changed tree is itself suspicious, but it is not a verdict
				hard_error = 1; sh->stop = 1; pid[i]=-1; --alive; continue;
			}
			int kind = (code == 98 || code == 1000+SIGKILL) ? 2 : 1;
			char msg[4096]; snprintf(msg,sizeof msg,"%s (status %d): %.3800s", kind==2?"does not terminate":"crash",code,err);
			record(kind,&sh->slot[i],msg);
			if (sh->stop || ++restarts > 40){ sh->stop = 1; pid[i]=-1; --alive; continue; }
			fflush(NULL);
			bool scan_crash = sh->slot[i].busy == 2;
			pid[i] = fork();
			if (!pid[i]) {
				if (scan_crash){ // crashed while positioning: treat the crashing prefix as consumed
					sh->slot[i].plen = sh->slot[i].path.len;
				}
				worker(i,true);
			}
			beat[i] = -1; seen[i] = now();
			continue;
		}
		if (d < 0 && errno == ECHILD) break;
		for (int i=0;i<nworkers;++i) if (pid[i]>0){
			long b = atomic_load(&sh->slot[i].beat);
			if (b != beat[i]){ beat[i]=b; seen[i]=now(); }
			else if (now()-seen[i] > case_cpu*4 + 20) { kill(pid[i],SIGKILL); seen[i]=now()+1000; }
		}
		if (now() > t_limit) sh->stop = 2;
		usleep(2000);
	}
}

// replay in a fresh process. returns 1 reproduced (msg filled), 0 not
static int replay_child(int s, const struct pathbuf* path, int plen, bool subtree, char* msg, int n, int limit, char* desc){
	cur_suite = s;
	int id = MAXW-1;
	memset(&sh->slot[id],0,sizeof(struct slot));
	int pfd[2]; if (pipe(pfd)) return 0;
	int nv = sh->nviol;
	fflush(NULL);
	pid_t pid = fork();
	if (!pid){
		close(pfd[0]);
		me = &sh->slot[id];
		char fn[256]; snprintf(fn,sizeof fn,"%s/err.%d", getenv("MC_SCRATCH")?getenv("MC_SCRATCH"):"/tmp", id);
		int f = open(fn,O_RDWR|O_CREAT|O_TRUNC,0600); dup2(f,2);
		int dn = open("/dev/null",O_WRONLY); dup2(dn,1);
		make_scratch(id); signal(SIGVTALRM,on_cpu); case_cpu = limit; mc_replaying = 1;
		boot_suite(s);
		me->path = *path;
		int r;
		if (subtree){
			me->path.len = plen;
			for (;;){
				r = run_once();
				int same = me->path.len == path->len;
				for (int i=0;same && i<path->len;++i) same = me->path.c[i]==path->c[i];
				if (same) break;
				if (!next_path(plen)){ r = 0; break; }
			}
		} else r = run_once();
		if (r == J_FAIL || r == J_CRASH){ char z = 'F'; (void)!write(pfd[1],&z,1); (void)!write(pfd[1],failmsg,strlen(failmsg)); }
		rm_scratch_dir(mc_scratch);
		_exit(0);
	}
	close(pfd[1]);
	char buf[4200]; int got=0, r;
	double start = now(); int st; bool killed=false;
	for (;;){
		pid_t d = waitpid(pid,&st,WNOHANG);
		if (d == pid) break;
		if (now()-start > limit*6+60 && !killed){ kill(pid,SIGKILL); killed = true; }
		usleep(1000);
	}
	while ((r = read(pfd[0],buf+got,sizeof buf-1-got)) > 0) got += r;
	close(pfd[0]); buf[got]=0;
	clean_worker(id,pid);
	sh->nviol = nv;
	if (desc) snprintf(desc,DESC,"%s",sh->slot[id].desc);
	if (got && buf[0]=='F'){ snprintf(msg,n,"%s",buf+1); return 1; }
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0){
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st);
		if (code == 77 || code == 78) return 0;
		char err[3900]; read_err(id,err,sizeof err);
		snprintf(msg,n,"%s (status %d): %s", code==98||killed?"does not terminate":"crash", code, err);
		return 1;
	}
	return 0;
}

static void jstr(FILE* f, const char* s){
	fputc('"',f);
	for (;*s;++s){ unsigned char c=*s;
		if (c=='"'||c=='\\') fprintf(f,"\\%c",c);
		else if (c=='\n') fputs("\\n",f);
		else if (c<32||c>126) fprintf(f,"\\u%04x",c);
		else fputc(c,f);
	}
	fputc('"',f);
}

int main(int argc, char** argv){
	clock_gettime(CLOCK_MONOTONIC,&t0);
	const char* out = NULL; const char* only = NULL; const char* knownf = NULL; const char* replay = NULL;
	for (int i=1;i<argc;++i){
		if (!strcmp(argv[i],"--out")) out = argv[++i];
		else if (!strcmp(argv[i],"--suite")) only = argv[++i];
		else if (!strcmp(argv[i],"--known")) knownf = argv[++i];
		else if (!strcmp(argv[i],"--thorough")) mc_thorough = 1;
		else if (!strcmp(argv[i],"--workers")) nworkers = atoi(argv[++i]);
		else if (!strcmp(argv[i],"--limit")) t_limit = atof(argv[++i]);
		else if (!strcmp(argv[i],"--replay")) replay = argv[++i];
		else if (!strcmp(argv[i],"--list")){ for (int k=0;k<mc_suite_count;++k) puts(mc_suites[k].name); return 0; }
	}
	if (nworkers > MAXW-1) nworkers = MAXW-1;
	sh = mmap(NULL,sizeof *sh,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	if (sh == MAP_FAILED) die("mmap");
	if (knownf){
		FILE* f = fopen(knownf,"r"); char* line=NULL; size_t cap=0; ssize_t l;
		while (f && (l=getline(&line,&cap,f))>0){
			if (line[l-1]=='\n') line[l-1]=0;
			known = realloc(known,sizeof(char*)*(nknown+1)); known[nknown++] = strdup(line);
			if (nknown >= 255) break;
		}
		if (f) fclose(f);
	}
	if (replay){
		// file: first line suite, second line prefix length, third: choices "c/n c/n ..."
		FILE* f = fopen(replay,"r"); if (!f){ perror(replay); return 2; }
		char name[256]; int plen; int sub; struct pathbuf p = {0};
		if (fscanf(f," suite %255s prefix %d subtree %d path",name,&plen,&sub)!=3) { fprintf(stderr,"bad replay file\n"); return 2; }
		while (fscanf(f," %d/%d",&p.c[p.len],&p.n[p.len])==2) p.len++;
		fclose(f);
		for (int s=0;s<mc_suite_count;++s) if (!strcmp(mc_suites[s].name,name)){
			char msg[4096]; static char desc[DESC];
			int r = replay_child(s,&p,plen,sub,msg,sizeof msg,30,desc);
			printf("suite: %s\ncase: %s\n%s\n",name,desc,r?"REPRODUCED":"not reproduced");
			if (r) printf("%s\n",msg);
			return r;
		}
		fprintf(stderr,"no suite %s\n",name); return 2;
	}
	FILE* o = out ? fopen(out,"w") : stdout;
	if (!o) die("out");
	fprintf(o,"{\"suites\":[");
	bool firsts = true;
	for (int s=0;s<mc_suite_count;++s){
		if (only){ if (strcmp(only,mc_suites[s].name)) continue; }
		else if (!(mc_suites[s].tiers & (mc_thorough?MC_T:MC_Q))) continue;
		long e0=sh->execs, tr0=sh->trans, st0=sh->states; double b=now();
		int nv0 = sh->nviol;
		run_suite(s);
		fprintf(o,"%s{\"name\":",firsts?"":","); firsts=false; jstr(o,mc_suites[s].name);
		fprintf(o,",\"executions\":%ld,\"transitions\":%ld,\"new_states\":%ld,\"wall_s\":%.2f,\"violations\":%d}",sh->execs-e0,sh->trans-tr0,sh->states-st0,now()-b,sh->nviol-nv0);
		fflush(o);
		if (sh->stop) break;
	}
	int capped = sh->stop == 2;
	fprintf(o,"],\"violations\":[");
	int nv = sh->nviol < MAXV ? sh->nviol : MAXV;
	int order[MAXV]; for (int i=0;i<nv;++i) order[i]=i;
	for (int i=0;i<nv;++i) for (int j=i+1;j<nv;++j){
		struct viol *a=&sh->v[order[i]],*b=&sh->v[order[j]];
		if (b->suite<a->suite || (b->suite==a->suite && strlen(b->desc)<strlen(a->desc))){ int t=order[i]; order[i]=order[j]; order[j]=t; }
	}
	int confirmed=0, unrep=0; bool fv = true;
	for (int k=0;k<nv && confirmed<5 && unrep<8;++k){
		struct viol* v=&sh->v[order[k]];
		static char msg[4096]; int sub=0;
		int r = replay_child(v->suite,&v->path,v->plen,false,msg,sizeof msg,v->kind==2?case_cpu*4:case_cpu*2,NULL);
		if (!r){ sub=1; r = replay_child(v->suite,&v->path,v->plen,true,msg,sizeof msg,v->kind==2?case_cpu*4:case_cpu*2,NULL); }
		if (r) ++confirmed; else ++unrep;
		fprintf(o,"%s{\"suite\":",fv?"":","); fv=false; jstr(o,mc_suites[v->suite].name);
		fprintf(o,",\"confirmed\":%s,\"subtree\":%d,\"prefix\":%d,\"kind\":%d,\"case\":",r?"true":"false",sub,v->plen,v->kind); jstr(o,v->desc);
		fprintf(o,",\"message\":"); jstr(o,r?msg:v->msg);
		fprintf(o,",\"path\":\""); for (int i=0;i<v->path.len;++i) fprintf(o,"%d/%d ",v->path.c[i],v->path.n[i]); fprintf(o,"\"}");
	}
	fprintf(o,"],\"total_violations\":%d,\"executions\":%ld,\"transitions\":%ld,\"states\":%ld,\"outcomes\":%ld,\"nontrivial\":%ld,\"validated\":%ld,\"skipped\":%ld,\"known_hits\":%ld,\"states_table_full\":%d,\"capped\":%d,\"hard_error\":%d,\"wall_s\":%.2f,\"rule\":",
		sh->nviol,sh->execs,sh->trans,sh->states,sh->outcomes,sh->nontriv,sh->validated,sh->skips,sh->known,sh->states_full,capped,hard_error,now());
	jstr(o,mc_rule);
	fprintf(o,",\"known_seen\":["); bool fk=true;
	for (int i=0;i<nknown;++i) if (sh->known_seen[i]){ fprintf(o,"%s",fk?"":","); fk=false; jstr(o,known[i]); }
	fprintf(o,"],\"samples\":[");
	int ns = sh->nsamples<NSAMPLES?sh->nsamples:NSAMPLES;
	for (int i=0;i<ns;++i){ fprintf(o,"%s",i?",":""); jstr(o,sh->samples[i]); }
	fprintf(o,"]}\n");
	if (o != stdout) fclose(o);
	return hard_error && !confirmed ? 2 : confirmed ? 1 : 0;
}

// Runs the BASIC texts given as arguments one after another in one system and prints error and screen.
// -v use slots resolved at compile time, -k TEXT keys waiting, -f N let N frames pass, -b N button state for the next frame
#include "common.h"
#include "system.h"
#include "error.h"
#include "program.h"
#include "tokens.h"
#include "console.h"
#include "input.h"
#include "strs.h"
#include "sprites.h"
#include "panel.h"
#include "background.h"
#undef printf
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <threads.h>
#ifdef DEMO_DISPLAY
// -d draws a frame and prints a sum of each screen; characters and colours are filled with patterns
#include <stdarg.h>
#include <stdint.h>
static void mc_fail(const char* f, ...){ va_list a; va_start(a,f); vprintf(f,a); printf("\n"); exit(3); }
#include "soft.h"
static void fill(struct ptc* p){ for (int b=0;b<CHR_BANKS*2;++b) for (int i=0;i<CHR_SIZE;++i) p->res.chr[b][i]=(i*i/7+b*31+i/32*5)*2654435761u>>24; for (int s=0;s<2;++s) for (int b=0;b<12;b+=4) memset(p->res.chr[22*s+b],0,32); for (int k=0;k<6;++k) for (int i=0;i<256;++i) p->res.col[k][i]=(k*256+i)*37+1; for (int i=0;i<12;++i) for (int j=0;j<CHR_SIZE;++j) p->res.key_chr[i][j]=(j*7+i*13)>>2; }
static void sums(void){ for (int s=0;s<2;++s){ unsigned h=1; for (int y=0;y<192;++y) for (int x=0;x<256;++x){ soft_rgba* q=&soft_px[(y+192*s)*256+x]; h=h*31+q->r; h=h*31+q->g; h=h*31+q->b; } printf("screen %d: %08x\n",s,h); } }
#else
void init_display(struct ptc* p){ (void)p; }
void free_display(struct display* d){ (void)d; }
#endif
int get_sprite_chr(struct sprite_info*); void step_sprites(struct sprites*); void step_background(struct background*);
static struct ptc* P; static long sleeps; static const char* script;
int thrd_sleep(const struct timespec* a, struct timespec* b){ (void)a;(void)b; if (++sleeps>2000){ printf("hangs\n"); exit(3); }
	static int rel; static const char al[]="^v<>ABXYLRS"; if (rel){ rel=0; set_input(P,0); } else if (script && *script){ const char* q=strchr(al,*script); if (*script=='_') set_inkey(&P->input,'\r'); else if (q){ set_input(P,1<<(q-al)); rel=1; } else set_inkey(&P->input,to_wide(*script)); ++script; }
	inc_time(&P->time); return 0; }
int main(int c, char** v){
	int opts=0; init_memory(MAX_MEMORY); P=init_system(256,256,16384,true);
	init_mem_prg(&P->exec.prg,MAX_SOURCE_SIZE); struct bytecode bc=init_bytecode();
#ifdef DEMO_DISPLAY
	fill(P); init_display(P); P->display.rw=(sfRenderWindow*)&soft_win;
#endif
#ifdef DEMO_SETUP
	DEMO_SETUP
#endif
	for (int i=1;i<c;++i){
		if (!strcmp(v[i],"-v")){ opts=TOKOPT_VARIABLE_IDS; P->vars.clear_values=true; continue; }
#ifdef DEMO_DISPLAY
		if (!strcmp(v[i],"-d")){ display_draw_all(P); sums(); continue; }
		if (!strcmp(v[i],"-h")){ int x=0,y=0; sscanf(v[++i],"%d,%d",&x,&y); press_key(P,true,x,y); continue; }
#endif
		if (!strcmp(v[i],"-k")){ for (char* s=v[++i];*s;++s) set_inkey(&P->input,to_wide(*s=='\n'?'\r':*s)); continue; }
		if (!strcmp(v[i],"-f")){ for (int n=atoi(v[++i]);n>0;--n){ step_sprites(&P->sprites); step_background(&P->background); inc_time(&P->time); } continue; }
		if (!strcmp(v[i],"-c")){ int n=atoi(v[++i]); printf("sprite %d shows %d\n",n,get_sprite_chr(&P->sprites.info[0][n])); continue; }
		if (!strcmp(v[i],"-t")){ int x=0,y=0; sscanf(v[++i],"%d,%d",&x,&y); press_key(P,true,x,y); press_key(P,false,x,y); continue; }
		if (!strcmp(v[i],"-p")){ for (int x=0;x<32;++x) printf("%04x ",P->panel.keys_text->text[0][x]); printf("\n"); continue; }
		if (!strcmp(v[i],"-e")){ script=v[++i]; continue; } // keys and buttons, one per frame: ^v<>ABXYLRS buttons, _ enter, others typed
		if (!strcmp(v[i],"-b")){ set_input(P,atoi(v[++i])); continue; }
		static char b[200000]; int n=0; for (char* s=v[i];*s;++s) b[n++]=*s=='\n'?'\r':*s; b[n++]='\r'; b[n]=0;
		struct program prg={n,b}; P->exec.error=0; P->calls.stack_i=0; 
		P->exec.error=tokenize_full(&prg,&bc,P,opts); if (!P->exec.error) run(bc,P);
		printf("error %s\n",error_messages[P->exec.error]);
	}
	for (int y=0;y<24;++y){ char l[33]; int e=0; for (int x=0;x<32;++x){ int ch=to_char(P->console.text[y][x]); l[x]=ch<32||ch>126?(ch?'?':' '):ch; if (l[x]!=' ') e=x+1; } l[e]=0; if (e) printf("%2d|%s\n",y,l); }
	return 0;
}

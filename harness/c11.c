// C11: the text screen against a reference screen.
#include "bas.h"
const char* mc_rule = "every start position x text length x item ending x tab step on a patterned screen; every sequence of screen statements up to the stated length from several start positions; every character code and CHKCHR position; every PNLSTR position and length; counted by statement sequence and start position";
static struct { u16 t[24][32], pt[24][32]; u8 c[24][32], pc[24][32]; int x,y,col,tab; } R;
static struct console* C;
static void scroll(void){ memmove(R.t[0],R.t[1],sizeof R.t[0]*23); memmove(R.c[0],R.c[1],sizeof R.c[0]*23); memset(R.t[23],0,sizeof R.t[23]); memset(R.c[23],R.col,32); --R.y; }
static void r_put(u16 w){ if (R.y==24) scroll(); R.t[R.y][R.x]=w; R.c[R.y][R.x]=R.col; if (++R.x==32){ R.x=0; ++R.y; } }
static void r_text(const char* s, int n){ if (R.y==24) scroll(); for (int i=0;i<n;++i) r_put(to_wide((u8)s[i])); }
static void r_nl(void){ R.x=0; ++R.y; while (R.y>=24) scroll(); }
static void r_tab(void){ do r_put(to_wide(' ')); while (R.x%R.tab); }
static void differ(const char* what){
	mc_validated(1);
	for (int y=0;y<24;++y) for (int x=0;x<32;++x){
		if (C->text[y][x]!=R.t[y][x]) mc_fail("after %s the character at %d,%d is %04x, expected %04x",what,x,y,C->text[y][x],R.t[y][x]);
		if (C->color[y][x]!=R.c[y][x]) mc_fail("after %s the colour at %d,%d is %02x, expected %02x",what,x,y,C->color[y][x],R.c[y][x]);
		if (P->panel.text->text[y][x]!=R.pt[y][x]) mc_fail("after %s the lower screen character at %d,%d is %04x, expected %04x",what,x,y,P->panel.text->text[y][x],R.pt[y][x]);
		if (R.pt[y][x] && P->panel.text->color[y][x]!=R.pc[y][x]) mc_fail("after %s the lower screen colour at %d,%d is %02x, expected %02x",what,x,y,P->panel.text->color[y][x],R.pc[y][x]);
	}
	if (C->x!=R.x||C->y!=R.y) mc_fail("after %s the cursor is at %d,%d, expected %d,%d",what,(int)C->x,(int)C->y,R.x,R.y);
	if (C->col!=R.col) mc_fail("after %s the text colour is %02x, expected %02x",what,C->col,R.col);
}
static void start(int x, int y, int tab){ // patterned screen: every cell identifies its position
	sys_reset(); C=&P->console; mode=0; memset(&R,0,sizeof R);
	for (int j=0;j<24;++j) for (int i=0;i<32;++i){ R.t[j][i]=C->text[j][i]=0x3000+j*32+i; R.c[j][i]=C->color[j][i]=(j*7+i*3)&255; R.pt[j][i]=P->panel.text->text[j][i]=0x4000+j*32+i; R.pc[j][i]=P->panel.text->color[j][i]=(j+i)&15; }
	C->x=R.x=x; C->y=R.y=y; C->col=R.col=0x5a; R.tab=tab; if (tab!=4) must("TABSTEP=%d",tab); else R.tab=4; mc_desc("cursor %d,%d: ",x,y);
}
static const char* txt(int n){ static char b[300]; for (int i=0;i<n;++i) b[i]="ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[i%36]; b[n]=0; return b; }
static int edgey(int i){ static const int t[]={0,1,22,23,24}; return t[i]; }
static void pos(int* x, int* y){ if (mc_thorough){ *y=mc_range(25); *x=mc_range(32); } else { *y=edgey(mc_choose(5)); *x=mc_range(32); } if (*y==24 && *x) mc_skip(); }
static void s_one(void){
	int x,y; pos(&x,&y); int n=mc_range(mc_thorough?101:68), e=mc_choose(3); if (!mc_thorough && n>34 && n<62) mc_skip();
	start(x,y,4); char s[200]; sprintf(s,"PRINT \"%s\"%s",n>90?"":txt(n),e==0?"":e==1?";":",");
	if (n>90){ static const int big[]={128,200,255,256,300,500,767,768,769,800}; int m=big[n-91]; // long output from several items
		sprintf(s,"PRINT A$;A$;A$;A$%s",e==0?"":e==1?";":","); must("A$=\"%s\"",txt(m/4)); r_text(txt(m/4),m/4); r_text(txt(m/4),m/4); r_text(txt(m/4),m/4); r_text(txt(m/4),m/4); }
	else r_text(txt(n),n);
	if (e==2) r_tab(); if (!e) r_nl(); mc_desc("%s",s); must("%s",s); differ(s); mc_nontrivial(mc_mix(x*32+y,n*3+e)); mc_state(mc_hash(C,sizeof *C)); mc_outcome(mc_mix(R.x,R.y));
}
static void s_tab(void){
	int x,y; pos(&x,&y); int tab=1+mc_range(16), k=mc_choose(6); start(x,y,tab); static const char* const f[]={"PRINT ,","PRINT ,,","PRINT \"AB\",\"C\"","PRINT ,1,2","PRINT \"X\";,5;","PRINT \"A\",,\"B\";\"C\","};
	switch (k){ case 0: r_tab(); break; case 1: r_tab(); r_tab(); break; case 2: r_text("AB",2); r_tab(); r_text("C",1); r_nl(); break; case 3: r_tab(); r_text("1",1); r_tab(); r_text("2",1); r_nl(); break;
	case 4: r_text("X",1); r_tab(); r_text("5",1); break; case 5: r_text("A",1); r_tab(); r_tab(); r_text("B",1); r_text("C",1); r_tab(); break; }
	mc_desc("tab step %d %s",tab,f[k]); must("%s",f[k]); differ(f[k]); mc_nontrivial(mc_mix(x*32+y,tab*8+k)); mc_state(mc_hash(C,sizeof *C)); mc_outcome(mc_mix(R.x,R.y));
}
// sequences
enum { A_NL, A_E, A_A, A_ASEMI, A_ACOMMA, A_31, A_32, A_33S, A_70, A_MIX, A_NUM, L_00, L_310, L_023, L_3123, L_OFFX, L_OFFY, L_NEG, L_NEGY, L_FRAC, K_3, K_59, K_FF, K_BAD, K_BAD2, K_NEG, CLS_, ACLS_, T_1, T_5, T_16, T_0, T_20, PNL, PNLC, NOP };
static const char* const ops[NOP]={"PRINT","PRINT \"\";","PRINT \"A\"","PRINT \"A\";","PRINT \"A\",","PRINT \"ABCDEFGHIJKLMNOPQRSTUVWXYZ01234\";","PRINT \"ABCDEFGHIJKLMNOPQRSTUVWXYZ012345\"","PRINT \"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456\";","PRINT \"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ01234567\"","PRINT 5,\"x\";TRUE,","PRINT -12.5;.25;-524287",
	"LOCATE 0,0","LOCATE 31,0","LOCATE 0,23","LOCATE 31,23","LOCATE 32,5","LOCATE 5,24","LOCATE -1,5","LOCATE 5,-1","LOCATE 7.9,3.9","COLOR 3","COLOR 5,9","COLOR 15,15","COLOR 16","COLOR 1,16","COLOR -1,2","CLS","ACLS","TABSTEP=1","TABSTEP=5","TABSTEP=16","TABSTEP=0","TABSTEP=20","PNLSTR 29,22,\"ABCDEF\"","PNLSTR 0,23,\"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\",7"};
static bool iserr(int o){ return o>=K_BAD&&o<=K_NEG; }
static void model(int o){ // effect on the reference
	switch (o){
	case A_NL: r_nl(); break; case A_E: r_text("",0); break; case A_A: r_text("A",1); r_nl(); break; case A_ASEMI: r_text("A",1); break; case A_ACOMMA: r_text("A",1); r_tab(); break;
	case A_31: r_text(txt(31),31); break; case A_32: r_text(txt(32),32); r_nl(); break; case A_33S: r_text(txt(33),33); break; case A_70: r_text(txt(70),70); r_nl(); break;
	case A_MIX: r_text("5",1); r_tab(); r_text("x",1); r_text("1",1); r_tab(); break; case A_NUM: r_text("-12.5",5); r_text("0.25",4); r_text("-524287",7); r_nl(); break;
	case L_00: R.x=R.y=0; break; case L_310: R.x=31; R.y=0; break; case L_023: R.x=0; R.y=23; break; case L_3123: R.x=31; R.y=23; break; case L_FRAC: R.x=7; R.y=3; break;
	case K_3: R.col=(R.col&0xf0)|3; break; case K_59: R.col=0x95; break; case K_FF: R.col=0xff; break;
	case ACLS_: R.col=0; // fall through
	case CLS_: memset(R.t,0,sizeof R.t); memset(R.c,R.col,sizeof R.c); memset(R.pt,0,sizeof R.pt); R.x=R.y=0; break;
	case T_1: R.tab=1; break; case T_5: R.tab=5; break; case T_16: R.tab=16; break; case T_0: R.tab=1; break; case T_20: R.tab=16; break;
	case PNL: for (int i=0;i<3;++i){ R.pt[22][29+i]=to_wide("ABC"[i]); R.pc[22][29+i]=0; } break;
	case PNLC: for (int i=0;i<32;++i){ R.pt[23][i]=to_wide(txt(32)[i]); R.pc[23][i]=7; } break;
	}
}
static void act(int o){ int e=bas("%s",ops[o]); mc_trans(1); bool err=iserr(o); if (err?!e:e) mc_fail("%s: %s",ops[o],err?"accepted":errname(e)); model(o); differ(ops[o]); }
static void seq(int depth){
	static const int sx[]={0,31,0,30,31}, sy[]={0,23,24,22,5}; int k=mc_choose(5); start(sx[k],sy[k],4); uint64_t h=k;
	for (int i=0;i<depth;++i){ int o=mc_range(NOP); mc_desc("%s: ",ops[o]); act(o); h=mc_mix(h,o); }
	mc_nontrivial(h); mc_state(mc_mix(mc_hash(&R,sizeof R),0)); mc_outcome(mc_mix(R.x,R.y));
}
static void s_seq3(void){ seq(3); }
static void s_seq4(void){ seq(4); }
static void s_prog(void){ // inside one program, with the cursor variables read in between
	int a=mc_range(NOP), b=mc_range(NOP), md=mc_choose(3), k=mc_choose(2); if (iserr(a)) mc_skip(); start(k?31:3,k?22:4,4); setmode(md);
	char s[600]; sprintf(s,"%s:X=CSRX:Y=CSRY\r%s\r",ops[a],ops[b]); mc_desc("%s then %s",ops[a],ops[b]); int e=sys_run(s,opts()); if (iserr(b)?!e:e) mc_fail("%s",iserr(b)?"accepted":errname(e));
	model(a); int gx=sys_num("X")/4096, gy=sys_num("Y")/4096; mc_validated(1); if (gx!=R.x||gy!=R.y) mc_fail("CSRX,CSRY are %d,%d, expected %d,%d",gx,gy,R.x,R.y);
	model(b); differ("both"); mc_nontrivial(mc_mix(a*2+k,b*3+md)); mc_state(mc_hash(&R,sizeof R)); mc_outcome(mc_mix(R.x,R.y));
}
static void s_chr(void){ // every character code
	int c=mc_range(256), x=mc_choose(32), y=mc_choose(2)*23; start(x,y,4); mc_desc("code %d",c); must("LOCATE %d,%d:PRINT CHR$(%d);CHR$(%d);",x,y,c,c); R.x=x; R.y=y; r_put(to_wide(c)); r_put(to_wide(c)); differ("PRINT CHR$");
	int yy=y==23&&x==31?22:y; must("R=CHKCHR(%d,%d)",x,yy); mc_validated(1); if (sys_num("R")!=c*4096) mc_fail("CHKCHR is %d",sys_num("R")/4096); mc_nontrivial(mc_mix(c,x*32+y)); mc_state(mc_hash(&R,sizeof R));
}
static void s_chk(void){ // every position in and around the screen
	int x=mc_range(40)-4, y=mc_range(32)-4; start(0,0,4); for (int j=0;j<24;++j) for (int i=0;i<32;++i) R.t[j][i]=C->text[j][i]=to_wide((j*37+i*5)&255); mc_desc("CHKCHR(%d,%d)",x,y);
	int want=x<0||x>31||y<0||y>23?-1:(y*37+x*5)&255; must("R=CHKCHR(%d,%d)",x,y); mc_validated(1); if (sys_num("R")!=want*4096) mc_fail("is %d, expected %d",sys_num("R")/4096,want); differ("CHKCHR");
	static const int f[][2]={{524287,0},{0,524287},{-524287,3},{256,0},{0,256},{65536,0},{0,65536}}; for (int i=0;i<7;++i){ must("R=CHKCHR(%d,%d)",f[i][0],f[i][1]); if (sys_num("R")!=-4096) mc_fail("CHKCHR(%d,%d) is %d",f[i][0],f[i][1],sys_num("R")/4096); } mc_nontrivial(mc_mix(x,y)); mc_state(mc_mix(x,y));
}
static void s_locate(void){ // every position in and around the screen
	int x=mc_range(40)-4, y=mc_range(32)-4, n=mc_choose(3); start(9,9,4); mc_desc("LOCATE %d,%d",x,y); bool in=x>=0&&x<32&&y>=0&&y<24; must("LOCATE %d,%d",x,y); if (in){ R.x=x; R.y=y; } differ("LOCATE");
	if (n){ must("PRINT \"%s\"%s",txt(n*2),n==1?";":""); r_text(txt(n*2),n*2); if (n==2) r_nl(); differ("PRINT"); } static const int f[][2]={{524287,0},{0,524287},{-524287,3},{256,0},{0,256},{65536,0},{0,65536}}; for (int i=0;i<7;++i){ must("LOCATE %d,%d",f[i][0],f[i][1]); differ("LOCATE off the screen"); } mc_nontrivial(mc_mix(x,y*3+n)); mc_state(mc_mix(x,y));
}
static void s_color(void){ // every pair of colours around the legal range
	int f=mc_range(22)-3, b=mc_range(22)-3, one=mc_choose(2), v=mc_choose(4); if (one && b!=0) mc_skip(); if (v && (f<0||f>15||b<0||b>15)) mc_skip(); start(0,0,4); static const int big[]={0,256,65536,524287}; int ff=f+(v&&!one?0:v?big[v]&~15:0); if (v&&!one) b=big[v]-16+b;
	mc_desc("COLOR %d,%d",ff,b); bool ok=ff>=0&&ff<16&&(one||(b>=0&&b<16)); int e=one?bas("COLOR %d",ff):bas("COLOR %d,%d",ff,b); if (ok?e:!e) mc_fail("%s",ok?errname(e):"accepted"); if (ok) R.col=one?(R.col&0xf0)|ff:ff|b<<4; differ("COLOR"); must("PRINT \"Z\""); r_text("Z",1); r_nl(); differ("PRINT"); must("CLS"); model(CLS_); differ("CLS");
	mc_nontrivial(mc_mix(ff,b*2+one)); mc_state(mc_mix(R.col,ok));
}
static void s_pnl(void){ // PNLSTR: every position and length, cut at the right edge
	int x=mc_range(36)-2, y=mc_choose(7), n=mc_choose(9), c=mc_choose(4); static const int ys[]={-1,0,11,22,23,24,25}, ns[]={0,1,2,5,31,32,33,64,100}, cs[]={-2,0,15,16}; y=ys[y]; n=ns[n]; c=cs[c]; start(3,3,4); bool in=x>=0&&x<32&&y>=0&&y<24, bad=c==16;
	if (bad && !in) mc_skip(); char s[200]; sprintf(s,"PNLSTR %d,%d,\"%s\"",x,y,txt(n)); if (c!=-2) sprintf(s+strlen(s),",%d",c); mc_desc("%s",s); int e=bas("%s",s); if (bad?!e:e) mc_fail("%s",bad?"accepted":errname(e));
	if (in && !bad) for (int i=0;i<n && x+i<32;++i){ R.pt[y][x+i]=to_wide(txt(n)[i]); R.pc[y][x+i]=c==-2?0:c; } differ("PNLSTR"); must("CLS:PNLSTR 5,5,\"OK\""); model(CLS_); R.pt[5][5]=to_wide('O'); R.pt[5][6]=to_wide('K'); R.pc[5][5]=R.pc[5][6]=0; differ("CLS and PNLSTR"); mc_nontrivial(mc_mix(x*32+y,n*4+c)); mc_state(mc_hash(&R,sizeof R));
}
const mc_suite mc_suites[]={ {"one",s_one,MC_QT,sys_boot},{"tab",s_tab,MC_QT,sys_boot},{"seq3",s_seq3,MC_QT,sys_boot},{"prog",s_prog,MC_QT,sys_boot},{"chr",s_chr,MC_QT,sys_boot},{"chkchr",s_chk,MC_QT,sys_boot},{"locate",s_locate,MC_QT,sys_boot},{"color",s_color,MC_QT,sys_boot},{"pnlstr",s_pnl,MC_QT,sys_boot},{"seq4",s_seq4,MC_T,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

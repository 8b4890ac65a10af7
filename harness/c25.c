// C25: touch keyboard, function keys, icons and lower screen text against a reference panel; the harness plays the window thread.
#include "bas.h"
#include "subsystem/panel.h"
#include <unistd.h>
#include <sys/stat.h>
const char* mc_rule = "every touch position x panel type x shift state; every hold time up to the bound with leaving the key at every frame, and very long holds; every point on twelve rows and columns touched afresh; every move between two parts of one key; every sequence of panel types; every sequence of touches, drags, releases and panel statements up to the stated length; every function key text length; every fill level of the key buffer; every icon statement value around its borders; counted by history";
// ---- what is printed on the keys, by key number (1 escape ... 68 search)
static const char* const kana_shift[66]={ [2]="\xa7",[3]="\xa8",[4]="\xa9",[5]="\xaa",[6]="\xab",[12]="\xca\xdf",[13]="\xcb\xdf",[14]="\xcc\xdf",[16]="\xaf",[17]="\xb3\xde",[18]="\xb6\xde",[19]="\xb7\xde",[20]="\xb8\xde",[21]="\xb9\xde",[22]="\xba\xde",[23]="\xca\xde",[24]="\xcb\xde",[25]="\xcc\xde",[26]="\xcd\xde",[27]="\xce\xde",[28]="\xcd\xdf",[29]="\xce\xdf",[33]="\xbb\xde",[34]="\xbc\xde",[35]="\xbd\xde",[36]="\xbe\xde",[37]="\xbf\xde",[38]="1",[39]="2",[40]="3",[41]="4",[42]="5",[43]="\xac",[44]="\xad",[45]="\xae",[48]="\xc0\xde",[49]="\xc1\xde",[50]="\xc2\xde",[51]="\xc3\xde",[52]="\xc4\xde",[53]="6",[54]="7",[55]="8",[56]="9",[57]="0" };
// rows: keys 2-14, 16-31, 33-46, 48-59; '.' stands for nothing in the shifted rows
static const u8 rows[5][4][17]={
	{"1234567890-+=","$\"QWERTYUIOP@*()","!ASDFGHJKL;:<>","'ZXCVBNM,./%"},
	{"..#..&.^\\~.\x7f|","..qwertyuiop`.[]",".asdfghjkl..{}",".zxcvbnm..?_"},
	{{0xf1,0xf2,0xf0,0xf3,0x0a,0xe5,0x1a,0xe4,0xe6,0xe7,0x10,0x07,0x14},{0x03,0x96,0x98,0x91,0x99,0xec,0xee,0xef,0xed,0x0e,0x0f,0x05,0x06,0x04,0x0b,0x1b},{0x95,0x92,0x93,0x94,0x15,0x17,0x16,0xf4,0xf6,0xf7,0xf5,0xeb,0xea,0xe8},{0xff,0x9a,0x90,0x9b,0xfc,0xfd,0xfe,0x97,0x9c,0x9d,0x9e,0x9f}},
	{{'.',0x80,'.','.','.',0xe1,'.',0xe0,0xe2,0xe3,0x11,0x08,'.'},{'.','.',0xf8,0x1e,0xfa,0x01,0x02,0x18,0x19,0x0c,0x12,0x13,'.','.',0xe9,'.'},{'.',0x1d,'.',0x1c,'.',0x81,0x82,0x83,0x84,0x85,0x86,0x87,'.','.'},{'.',0xf9,0x1f,0xfb,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f}},
	{{0xb1,0xb2,0xb3,0xb4,0xb5,0xc5,0xc6,0xc7,0xc8,0xc9,0x2d,0x2b,0x3d},{0xa0,0xa5,0xb6,0xb7,0xb8,0xb9,0xba,0xca,0xcb,0xcc,0xcd,0xce,0xa2,0xa3,0xdd,0xa1},{0xbb,0xbc,0xbd,0xbe,0xbf,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xa4},{0xc0,0xc1,0xc2,0xc3,0xc4,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xa6}} };
static const int r0[]={2,16,33,48}, rn[]={13,16,14,12};
// ---- reference panel
enum { OFF, PNL, KYA, KYM, KYK };
static struct { int typ, sh, ins, on[4], icn[4]; bool puse; int pmax, page, key, time; bool dead; u16 f[5][256]; int fl[5]; u16 pt[24][32]; u8 pc[24][32]; bool brk; } R; static u16 q[600]; static int nq; static int fkr[5]; // fkr: reported key of this frame
static int at(int x, int y){ // key at a point of the lower screen, 0 none
	if (y<16) return x<240?101+x/48:106; if (y<48) return 0;
	if (y<72) return x<24?1:x>=232?15:2+(x-24)/16; if (y<96) return 16+x/16; if (y<120) return x<24?32:x<248?33+(x-24)/16:0; if (y<144) return x<32?47:x<224?48+(x-32)/16:60;
	if (y<160){ static const int p[][3]={{0,16,61},{24,40,62},{40,56,63},{56,72,64},{80,192,65},{200,216,66},{216,232,67},{240,256,68}}; for (int i=0;i<8;++i) if (x>=p[i][0]&&x<p[i][1]) return p[i][2]; return 0; }
	if (y<168) return 0; if (x<32) return 70; if (x<40) return 0; if (x<88) return 71; if (x<136) return 72; if (x<144) return 0; if (x<160) return R.puse?y<180?80:81:0; return 90+(x-160)/24; }
static void key_in(u16 w){ if (nq<256) q[nq++]=w; }
static int fired;
static void r_frame(bool t, int x, int y){
	fired=0; if (!t){ R.key=R.time=0; R.dead=false; return; }
	int k=at(x,y); if (R.key){ if (k!=R.key){ R.key=0; R.dead=true; } else ++R.time; } else if (!R.dead&&k){ R.key=k; R.time=1; }
	if (!R.key||!(R.time==1||(R.time>30&&(R.time-31)%5==0))) return; fired=k=R.key;
	if (k==80&&R.page>0) --R.page; if (k==81&&R.page<R.pmax) ++R.page; if (R.typ<KYA) return;
	if (k==1) R.brk=true; else if (k==47) R.sh^=1; else if (k==61) R.sh^=2; else if (k>=62&&k<=64) R.typ=KYA+k-62; else if (k==66) R.ins^=1; else if (k>100&&k<106) for (int i=0;i<R.fl[k-101];++i) key_in(R.f[k-101][i]);
	else if (k<=60||k==65){ int s=(R.sh&1)^(R.sh>>1); char b[3]={0}; u8 c=0; if (k==65) b[0]=' '; else if (k==60) b[0]='\r'; else if (k==32) b[0]='\t'; else if (R.typ==KYK&&s){ if (kana_shift[k]) strcpy(b,kana_shift[k]); } else { int l=R.typ==KYK?4:(R.typ-KYA)*2+s; for (int r=0;r<4;++r) if (k>=r0[r]&&k<r0[r]+rn[r]) c=rows[l][r][k-r0[r]]; b[0]=c=='.'&&s?0:c; }
		for (int i=0;b[i];++i) key_in(to_wide((u8)b[i])); if (b[0]) R.sh&=~1; } }
// ---- the real one
static u16 pat(int t, int i){ return t==PNL?0x1000+i:0x2000+i; }
static void boot(void){ sys_boot(); char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("resources",0700); for (int t=PNL;t<=KYA;++t){ FILE* f=fopen(t==PNL?"resources/pnlPANEL.NSCR":"resources/pnlKEY.NSCR","wb"); for (int i=0;i<18;++i) fputs("..",f); for (int i=0;i<768;++i){ u16 v=pat(t,i); fwrite(&v,2,1,f); } fclose(f); } for (int i=0;i<12;++i) for (int j=0;j<CHR_SIZE;++j) P->res.key_chr[i][j]=i*16+j%7; sys_snapshot(); }
#define KCH(i) P->res.chr[18+(i)+CHR_BANKS]
static void start(void){ sys_reset(); fired=0; setmode(mode=0); memset(&R,0,sizeof R); R.typ=KYA; R.ins=1; nq=0; static const char* const d[]={"FILES","LOAD\"","SAVE\"","CONT","RUN"}; for (int i=0;i<5;++i){ R.fl[i]=strlen(d[i]); for (int j=0;d[i][j];++j) R.f[i][j]=to_wide(d[i][j]); } for (int i=0;i<2;++i) memcpy(KCH(i),P->res.key_chr[i],CHR_SIZE); for (int i=0;i<768;++i) P->res.scr[SCR_BANKS+1][i]=pat(KYA,i); P->exec.error=0; }
static void check(void){ // everything displayed and delivered
	for (int i=0;i<nq;++i){ u16 c=get_inkey(&P->input); if (c!=q[i]) mc_fail("character %d delivered is %04x, expected %04x",i+1,c,q[i]); } u16 c=get_inkey(&P->input); if (c) mc_fail("%04x delivered after %d expected characters",c,nq); mc_validated(nq+1); nq=0;
	if ((int)P->panel.type!=R.typ) mc_fail("panel type is %d, expected %d",P->panel.type,R.typ); if (R.typ>=KYA){ int s=(R.sh&1)^(R.sh>>1), k=((R.typ-KYA)*2+s)*2; for (int i=0;i<2;++i) if (memcmp(KCH(i),P->res.key_chr[k+i],CHR_SIZE)) mc_fail("the keys shown are those of layout %d, expected %d",KCH(i)[0]/32,k/2); }
	if (R.typ!=OFF) for (int i=0;i<768;++i) if (P->res.scr[SCR_BANKS+1][i]!=pat(R.typ==PNL?PNL:KYA,i)) mc_fail("the panel picture is that of %s",R.typ==PNL?"a keyboard":"PNL");
	for (int i=0;i<4;++i){ struct sprite_info* s=&P->panel.keys[ICON_START+i]; if (s->active!=R.on[i]) mc_fail("icon %d is %s",i,s->active?"shown":"not shown"); if (R.on[i]&&s->chr!=R.icn[i]*4) mc_fail("icon %d shows %d, expected %d",i,s->chr/4,R.icn[i]); } for (int i=0;i<2;++i) if (P->panel.keys[ICON_PAGE_START+i].active!=R.puse) mc_fail("icon page buttons are %s",R.puse?"hidden":"shown");
	for (int i=0;i<5;++i) for (int j=0;j<6;++j){ u16 w=j==5?0:j==4&&R.fl[i]>4?to_wide('.'):j<R.fl[i]?R.f[i][j]:to_wide(' '); u16 g=P->panel.keys_text->text[0][1+i*6+j]; if (g!=w&&!(w==to_wide(' ')&&!g)&&!(i==4&&j==5)) mc_fail("function key %d shows %04x at %d, expected %04x",i+1,g,j,w); }
	if (memcmp(R.pt,P->panel.text->text,sizeof R.pt)||memcmp(R.pc,P->panel.text->color,sizeof R.pc)) mc_fail("lower screen text differs"); if (!!(P->panel.cursor&PNL_INSERT)!=R.ins) mc_fail("insert mode is %d",!R.ins); mc_state(mc_hash(&R,sizeof R)); }
static void reads(void){ // what the program sees
	must("K=KEYBOARD:F=FUNCNO:I=ICONCHK():P=ICONPAGE:M=ICONPMAX:U=ICONPUSE"); int k=fired>=1&&fired<=69?fired:0, f=fired>100&&fired<106?fired-100:0, i=fired>=90&&fired<=93&&R.on[fired-90]?fired-90:-1; int K=sys_num("K")>>12, F=sys_num("F")>>12; if (K!=k&&(R.typ>=KYA||K)) mc_fail("KEYBOARD is %d, expected %d",K,k); if (F!=f&&(R.typ>=KYA||F)) mc_fail("FUNCNO is %d, expected %d",F,f); if (sys_num("I")!=i*4096) mc_fail("ICONCHK is %d, expected %d",sys_num("I")>>12,i); if (sys_num("P")!=R.page*4096||sys_num("M")!=R.pmax*4096||sys_num("U")!=R.puse*4096) mc_fail("ICONPAGE %d ICONPMAX %d ICONPUSE %d, expected %d %d %d",sys_num("P")>>12,sys_num("M")>>12,sys_num("U")>>12,R.page,R.pmax,R.puse); mc_validated(6); }
static void frame(bool t, int x, int y){ set_touch(&P->input,t,x,y); press_key(P,t,x,y); inc_time(&P->time); r_frame(t,x,y); mc_trans(1); if ((P->exec.error==ERR_BREAK)!=R.brk) mc_fail("%s",R.brk?"no break":"unexpected break"); P->exec.error=0; R.brk=false; check(); reads(); }
#define DO(...) do { char q_[300]; sprintf(q_,__VA_ARGS__); mc_desc("%s:",q_); must("%s",q_); } while(0)
static const char* const tn[]={"OFF","PNL","KYA","KYM","KYK"};
static void typ(int t){ DO("PNLTYPE \"%s\"",tn[t]); R.typ=t; }
static void shift(int s){ if (s&1){ frame(true,4,124); frame(false,0,0); } if (s&2){ frame(true,4,148); frame(false,0,0); } }
static void s_map(void){ // every position in every layout
	int t=mc_choose(5), s=mc_choose(4), cx=mc_range(32), cy=mc_range(24), e=mc_choose(mc_thorough?4:2), u=mc_choose(2); if (u&&(cy<20||cx<17||cx>20)) mc_skip(); start(); shift(s); if (t!=KYA){ typ(t); check(); } if (u){ DO("ICONPMAX=3:ICONPUSE=1:ICONPAGE=1:ICONSET 0,7:ICONSET 3,9"); R.puse=true; R.pmax=3; R.page=1; R.on[0]=R.on[3]=1; R.icn[0]=7; R.icn[3]=9; } int x=cx*8+(e==0||e==3?0:7), y=cy*8+(e&1?7:e?0:3); mc_desc("shift %d touch %d,%d",s,x,y); frame(true,x,y); int k=fired; frame(true,x,y); frame(false,0,0); frame(false,0,0); mc_nontrivial(mc_mix(t*4+s,mc_mix(cx*24+cy,e*2+u))); mc_outcome(mc_mix(k,mc_hash(&R,sizeof R))); }
static const int pts[][2]={{50,100},{60,52},{4,130},{4,150},{30,150},{60,150},{100,150},{180,150},{4,50},{20,4},{100,10},{245,4},{150,170},{150,185},{165,180},{250,180},{36,170},{100,40},{210,150},{245,60},{250,130},{10,180}}; enum { NP=sizeof pts/sizeof*pts };
static void s_hold(void){ // hold for n frames, leave to another place at frame k, come back
	int a=mc_choose(NP), b=mc_choose(4), n=mc_range(mc_thorough?62:44)+1, g=mc_choose(3); static const int bq[][2]={{70,100},{100,40},{168,172},{150,183}}; if (g&&n>3&&n!=31&&n!=35) mc_skip(); if (!g&&b) mc_skip(); start(); DO("ICONPMAX=9:ICONPUSE=1:ICONPAGE=4:ICONSET 0,1:ICONSET 3,5"); R.puse=true; R.pmax=9; R.page=4; R.on[0]=R.on[3]=1; R.icn[0]=1; R.icn[3]=5; mc_desc("hold %d,%d for %d frames%s",pts[a][0],pts[a][1],n,g==1?" and leave":g==2?" and leave and come back":""); for (int i=0;i<n;++i) frame(true,pts[a][0],pts[a][1]); if (g){ for (int i=0;i<3;++i) frame(true,bq[b][0],bq[b][1]); if (g==2) for (int i=0;i<40;++i) frame(true,pts[a][0],pts[a][1]); } frame(false,0,0); frame(true,pts[a][0],pts[a][1]); frame(false,9,9); mc_nontrivial(mc_mix(mc_mix(a*4+b,n),g)); mc_outcome(mc_hash(&R,sizeof R)); }
static void s_slide(void){ // start on an empty place, slide over keys, between the parts of one key
	int a=mc_choose(NP), b=mc_choose(NP), c=mc_choose(NP), s=mc_choose(3); static const int st[][2]={{100,20},{250,100},{4,165}}; start(); mc_desc("slide %d,%d %d,%d %d,%d %d,%d",st[s][0],st[s][1],pts[a][0],pts[a][1],pts[b][0],pts[b][1],pts[c][0],pts[c][1]); frame(true,st[s][0],st[s][1]); frame(true,pts[a][0],pts[a][1]); frame(true,pts[b][0],pts[b][1]); frame(true,pts[c][0],pts[c][1]); frame(false,0,0); frame(true,pts[c][0],pts[c][1]); frame(false,0,0); mc_nontrivial(mc_mix(a*NP+b,c*3+s)); }
static void s_long(void){ // very long holds: the repetition never stops
	int a=mc_choose(NP), n=mc_thorough?1200:330; start(); DO("ICONPMAX=90:ICONPUSE=1:ICONPAGE=40:ICONSET 0,1"); R.puse=true; R.pmax=90; R.page=40; R.on[0]=1; R.icn[0]=1; mc_desc("hold %d,%d for %d frames",pts[a][0],pts[a][1],n); for (int i=0;i<n;++i) frame(true,pts[a][0],pts[a][1]); frame(false,0,0); frame(true,pts[a][0],pts[a][1]); frame(false,0,0); mc_nontrivial(mc_mix(a,n)); mc_outcome(mc_hash(&R,sizeof R)); }
static void s_within(void){ // moving inside one key never releases it
	static int kc[120][40], kn[120]; static bool init; if (!init){ init=true; R.puse=true; for (int c=0;c<768;++c){ int k=at(c%32*8+4,c/32*8+4); if (k&&kn[k]<40) kc[k][kn[k]++]=c; } } int k=mc_choose(110), a=mc_choose(40), b=mc_choose(40), h=mc_choose(3); if (a>=kn[k]||b>=kn[k]) mc_skip(); if (!mc_thorough&&(a>1&&a!=kn[k]-1)) mc_skip(); start(); DO("ICONPMAX=9:ICONPUSE=1:ICONPAGE=4:ICONSET 0,1:ICONSET 3,5"); R.puse=true; R.pmax=9; R.page=4; R.on[0]=R.on[3]=1; R.icn[0]=1; R.icn[3]=5; int ax=kc[k][a]%32*8, ay=kc[k][a]/32*8, bx=kc[k][b]%32*8, by=kc[k][b]/32*8; bool low=k==80; mc_desc("inside key %d from %d,%d to %d,%d",k,ax,ay,bx,by); static const int n1[]={1,20,33}; for (int i=0;i<n1[h];++i) frame(true,ax,ay+(low?0:7)); for (int i=0;i<20;++i) frame(true,bx+7,by+(low?3:0)); frame(false,0,0); frame(true,bx,by); frame(false,0,0); mc_nontrivial(mc_mix(k*40+a,b*3+h)); mc_outcome(mc_hash(&R,sizeof R)); }
static void s_edges(void){ // every row and column of points on the lower screen, each touched afresh
	int v=mc_choose(2), at0=mc_range(256), ln=mc_choose(12), u=mc_choose(2); static const int ys[]={0,20,60,80,100,130,150,164,170,175,181,190}, xs[]={8,28,48,101,140,147,155,163,200,220,240,250}; if (v&&at0>=192) mc_skip(); start(); DO("ICONPMAX=9:ICONPUSE=%d:ICONPAGE=4:ICONSET 0,1:ICONSET 3,5",u); R.puse=u; R.pmax=9; R.page=4; R.on[0]=R.on[3]=1; R.icn[0]=1; R.icn[3]=5; int x=v?xs[ln]:at0, y=v?at0:ys[ln]; mc_desc("touch %d,%d",x,y); frame(true,x,y); frame(false,0,0); mc_nontrivial(mc_mix(x*256+y,u)); mc_outcome(mc_hash(&R,sizeof R)); }
static void s_types(void){ // every sequence of panels: picture and key images always those of the last one
	start(); uint64_t h=0; int n=mc_thorough?5:4, s=mc_choose(4); shift(s); for (int i=0;i<n;++i){ int t=mc_choose(5); typ(t); check(); if (t>=KYA&&mc_choose(2)){ frame(true,40,100); frame(false,0,0); h=mc_mix(h,9); } h=mc_mix(h,t); } mc_nontrivial(mc_mix(h,s)); }
static void op(int k){ switch (k){ case 0: frame(true,50,100); break; case 1: frame(true,70,130); break; case 2: frame(true,4,130); break; case 3: frame(true,4,150); break; case 4: frame(true,30,150); break; case 5: frame(true,46,150); break; case 6: frame(true,62,150); break; case 7: case 8: case 9: case 10: typ(k==7?OFF:k==8?PNL:k==9?KYA:KYM); break; case 11: frame(true,100,8); break; case 12: DO("KEY 3,\"aB#\""); R.fl[2]=3; for (int i=0;i<3;++i) R.f[2][i]=to_wide("aB#"[i]); break; case 13: DO("ICONSET 2,40"); R.on[2]=1; R.icn[2]=40; break; case 14: frame(true,210,185); break; case 15: DO("ICONCLR 2"); R.on[2]=0; break; case 16: DO("ICONPUSE=TRUE:ICONPMAX=2"); R.puse=true; R.pmax=2; break; case 17: frame(true,150,190); break; case 18: frame(true,150,170); break; case 19: DO("ICONPUSE=FALSE"); R.puse=false; break; case 20: typ(KYK); break; case 21: frame(true,204,150); break; }
	if (k<=6||k==11||k==14||k==17||k==18||k==21) mc_desc("touch%d:",k); else { check(); reads(); } }
static void s_seq(void){ int n=mc_thorough?4:3; start(); uint64_t h=0; for (int i=0;i<n;++i){ int k=mc_choose(22), r=mc_choose(2); bool tch=k<=6||k==11||k==14||k==17||k==18||k==21; if (r&&!tch) mc_skip(); op(k); if (tch&&!r) frame(false,0,0); h=mc_mix(h,k*2+r); } frame(false,0,0); frame(true,70,100); frame(false,0,0); mc_nontrivial(h); mc_outcome(mc_hash(&R,sizeof R)); }
static const int lens[]={0,1,3,4,5,6,30,255,256,300};
static void s_key(void){ // function key texts, character by character
	int k=mc_choose(5), l=lens[mc_choose(10)], c=mc_choose(5), bt=mc_choose(2); start(); char t[400]; for (int i=0;i<l;++i) t[i]=c==0?'A'+i%26:c==1?(char)(0xb1+i%40):c==2?(char)(1+i%31):c==3?" "[0]:(char)(0x80+i%33); t[l]=0; mc_desc("KEY %d of %d characters kind %d",k+1,l,c); if (l>256) mc_skip();
	must("A$=\"\""); for (int i=0;i<l&&i<256;++i) must("A$=A$+CHR$(%d)",(u8)t[i]); must("KEY %d,A$",k+1); if (l>256) l=256; R.fl[k]=l; for (int i=0;i<l;++i) R.f[k][i]=to_wide((u8)t[i]); check(); must("A$=\"gone\":B$=\"more\"+A$"); frame(true,48*k+(bt?0:47),bt?0:15); frame(false,0,0); mc_nontrivial(mc_mix(mc_mix(k,l),c*2+bt)); }
static void s_full(void){ // key buffer nearly full
	int n=mc_range(12)+246, base=mc_choose(3)*127, k=mc_choose(4); if (n>256) mc_skip(); start(); for (int i=0;i<base;++i){ set_inkey(&P->input,0xff21); get_inkey(&P->input); } for (int i=0;i<n;++i){ set_inkey(&P->input,0xff21+i%26); key_in(0xff21+i%26); } mc_desc("%d keys waiting after %d",n,base); if (k==0) frame(true,20,8); else if (k==1) frame(true,50,100); else if (k==2){ R.typ=KYK; must("PNLTYPE \"KYK\""); int m=nq; shift(1); (void)m; for (int i=0;i<n;++i){ set_inkey(&P->input,0xff21+i%26); key_in(0xff21+i%26); } frame(true,80,100); } else { must("A$=\"\":FOR I=1 TO %d:A$=A$+INKEY$():NEXT:B$=INKEY$():L=LEN(A$)",n); if (sys_num("L")!=n*4096) mc_fail("INKEY$ gave %d characters of %d",sys_num("L")>>12,n); struct named_var* v=sys_find("A",VAR_STRING); for (int i=0;i<n;++i) if (str_at_wide(v->value.ptr,i)!=q[i]) mc_fail("INKEY$ gave %04x, expected %04x",str_at_wide(v->value.ptr,i),q[i]); must("L=LEN(B$)"); if (sys_num("L")) mc_fail("INKEY$ of an empty buffer"); nq=0; } check(); mc_nontrivial(mc_mix(n,base*4+k)); }
static void s_inkey(void){ // every character of the machine through INKEY$; codes that are none must still be harmless
	int c=mc_range(256), k=mc_choose(3); start(); if (k==0){ if (!c) mc_skip(); set_inkey(&P->input,to_wide(c)); mc_desc("key %d",c); must("A$=INKEY$():B$=INKEY$()"); must("A=ASC(A$):L=LEN(A$)+LEN(B$)*9"); if (sys_num("A")!=c*4096||sys_num("L")!=4096) mc_fail("INKEY$ gave %d, length code %d",sys_num("A")>>12,sys_num("L")>>12); } else { u16 w=k==1?0xff00+c:(mc_thorough?0x3000:0x4e00)+c*61; set_inkey(&P->input,w); mc_desc("key code %04x",w); must("A$=INKEY$():L=LEN(A$)"); if (sys_num("L")>4096) mc_fail("length %d",sys_num("L")>>12); } mc_validated(2); mc_nontrivial(c*3+k); mc_state(c*3+k); }
static void s_pnlstr(void){ static const int xv[]={0,5,30,31,32,-1,12}, yv[]={0,7,23,24,-1}, cv[]={-2,0,15,7,16,-1}; int x=xv[mc_choose(7)], y=yv[mc_choose(5)], c=cv[mc_choose(6)], l=mc_choose(5), t2=mc_choose(2); static const int lv[]={0,1,2,31,40}; l=lv[l]; start(); char s[64]; for (int i=0;i<l;++i) s[i]='A'+(i*7+x)%26; s[l]=0; if (t2){ DO("PNLSTR 3,%d,\"hello\",4",y<0||y>23?2:y); for (int i=0;i<5;++i){ R.pt[y<0||y>23?2:y][3+i]=to_wide("hello"[i]); R.pc[y<0||y>23?2:y][3+i]=4; } check(); } char b[200]; sprintf(b,c==-2?"PNLSTR %d,%d,\"%s\"":"PNLSTR %d,%d,\"%s\",%d",x,y,s,c); mc_desc("%s",b); int e=bas("%s",b); bool in=x>=0&&x<32&&y>=0&&y<24, ok=c==-2||(c>=0&&c<16); if (in&&!e!=ok) mc_fail("%s",e?errname(e):"accepted"); if (in&&ok) for (int i=0;i<l&&x+i<32;++i){ R.pt[y][x+i]=to_wide((u8)s[i]); R.pc[y][x+i]=c<0?0:c; } check(); mc_nontrivial(mc_mix(x*64+y,mc_mix(c,l*2+t2))); }
static void s_icons(void){ // icon variables and page buttons
	static const int v[]={0,1,3,-1,-5,100,524287}; int m=mc_choose(7), p=mc_choose(7), u=mc_choose(5), fr=mc_choose(2); int uv[]={0,1,-1,7,524287}; start(); const char* h=fr?".5":""; DO("ICONPMAX=%d%s",v[m],h); R.pmax=v[m]<0?0:v[m]; check(); DO("ICONPAGE=%d%s",v[p],h); R.page=v[p]<0?0:v[p]>R.pmax?R.pmax:v[p]; check(); DO("ICONPUSE=%d%s",uv[u],h); R.puse=uv[u]!=0||fr; if (fr&&(v[m]>=524287||v[p]>=524287||v[p]<0)) { must("P=ICONPAGE"); if (sys_num("P")&4095||sys_num("P")<0||sys_num("P")>R.pmax*4096) mc_fail("ICONPAGE is %d",sys_num("P")); R.page=sys_num("P")>>12; } check(); reads(); for (int i=0;i<3;++i){ frame(true,150,190); frame(false,0,0); } for (int i=0;i<4;++i){ frame(true,150,170); frame(false,0,0); } frame(true,150,179); frame(true,150,180); frame(true,150,170); frame(false,0,0); mc_nontrivial(mc_mix(m*7+p,u*2+fr)); }
static void s_iconset(void){ static const int iv[]={0,3,-1,4,256,524287,-524287}, cv[]={0,63,1,-1,65,256,524287}; int i=iv[mc_choose(7)], c=cv[mc_choose(7)], k=mc_choose(3); start(); DO("ICONSET 1,20:ICONSET 3,21"); R.on[1]=R.on[3]=1; R.icn[1]=20; R.icn[3]=21; char b[60]; if (k==0) sprintf(b,"ICONSET %d,%d",i,c); else if (k==1) sprintf(b,"ICONCLR %d",i); else strcpy(b,"ICONCLR"); mc_desc("%s",b); int e=bas("%s",b); bool ok=k==2||((i>=0&&i<4)&&(k||(c>=0&&c<64))); if (!e!=ok) mc_fail("%s",e?errname(e):"accepted"); if (ok){ if (k==0){ R.on[i]=1; R.icn[i]=c; } else for (int j=0;j<4;++j) if (k==2||j==i) R.on[j]=0; } check(); for (int j=0;j<4;++j){ frame(true,160+24*j,170); frame(false,0,0); frame(true,183+24*j,191); frame(false,0,0); } mc_nontrivial(mc_mix(i*7+c,k)); }
static void s_bad(void){ static const char* const t[]={"KEY 0,\"A\"","KEY 6,\"A\"","KEY -1,\"A\"","KEY 257,\"A\"","PNLTYPE \"\"","PNLTYPE \"KYB\"","PNLTYPE \"KYAA\"","PNLTYPE \"kya\"","PNLTYPE \"PN\"","PNLTYPE \"OF\"","KEY 524287,\"A\"","PNLTYPE \"OFFF\"","KEY 1","PNLTYPE 1"}; int i=mc_choose(14), ty=mc_choose(5); start(); typ(ty); mc_desc("%s",t[i]); if (!bas("%s",t[i])) mc_fail("accepted"); check(); mc_nontrivial(i*5+ty); }
// INPUT shows the keyboard and puts the panel back
static int iev, nev; static struct { int x, y; } ev[8]; static int mid;
static void deliver(void){ if (iev<nev*2){ bool t=!(iev&1); int x=ev[iev/2].x, y=ev[iev/2].y; press_key(P,t,x,y); r_frame(t,x,y); inc_time(&P->time); ++iev; int s=(R.sh&1)^(R.sh>>1), k=((R.typ-KYA)*2+s)*2; for (int i=0;i<2;++i) if (memcmp(KCH(i),P->res.key_chr[k+i],CHR_SIZE)) mc_fail("during INPUT the keys shown are those of layout %d, expected %d",KCH(i)[0]/32,k/2); if ((int)P->panel.type!=R.typ) mc_fail("during INPUT the panel is %d",P->panel.type); for (int i=0;i<768;++i) if (P->res.scr[SCR_BANKS+1][i]!=pat(KYA,i)) mc_fail("during INPUT the panel picture is that of PNL"); ++mid; } else { set_inkey(&P->input,'\r'); inc_time(&P->time); press_key(P,false,0,0); } }
static void s_input(void){ int t=mc_choose(5), s=mc_choose(4), n=mc_choose(mc_thorough?4:3); static const int ip[][2]={{50,100},{4,130},{30,150},{46,150},{62,150},{70,130},{30,8}}; start(); shift(s); typ(t); check(); nev=n; for (int i=0;i<n;++i){ int k=mc_choose(7); ev[i].x=ip[k][0]; ev[i].y=ip[k][1]; mc_desc("touch %d,%d ",ip[k][0],ip[k][1]); } iev=mid=0; R.typ=KYA; P->console.test_mode=false; sys_on_sleep=deliver; int e=bas("LINPUT A$"); sys_on_sleep=NULL; if (e) mc_fail("%s",errname(e)); struct named_var* v=sys_find("A",VAR_STRING); if (!v||(int)str_len(v->value.ptr)!=nq) mc_fail("%d characters entered, expected %d",v?(int)str_len(v->value.ptr):-1,nq); for (int i=0;i<nq;++i) if (str_at_wide(v->value.ptr,i)!=q[i]) mc_fail("character %d is %04x, expected %04x",i,str_at_wide(v->value.ptr,i),q[i]); nq=0; R.typ=t; R.key=R.time=0; press_key(P,false,0,0); check(); frame(true,50,100); frame(false,0,0); mc_nontrivial(mc_mix(t*4+s,mc_hash(ev,sizeof(ev[0])*n))); }
const mc_suite mc_suites[]={ {"map",s_map,MC_QT,boot},{"hold",s_hold,MC_QT,boot},{"slide",s_slide,MC_QT,boot},{"long",s_long,MC_QT,boot},{"within",s_within,MC_QT,boot},{"edges",s_edges,MC_QT,boot},{"types",s_types,MC_QT,boot},{"seq",s_seq,MC_QT,boot},{"key",s_key,MC_QT,boot},{"full",s_full,MC_QT,boot},{"inkey",s_inkey,MC_QT,boot},{"text",s_pnlstr,MC_QT,boot},{"icons",s_icons,MC_QT,boot},{"iconset",s_iconset,MC_QT,boot},{"bad",s_bad,MC_QT,boot},{"input",s_input,MC_QT,boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

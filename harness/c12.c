// C12: INPUT and LINPUT against a reference line editor; the harness plays the window thread, one event per frame.
#include "bas.h"
const char* mc_rule = "every sequence of editing events up to the stated length from empty, partly filled and full lines; every entry line up to the stated length over digits, signs, points, commas, spaces and letters for every variable list; every prompt length and start position; every point of a BREAK; old text on the line; exhausted string memory; counted by event sequence, prompt and variables";
enum { E_CHR=0, E_BS=0x10000, E_Y, E_DEL, E_LEFT, E_RIGHT, E_INS, E_A, E_SEL, E_NONE, E_L, E_BURST };
static int ev[400], nev, iev, rel, stuck; static u16 burst[8]; static int nburst; static u32 burstb;
static u32 held; static int nheld;
static void put(int e){ ev[nev++]=e; }
static void puts_(const char* s){ while (*s) put(to_wide((u8)*s++)); }
static void frame(u32 b, bool t, int x, int y){ set_input(P,b); set_touch(&P->input,t,x,y); press_key(P,t,x,y); inc_time(&P->time); }
static void deliver(void){
	if (nheld){ --nheld; frame(held,false,0,0); return; }
	if (rel){ rel=0; frame(0,false,0,0); return; }
	if (iev>=nev){ if (++stuck>3) frame(BUTTON_SELECT,false,0,0); else frame(0,false,0,0); return; }
	int e=ev[iev++]; rel=1;
	switch (e){
	case E_BS: frame(0,true,236,60); break; case E_DEL: frame(0,true,220,150); break; case E_INS: frame(0,true,204,150); break;
	case E_Y: frame(BUTTON_Y,false,0,0); break; case E_LEFT: frame(BUTTON_LEFT,false,0,0); break; case E_RIGHT: frame(BUTTON_RIGHT,false,0,0); break; case E_A: frame(BUTTON_A,false,0,0); break; case E_SEL: frame(BUTTON_SELECT,false,0,0); break; case E_L: frame(BUTTON_L,false,0,0); break; case E_NONE: rel=0; frame(0,false,0,0); break;
	case E_BURST: for (int i=0;i<nburst;++i) set_inkey(&P->input,burst[i]); frame(burstb,false,0,0); break;
	default: rel=0; set_inkey(&P->input,e); frame(0,false,0,0);
	}
}
// reference line editor
typedef struct { u16 t[32]; int n, c, top; bool ins; } line;
static void edit(line* l, int e){
	switch (e){
	case E_BS: case E_Y: if (l->c){ memmove(l->t+l->c-1,l->t+l->c,2*(l->n-l->c)); --l->c; --l->n; } break;
	case E_DEL: if (l->c<l->n){ memmove(l->t+l->c,l->t+l->c+1,2*(l->n-l->c-1)); --l->n; } break;
	case E_LEFT: if (l->c) --l->c; break; case E_RIGHT: if (l->c<l->n) ++l->c; break; case E_INS: l->ins=!l->ins; break;
	case E_A: case E_SEL: case E_NONE: case E_L: break;
	default: if (l->ins ? l->n<32 : l->c<32){ if (l->ins||l->c==l->n){ if (l->ins) memmove(l->t+l->c+1,l->t+l->c,2*(l->n-l->c)); ++l->n; } l->t[l->c++]=e; } }
	if (l->n>l->top) l->top=l->n;
}
// reference screen
static struct { u16 t[24][32]; u8 c[24][32]; int x,y; } R;
static struct console* C;
static void scroll(void){ memmove(R.t[0],R.t[1],sizeof R.t[0]*23); memmove(R.c[0],R.c[1],32*23); memset(R.t[23],0,64); memset(R.c[23],C->col,32); --R.y; }
static void r_put(u16 w){ if (R.y==24) scroll(); R.t[R.y][R.x]=w; R.c[R.y][R.x]=C->col; if (++R.x==32){ R.x=0; ++R.y; } }
static void r_text(const char* s){ if (R.y==24) scroll(); while (*s) r_put(to_wide((u8)*s++)); }
static void r_nl(void){ R.x=0; ++R.y; while (R.y>=24) scroll(); }
static void r_prompt(const char* s){ if (s) r_text(s); r_text("?"); if (R.x) r_nl(); else if (R.y==24) scroll(); }
static void r_line(const line* l){ for (int i=0;i<l->top;++i){ R.t[R.y][i]=i<l->n?l->t[i]:0; R.c[R.y][i]=i<l->n?C->col:1; } } // colour 1: not prescribed
static void differ(void){
	mc_validated(1);
	for (int y=0;y<24;++y) for (int x=0;x<32;++x){ if (C->text[y][x]!=R.t[y][x]) mc_fail("the character at %d,%d is %04x, expected %04x",x,y,C->text[y][x],R.t[y][x]); if (R.c[y][x]!=1 && C->color[y][x]!=R.c[y][x]) mc_fail("the colour at %d,%d is %02x, expected %02x",x,y,C->color[y][x],R.c[y][x]); }
	if (C->x!=R.x||C->y!=R.y) mc_fail("the cursor is at %d,%d, expected %d,%d",(int)C->x,(int)C->y,R.x,R.y);
}
static void start(int x, int y, int fill){ // fill 0 blank, 1 pattern
	sys_reset(); C=&P->console; C->test_mode=false; sys_on_sleep=deliver; nev=iev=rel=stuck=0; nheld=0; C->col=0x26; R.x=C->x=x; R.y=C->y=y; mode=0;
	for (int j=0;j<24;++j) for (int i=0;i<32;++i){ R.t[j][i]=C->text[j][i]=fill?to_wide("ab,1 -.Z"[(i+j)%8]):0; R.c[j][i]=C->color[j][i]=fill?0x80+j+i:0; }
}
static void is_str(const char* v, const u16* t, int n){ // string variable equals the wide text
	struct named_var* x=sys_find(v,VAR_STRING); if (!x) mc_fail("%s$ missing",v); const void* s=x->value.ptr; mc_validated(1); if ((int)str_len(s)!=n) mc_fail("%s$ has %d characters, expected %d",v,(int)str_len(s),n); for (int i=0;i<n;++i) if (str_at_wide(s,i)!=t[i]) mc_fail("%s$ character %d is %04x, expected %04x",v,i,str_at_wide(s,i),t[i]);
}
static int go(const char* cmd){ int e=bas("%s",cmd); mc_trans(iev); if (stuck>3) mc_fail("still asking after the entry was confirmed"); return e; }
static void s_edit(void){
	static const int al[]={0xff58,0x4e00,E_BS,E_DEL,E_LEFT,E_RIGHT,E_INS,E_Y}; static const int pre[]={0,2,30,32};
	int lin=mc_choose(2), p=pre[mc_choose(4)], back=mc_choose(3), a=mc_choose(2); int d=mc_thorough?7:5; static const int bk[]={0,1,5}; back=bk[back]; if (back>p) mc_skip(); start(0,lin?3:23,1); line l={{0},0,0,0,true};
	if (lin) must("LOCATE 0,3"); R.x=0; R.y=lin?3:23; for (int i=0;i<p;++i) put(to_wide("ABCDEFGHIJKLMNOPQRSTUVWXYZ012345"[i])); for (int i=0;i<back;++i) put(E_LEFT);
	mc_desc("%s with %d characters, %d back:",lin?"LINPUT":"INPUT",p,back); uint64_t h=mc_mix(p*8+back,lin*2+a);
	for (int i=0;i<d;++i){ int k=mc_choose(9); if (k==8) break; put(al[k]); mc_desc(" %s",(const char*[]){"x","KANJI","backspace","delete","left","right","insert","Y"}[k]); h=mc_mix(h,k+1); }
	for (int i=0;i<nev;++i) edit(&l,ev[i]); put(a?E_A:'\r'); r_prompt(0); r_line(&l); r_nl();
	int e=go(lin?"LINPUT A$":"INPUT A$"); if (e) mc_fail("%s",errname(e)); differ(); is_str("A",l.t,l.n); mc_nontrivial(h); mc_state(mc_mix(mc_hash(l.t,2*l.n),mc_mix(l.c,l.n*2+l.ins))); mc_outcome(mc_hash(l.t,2*l.n));
}
// entries
typedef struct { bool ok, odd; fixp v; } num;
static num numval(const char* s, int n){ // digits with optional sign and point; spaces after it are ignored; spaces elsewhere are not prescribed
	num r={false,false,0}; int i=0, j=n; while (j>i&&s[j-1]==' ') --j; for (int k=0;k<j;++k) if (s[k]==' ') r.odd=true; while (i<j&&s[i]==' ') ++i; bool neg=false; if (i<j&&s[i]=='-'){ neg=true; ++i; }
	if (r.odd){ for (int k=i;k<j;++k) if (s[k]==' ') j=k; }
	long ip=0; long f=0, sc=1; int dg=0; while (i<j&&s[i]>='0'&&s[i]<='9'){ if (ip<10000000) ip=ip*10+s[i]-'0'; ++i; ++dg; } if (i<j&&s[i]=='.'){ ++i; while (i<j&&s[i]>='0'&&s[i]<='9'){ if (sc<100000000000000){ sc*=10; f=f*10+s[i]-'0'; } ++i; ++dg; } }
	if (i<j||!dg) return r; long v=ip*4096+f*4096/sc; if (neg) v=-v; r.ok=v>=INT32_MIN&&v<=INT32_MAX; r.v=v; return r;
}
static const char* const vl[]={"N","S","NN","NS","SN","SS","NNS","NNNN"};
static const char vn[]="ABCD";
static void entry(const char* s, int k, bool keep_screen){ // s typed as one line for variable list k
	int nv=strlen(vl[k]), n=strlen(s); char cmd[100]="A=77:B=77:C=77:D=77:A$=\"old\":B$=\"old\":C$=\"old\""; must("%s",cmd); strcpy(cmd,"INPUT "); for (int i=0;i<nv;++i) sprintf(cmd+strlen(cmd),"%s%c%s",i?",":"",vn[i],vl[k][i]=='S'?"$":""); mc_desc("%s typed \"%s\"",cmd,s);
	struct { const char* p; int n; } f[40]; int nf=1; f[0].p=s; f[0].n=0; for (int i=0;i<n;++i) if (s[i]==','){ f[nf].p=s+i+1; f[nf++].n=0; } else ++f[nf-1].n;
	bool fits=nf==nv, odd=false; fixp want[4]; if (fits) for (int i=0;i<nv;++i) if (vl[k][i]=='N'){ num r=numval(f[i].p,f[i].n); if (!r.ok) fits=false; want[i]=r.v; if (r.odd) odd=true; }
	if (nf!=nv) odd=false;
	puts_(s); put('\r'); int first=nev; char good[40]=""; for (int i=0;i<nv;++i) strcat(good,i?",5":"5"); puts_(good); put('\r'); // second line for the case it asks again
	r_prompt(0); line l={{0},0,0,0,true}; for (int i=0;i<n;++i) edit(&l,to_wide((u8)s[i])); r_line(&l); r_nl();
	int e=go(cmd); if (e) mc_fail("%s",errname(e)); bool again=iev>first;
	if (!odd && again==fits) mc_fail("%s",fits?"asked again although the entry fits":"accepted an entry that does not fit"); if (odd && !fits && !again) mc_skip();
	if (again){ r_text("?Redo from start"); r_nl(); r_prompt(0); line g={{0},0,0,0,true}; for (int i=0;good[i];++i) edit(&g,to_wide((u8)good[i])); r_line(&g); r_nl(); }
	if (keep_screen) differ();
	for (int i=0;i<4;++i){ char v[2]={vn[i],0}; bool isn=i<nv&&vl[k][i]=='N', iss=i<nv&&vl[k][i]=='S'; fixp w=!isn?77*4096:again?5*4096:want[i]; mc_validated(1);
		if (sys_num(v)!=w) mc_fail("%s is %08x, expected %08x",v,(unsigned)sys_num(v),(unsigned)w);
		if (i<3){ u16 t[40]; const char* q=!iss?"old":again?"5":f[i].p; int m=!iss?3:again?1:f[i].n; for (int j=0;j<m;++j) t[j]=to_wide((u8)q[j]); is_str(v,t,m); } }
	mc_nontrivial(mc_mix(mc_hash(s,n),k)); mc_state(sys_hash_vars()); mc_outcome(mc_mix(sys_hash_vars(),again));
}
static void s_entry(void){
	static const char al[]="19-., A"; int k=mc_choose(8); char s[8]; int n=0, d=mc_thorough?7:5; for (;n<d;++n){ int c=mc_choose(8); if (c==7) break; s[n]=al[c]; } s[n]=0; start(0,5,0); entry(s,k,true);
}
static void s_values(void){ // boundary numbers and full lines
	static const char* const t[]={"524287","524288","-524288","-524289","524287.9998","524287.9999","-524288.0001","0.0001","0.0002","-0.0002","00000000000000000000000000000012","1.50000000000000000000000000000","99999999999999999999999999999999","-9999999999999999999999999999999",".5","-.5","5.","12345678901234567890123456789012","3.1415926535","4294967296","4294967297","-4294967295","2147483648","0","-0","00","ABCDEFGHIJKLMNOPQRSTUVWXYZ012345","ABCDEFGHIJKLMNOPQRSTUVWXYZ01234","1,ABCDEFGHIJKLMNOPQRSTUVWXYZ0123","1,ABCDEFGHIJKLMNOPQRSTUVWXYZ012","ABCDEFGHIJKLMNOPQRSTUVWXYZ0123,7","ABCDEFGHIJKLMNOPQRSTUVWXYZ012,77","1,2,ABCDEFGHIJKLMNOPQRSTUVWXYZ01","ABCDEFGHIJKLMNO,PQRSTUVWXYZ01234","ABCDEFGHIJKLMNO,PQRSTUVWXYZ0123",",,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,,","1,2,3,4","1,2,3,400000","1,2,,4","&H10","1E5","1-2","--1","1.2.3","-.","%5","\"5\"","+5","A","a b",",",",A","A,"," ,"};
	int i=mc_range(sizeof t/sizeof *t), k=mc_choose(8); start(0,5,0); entry(t[i],k,true);
}
static void s_old(void){ // old text on the entry line is not part of the entry
	static const char* const t[]={"","7","A","7,8","12,AB","ABCDEFGHIJKLMNOPQRSTUVWXYZ012345"}; int i=mc_choose(6), k=mc_choose(6), y=mc_range(24); start(0,y,1); mc_desc("old text, line %d ",y); entry(t[i],k,true);
}
static void s_prompt(void){
	static const int len[]={-1,0,1,5,30,31,32,33,63,64,95}; int li=mc_choose(11), how=mc_choose(4), lin=mc_choose(2), x=mc_choose(4), y=mc_choose(5), redo=mc_choose(2); static const int xs[]={0,1,30,31}, ys[]={0,21,22,23,24}; x=xs[x]; y=ys[y]; if (y==24&&x) mc_skip(); int n=len[li]; if (n<0&&how) mc_skip(); if (lin&&redo) mc_skip(); if (how==3&&n<1) mc_skip();
	char pr[100]=""; for (int i=0;i<n;++i) pr[i]="abcdefghijklmnopqrstuvwxyz0123456789"[i%36]; if (n>=0) pr[n]=0; char cmd[300]; start(x,y,1);
	if (how==1) must("Q$=\"%s\"",pr); if (how==2) must("DIM K$(3):K$(2)=\"%s\"",pr); if (how==3) must("Q$=\"%.*s\"",n-1,pr);
	const char* v=lin?"A$":"A"; if (n<0) sprintf(cmd,"%sINPUT %s",lin?"L":"",v); else if (!how) sprintf(cmd,"%sINPUT \"%s\";%s",lin?"L":"",pr,v); else if (how==1) sprintf(cmd,"%sINPUT Q$;%s",lin?"L":"",v); else if (how==2) sprintf(cmd,"%sINPUT K$(2);%s",lin?"L":"",v); else sprintf(cmd,"%sINPUT Q$+\"%s\";%s",lin?"L":"",pr+n-1,v);
	mc_desc("cursor %d,%d %s",x,y,cmd); if (redo){ puts_("q"); put('\r'); puts_("w"); put('\r'); } puts_("42"); put('\r');
	r_prompt(n<0?0:pr); for (int r=0;r<redo*2;++r){ line g={{0},0,0,0,true}; edit(&g,to_wide(r?'w':'q')); r_line(&g); r_nl(); r_text("?Redo from start"); r_nl(); r_prompt(n<0?0:pr); } line l={{0},0,0,0,true}; edit(&l,to_wide('4')); edit(&l,to_wide('2')); r_line(&l); r_nl();
	int e=go(cmd); if (e) mc_fail("%s",errname(e)); differ(); if (lin){ u16 w[2]={to_wide('4'),to_wide('2')}; is_str("A",w,2); } else if (sys_num("A")!=42*4096) mc_fail("A is %d",sys_num("A")/4096);
	mc_nontrivial(mc_mix(li*4+how,mc_mix(lin*2+redo,x*32+y))); mc_state(mc_hash(&R,sizeof R));
}
static void s_break(void){ // a break at every point leaves the variables alone and the system usable
	int lin=mc_choose(2), n=mc_range(34), y=mc_choose(3), redo=mc_choose(2), ed=mc_choose(4); static const int ys[]={0,22,23}; y=ys[y]; if (lin&&redo) mc_skip(); start(0,y,1); must("A=77:A$=\"old\""); mc_desc("%sINPUT, %d characters%s, edit %d, then break",lin?"L":"",n,redo?" after one refused entry":"",ed);
	if (redo){ puts_("x,y"); put('\r'); } line l={{0},0,0,0,true}; int from=nev; for (int i=0;i<n;++i) put(to_wide('a'+i%26)); if (ed==1) put(E_BS); if (ed==2){ put(E_LEFT); put(E_DEL); } if (ed==3) put(E_L); for (int i=from;i<nev;++i) edit(&l,ev[i]); put(E_SEL);
	int e=go(lin?"LINPUT A$":"INPUT A$"); if (e!=ERR_BREAK) mc_fail("ended with %s",errname(e)); u16 o[3]={'o','l','d'}; for (int i=0;i<3;++i) o[i]=to_wide(o[i]); is_str("A",o,3); if (sys_num("A")!=77*4096) mc_fail("A changed"); if (P->console.cursor_visible) mc_fail("the entry cursor stays visible");
	r_prompt(0); if (redo){ line g={{0},0,0,0,true}; edit(&g,to_wide('x')); edit(&g,to_wide(',')); edit(&g,to_wide('y')); r_line(&g); r_nl(); r_text("?Redo from start"); r_nl(); r_prompt(0); } r_line(&l); r_nl(); differ();
	nev=iev=rel=stuck=0; must("PRINT \"next\""); r_text("next"); r_nl(); differ(); P->input.times[BUTTON_ID_SELECT].frame=0; puts_("z"); put('\r'); e=go("INPUT A$"); if (e) mc_fail("the next INPUT: %s",errname(e)); r_prompt(0); line z={{0},0,0,0,true}; edit(&z,to_wide('z')); r_line(&z); r_nl(); differ(); o[0]=to_wide('z'); is_str("A",o,1);
	mc_nontrivial(mc_mix(n*4+ed,lin*8+y+redo)); mc_state(mc_hash(&R,sizeof R));
}
static void s_mem(void){ // string slots: old values are released, exhaustion is an error
	int lin=mc_choose(2), w1=mc_choose(3), w2=mc_choose(3), full=mc_choose(2); start(0,3,0); static const char* const t[]={"","abc","\xb1z"}; mc_desc("%sINPUT text kinds %d then %d, %s",lin?"L":"",w1,w2,full?"memory full":"repeated");
	const char* c=lin?"LINPUT A$":"INPUT A$"; u16 w[3]; int live0=0;
	for (int r=0;r<(full?1:40);++r){ const char* s=t[r&1?w2:w1]; nev=iev=0; puts_(s); if (w1==2&&!(r&1)) put(0x4e05); put('\r'); int e=go(c); if (e) mc_fail("entry %d: %s",r,errname(e)); int n=0; for (;s[n];++n) w[n]=to_wide((u8)s[n]); if (w1==2&&!(r&1)) w[n++]=0x4e05; is_str("A",w,n); int live=sys_live_strings(); if (r==2) live0=live; if (r>2 && live>live0) mc_fail("string memory is lost: %d slots in use after %d entries, %d before",live,r+1,live0); }
	if (full){ must("DIM Z$(40)"); int e=0; for (int i=0;i<40&&!e;++i) e=bas("Z$(%d)=\"q\"",i); if (!e) mc_fail("memory never filled"); nev=iev=0; puts_("new"); put('\r'); e=go(c); struct named_var* v=sys_find("A",VAR_STRING); bool isnew=str_len(v->value.ptr)==3&&str_at_wide(v->value.ptr,0)==to_wide('n'); if (!e && !isnew) mc_fail("no error but not assigned"); if (e && isnew) mc_fail("error but assigned"); }
	bool ok; sys_ref_strings(&ok); if (!ok) mc_fail("string reference counts are wrong"); mc_nontrivial(mc_mix(lin*2+full,w1*3+w2)); mc_state(sys_hash_vars());
}
static void s_burst(void){ // several keys and a button in the same frame: nothing typed is lost
	int lin=mc_choose(2), n=mc_choose(6), b=mc_choose(6), ahead=mc_choose(3), a2=mc_choose(3); static const u32 bt[]={0,BUTTON_Y,BUTTON_LEFT,BUTTON_RIGHT,BUTTON_L,BUTTON_R}; static const int be[]={E_NONE,E_Y,E_LEFT,E_RIGHT,E_NONE,E_NONE}; start(0,3,0); for (int i=0;i<ahead;++i) set_inkey(&P->input,to_wide('p'+i)); 
	for (int i=0;i<a2;++i) put(to_wide('f'+i)); nburst=n; burstb=bt[b]; for (int i=0;i<n;++i) burst[i]=to_wide('1'+i); put(E_BURST); puts_("z"); put('\r'); mc_desc("%sINPUT, %d typed ahead, %d single, then %d keys with button %d in one frame",lin?"L":"",ahead,a2,n,b);
	int e=go(lin?"LINPUT A$":"INPUT A$"); if (e) mc_fail("%s",errname(e)); struct named_var* v=sys_find("A",VAR_STRING); const void* s=v->value.ptr; bool hit=false; char got[64]; int g=0; for (;g<(int)str_len(s);++g) got[g]=to_char(str_at_wide(s,g)); got[g]=0;
	for (int at=0;at<=ahead+a2+n && !hit;++at){ line l={{0},0,0,0,true}; int k=0; for (int i=0;i<ahead;++i){ if (k++==at) edit(&l,be[b]); edit(&l,to_wide('p'+i)); } for (int i=0;i<a2;++i){ if (k++==at) edit(&l,be[b]); edit(&l,to_wide('f'+i)); } for (int i=0;i<n;++i){ if (k++==at) edit(&l,be[b]); edit(&l,to_wide('1'+i)); } if (k==at) edit(&l,be[b]); edit(&l,to_wide('z')); hit=l.n==g; for (int i=0;i<g&&hit;++i) if (to_char(l.t[i])!=(u8)got[i]) hit=false; }
	mc_validated(1); if (!hit) mc_fail("the result is \"%s\"",got); mc_nontrivial(mc_mix(n*6+b,ahead*6+a2*2+lin)); mc_state(mc_hash(got,g));
}
static void s_target(void){ // array elements, repeated variables, conditions inside programs
	int k=mc_choose(14), md=mc_choose(3); start(0,3,0); setmode(md); static const char* const p[]={"DIM N(3):INPUT N(1),N(2):R=N(1)*100+N(2)+N(0)","DIM N(2,2):INPUT N(1,0),N(0,1):R=N(1,0)*100+N(0,1)","INPUT A,A:R=A+1200-0","FOR I=1 TO 2:INPUT A:R=R*100+A:NEXT","DIM K$(3):INPUT K$(1),A:R=VAL(K$(1))*100+A","DIM K$(2,2):LINPUT K$(1,1):LINPUT A$:R=VAL(K$(1,1))*100+VAL(A$)","IF 1 THEN INPUT A,B:R=A*100+B","GOSUB @G:R=A*100+B:END\r@G\rINPUT A,B:RETURN","INPUT \"Q\";A,B:R=A*100+B","INPUT \"LONG PROMPT\";A$,B:R=VAL(A$)*100+B","Q$=\"QUESTION\":INPUT Q$;A,Q$:R=A*100+VAL(Q$)","DIM N(3):I=1:INPUT \"\";N(I),N(I+1):R=N(1)*100+N(2)+N(0)","INPUT \"A\"+\"B\";A$,B$:R=VAL(A$+B$)","A=0:LINPUT \"Q\";A$:LINPUT \"A\"+A$;B$:R=VAL(A$)*100+VAL(B$)"};
	static const char* const in[]={"12\r34\r","12,34\r"}; bool two=k==3||k==5||k==13; puts_(in[!two]); mc_desc("%s",p[k]); char b[300]; sprintf(b,"%s\r",p[k]); int e=sys_run(b,opts()); if (e) mc_fail("%s",errname(e)); mc_validated(1); if (sys_num("R")!=1234*4096) mc_fail("R is %d",sys_num("R")/4096); mc_nontrivial(k*3+md); mc_state(sys_hash_vars());
}
static void s_held(void){ // a button that is already down when the entry starts, or stays down
	int b=mc_choose(6), before=mc_choose(5), n=mc_choose(13), lin=mc_choose(2), t=mc_choose(3); static const u32 bt[]={BUTTON_A,BUTTON_Y,BUTTON_LEFT,BUTTON_RIGHT,BUTTON_B,BUTTON_UP}; static const int be[]={E_NONE,E_Y,E_LEFT,E_NONE,E_NONE,E_NONE}; if (!(before+n)||before+n>13) mc_skip(); start(0,3,0); line l={{0},0,0,0,true};
	for (int i=0;i<before;++i) frame(bt[b],false,0,0); for (int i=0;i<t;++i) set_inkey(&P->input,to_wide('p'+i)); held=bt[b]; nheld=n; puts_("z"); put('\r'); mc_desc("%sINPUT, button %d down for %d frames before and %d after, %d keys typed ahead",lin?"L":"",b,before,n,t);
	int e=go(lin?"LINPUT A$":"INPUT A$"); if (e) mc_fail("%s",errname(e)); bool a=b==0&&!before; for (int i=0;i<t;++i) edit(&l,to_wide('p'+i)); if (!before) edit(&l,be[b]); if (!a) edit(&l,to_wide('z')); is_str("A",l.t,l.n); mc_nontrivial(mc_mix(b*5+before,mc_mix(n,t*2+lin))); mc_state(mc_hash(l.t,2*l.n)); }
const mc_suite mc_suites[]={ {"edit",s_edit,MC_QT,sys_boot},{"entry",s_entry,MC_QT,sys_boot},{"values",s_values,MC_QT,sys_boot},{"old",s_old,MC_QT,sys_boot},{"prompt",s_prompt,MC_QT,sys_boot},{"break",s_break,MC_QT,sys_boot},{"memory",s_mem,MC_QT,sys_boot},{"burst",s_burst,MC_QT,sys_boot},{"target",s_target,MC_QT,sys_boot},{"held",s_held,MC_QT,sys_boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

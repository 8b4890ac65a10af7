// C23: palettes and character images against a shadow copy of every bank.
#include "bas.h"
#include <unistd.h>
#include <sys/stat.h>
const char* mc_rule = "every resource name x page x item (all indexes in thorough); all values of each colour channel; every hex digit at every position and every character code at every position of the data strings; every legal and illegal name form; all sequences of statements up to the stated depth; every default file x fault at the start; counted by statement, resource and value";
#define NCHR (CHR_BANKS*2)
#define NCOL (COL_BANKS*2)
static u8 chr[NCHR][CHR_SIZE]; static u16 col[NCOL][256]; static u8 chr0[NCHR][CHR_SIZE]; static u16 col0[NCOL][256];
static int pg[3]; // BG, SP, GRP page
static void check(const char* what){
	mc_validated(1); for (int i=0;i<NCHR;++i) if (memcmp(chr[i],P->res.chr[i],CHR_SIZE)) for (int j=0;;++j) if (chr[i][j]!=P->res.chr[i][j]) mc_fail("after %s bank %d byte %d (character %d) is %02x, expected %02x",what,i,j,j/32,P->res.chr[i][j],chr[i][j]);
	for (int i=0;i<NCOL;++i) if (memcmp(col[i],P->res.col[i],COL_SIZE)) for (int j=0;;++j) if (col[i][j]!=P->res.col[i][j]) mc_fail("after %s palette %d colour %d is %04x, expected %04x",what,i,j,P->res.col[i][j],col[i][j]);
}
static void resync(void){ for (int i=0;i<NCHR;++i) memcpy(chr[i],P->res.chr[i],CHR_SIZE); for (int i=0;i<NCOL;++i) memcpy(col[i],P->res.col[i],COL_SIZE); }
static void scramble(void){ for (int i=0;i<NCHR;++i) for (int j=0;j<CHR_SIZE;++j) P->res.chr[i][j]=i*5+j*3+(j>>7); for (int i=0;i<NCOL;++i) for (int j=0;j<256;++j) P->res.col[i][j]=i*4099+j*257+9; resync(); }
static void noflag(void){ memset(P->res.regen_chr,0,sizeof P->res.regen_chr); P->res.regen_col=false; }
static void start(int pages){ sys_reset(); setmode(0); for (int i=0;i<3;++i) pg[i]=pages>>i&1; must("BGPAGE %d:SPPAGE %d:GPAGE %d",pg[0],pg[1],pg[2]); scramble(); noflag(); }
static const char* const cn[]={"BG","SP","GRP"};
static int pal(int n){ return n+3*pg[n]; }
static u16 enc(int r, int g, int b){ r>>=3; g>>=2; b>>=3; return r|(g>>1)<<5|b<<10|(g&1)<<15; }
static void dec(u16 c, int* o){ int r=c&31, g=(c>>5&31)*2+(c>>15), b=c>>10&31; o[0]=r*8+r/4; o[1]=g*4+g/16; o[2]=b*8+b/4; }
static void readcol(int n, int i){ must("COLREAD(\"%s\",%d),R,G,B",cn[n],i); int o[3]; dec(col[pal(n)][i],o); mc_validated(1); if (sys_num("R")!=o[0]*4096||sys_num("G")!=o[1]*4096||sys_num("B")!=o[2]*4096) mc_fail("COLREAD of %s %d gives %d,%d,%d expected %d,%d,%d",cn[n],i,sys_num("R")>>12,sys_num("G")>>12,sys_num("B")>>12,o[0],o[1],o[2]); }
static void s_colset(void){
	int pgs=mc_choose(8), n=mc_choose(3), i=mc_range(mc_thorough?256:12), v=mc_choose(6); static const int q[]={0,1,2,15,16,17,127,128,200,254,255,31}; if (!mc_thorough) i=q[i]; static const int cv[][3]={{0,0,0},{255,255,255},{8,4,8},{0x12,0x34,0x56},{0xFE,0x03,0x80},{7,3,7}}; start(pgs);
	mc_desc("COLSET %s %d pages %d colour %d",cn[n],i,pgs,v); char s[8]; sprintf(s,"%02X%02X%02X",cv[v][0],cv[v][1],cv[v][2]); must("COLSET \"%s\",%d,\"%s\"",cn[n],i,s); col[pal(n)][i]=enc(cv[v][0],cv[v][1],cv[v][2]); check("COLSET"); if (!P->res.regen_col) mc_fail("changed palette is not marked for display"); readcol(n,i); for (int k=0;k<3;++k) readcol(k,i^1), readcol(k,i); check("COLREAD"); mc_nontrivial(mc_mix(n*256+i,pgs*8+v)); mc_state(mc_mix(pal(n)*256+i,v));
}
static void s_colval(void){ // every value of each channel against several others
	int ch=mc_choose(3), v=mc_range(256), o=mc_choose(4), n=mc_choose(3); static const int ov[]={0,255,0x5A,0xA5}; int c[3]={ov[o],ov[o]^0x33*(o>1),ov[o]}; c[ch]=v; start(2); mc_desc("COLSET %s %02X%02X%02X",cn[n],c[0],c[1],c[2]); if (n && v%5 && !mc_thorough) mc_skip();
	int form=v&1; if (form) must("C$=\"%02X\"+\"%02X%02X\":COLSET \"%s\",7,C$",c[0],c[1],c[2],cn[n]); else must("COLSET \"%s\",7,\"%02X%02X%02X\"",cn[n],c[0],c[1],c[2]); col[pal(n)][7]=enc(c[0],c[1],c[2]); check("COLSET"); readcol(n,7);
	// the value read is the value set up to the display's precision, and setting it again changes nothing
	int r=sys_num("R")>>12, g=sys_num("G")>>12, b=sys_num("B")>>12; if (abs(r-c[0])>7||abs(g-c[1])>3||abs(b-c[2])>7) mc_fail("read %d,%d,%d after setting %d,%d,%d",r,g,b,c[0],c[1],c[2]); must("COLSET \"%s\",7,HEX$(R,2)+HEX$(G,2)+HEX$(B,2)",cn[n]); check("setting the colour that was read"); mc_nontrivial(mc_mix(ch*256+v,o*3+n)); mc_state(mc_mix(col[pal(n)][7],n));
}
static void refused(const char* s){ must("R=-5:G=-5:B=-5:R$=\"keep\""); resync(); noflag(); int e=bas("%s",s); if (!e) mc_fail("%s accepted",s); check(s); if (sys_num("R")!=-5*4096||sys_num("G")!=-5*4096||sys_num("B")!=-5*4096||strcmp(sys_strz("R"),"keep")) mc_fail("%s was refused but assigned a variable",s); }
static void s_illegal(void){
	static const char* const nm[]={"","B","BG ","bg","BG0","COL0","SPU","GRP0","GR","XX","BGU0","SPX","BGU4","BGD2","BGF1","SPS2","SPD4","SPU8","BGU0X","BGU0LL","SPU0L","SPD0U","MEM","PRG","SCU0","COL1U","SPK0","BGU00"};
	int k=mc_choose(8), i=mc_range(sizeof nm/sizeof*nm); start(i&7); char s[200]; const char* n=nm[i]; bool colname=!strcmp(n,"BG"); bool chrname=!strcmp(n,"BGU0"); (void)colname;
	switch (k){
		case 0: sprintf(s,"COLSET \"%s\",1,\"123456\"",n); break; case 1: sprintf(s,"COLREAD(\"%s\",1),R,G,B",n); break; case 2: sprintf(s,"COLINIT \"%s\"",n); break; case 3: sprintf(s,"COLINIT \"%s\",3",n); break;
		case 4: sprintf(s,"CHRINIT \"%s\"",n); break; case 5: { char h[65]; memset(h,'1',64); h[64]=0; sprintf(s,"CHRSET \"%s\",1,\"%s\"",n,h); break; } case 6: sprintf(s,"CHRREAD(\"%s\",1),R$",n); break; default: mc_skip(); }
	if (k>=4 && chrname) mc_skip(); if (k>=4 && !strcmp(n,"SPU")) mc_skip(); mc_desc("%s",s); mc_nontrivial(k*50+i); mc_state(k*50+i); refused(s);
}
static void s_index(void){ static const char* const ix[]={"-1","256","-1000","10000","524287","-0.5+255.999+1"}; static const char* const f[]={"COLSET \"BG\",%s,\"123456\"","COLREAD(\"SP\",%s),R,G,B","COLINIT \"GRP\",%s","CHRREAD(\"SPU1\",%s),R$","CHRSET \"BGU1\",%s,\"0\"*64","COLSET \"GRP\",\"%s\",\"123456\"","CHRREAD(\"BGF0\",\"%s\"),R$","COLREAD(%s,1),R,G,B","COLREAD(\"BG\",%s,1),R,G,B","COLSET %s","CHRINIT %s","COLREAD(\"BG\",1),R,G,R$+\"%s\"","CHRREAD(\"SPU1\",1),R+%s","COLREAD(\"BG\",1),R,G,R$:'%s","CHRREAD(\"SPU1\",1),R:'%s","CHRSET \"BGU1\",1,%s","COLSET \"BG\",1,%s","COLREAD(\"BG\",1),R,G:'%s","CHRINIT \"BGU0\",%s","COLINIT \"BG\",1,%s","COLINIT %s"}; int i=mc_choose(6), k=mc_range(sizeof f/sizeof*f); start(0); char s[200]; sprintf(s,f[k],ix[i]); mc_desc("%s",s); mc_nontrivial(k*6+i); mc_state(k*6+i); refused(s); }
static void s_colstr(void){ // every character code at every position, and every length
	int c=mc_range(256), p=mc_choose(7), n=mc_choose(3); start(0); bool ok=(c>='0'&&c<='9')||(c>='A'&&c<='F'); char s[120]; 
	if (p==6){ if (c>40||c==6) mc_skip(); sprintf(s,"COLSET \"%s\",9,\"1\"*%d",cn[n],c); ok=false; } else sprintf(s,"C$=\"3\"*%d+CHR$(%d)+\"7\"*%d:COLSET \"%s\",9,C$",p,c,5-p,cn[n]); mc_desc("%s",s); mc_nontrivial(mc_mix(c*7+p,n)); mc_state(c*7+p);
	if (!ok){ refused(s); return; } char h[7]; for (int i=0;i<6;++i) h[i]=i<p?'3':i==p?c:'7'; h[6]=0; int v=strtol(h,0,16); must("%s",s); col[pal(n)][9]=enc(v>>16,v>>8&255,v&255); check("COLSET"); readcol(n,9);
}
// ---- characters
static struct { char n[8]; int b; char f[5]; } nm[200]; static int nn;
static void nadd(const char* b, int i, const char* s, int k){ if (i<0) strcpy(nm[nn].n,b); else sprintf(nm[nn].n,"%s%d%s",b,i,s); sprintf(nm[nn].f,"%s%d",b,i<0?0:i); nm[nn++].b=k; }
static void names(void){
	nn=0; for (int sc=0;sc<3;++sc){ const char* s=sc==0?"U":sc==1?"L":""; int q=sc==2?pg[0]:sc, w=sc==2?pg[1]:sc;
		for (int i=0;i<4;++i) nadd("BGU",i,s,8+i+CHR_BANKS*q); for (int i=0;i<2;++i) nadd("BGD",i,s,4+i+CHR_BANKS*q); nadd("BGF",0,s,CHR_BANKS*q); for (int i=0;i<2;++i) nadd("SPS",i,s,20+i+CHR_BANKS*w);
		if (sc!=1) for (int i=0;i<8;++i) nadd("SPU",i,s,12+i); if (sc!=0) for (int i=0;i<4;++i) nadd("SPD",i,s,12+i+CHR_BANKS); }
	nadd("BGU",-1,"",8+CHR_BANKS*pg[0]); nadd("BGD",-1,"",4+CHR_BANKS*pg[0]); nadd("BGF",-1,"",CHR_BANKS*pg[0]); nadd("SPS",-1,"",20+CHR_BANKS*pg[1]); nadd("SPU",-1,"",12); nadd("SPD",-1,"",12+CHR_BANKS);
}
static void tohex(const u8* d, char* h){ for (int i=0;i<32;++i){ h[2*i]="0123456789ABCDEF"[d[i]&15]; h[2*i+1]="0123456789ABCDEF"[d[i]>>4]; } h[64]=0; }
static void readchr(const char* n, int b, int id){ must("CHRREAD(\"%s\",%d),R$",n,id); char h[65]; tohex(chr[b]+32*id,h); mc_validated(1); if (strcmp(h,sys_strz("R"))) mc_fail("CHRREAD of %s %d is %s, expected %s",n,id,sys_strz("R"),h); }
static void flagged(int b){ if (!P->res.regen_chr[b]) mc_fail("changed bank %d is not marked for display",b); }
static void s_chrset(void){
	int pgs=mc_choose(4), r=mc_range(70), i=mc_range(mc_thorough?256:6); static const int q[]={0,1,31,128,254,255}; if (!mc_thorough) i=q[i]; start(pgs); names(); if (r>=nn) mc_skip(); u8 d[32]; for (int k=0;k<32;++k) d[k]=k*29+r*3+i; char h[65]; tohex(d,h); mc_desc("CHRSET %s %d pages %d",nm[r].n,i,pgs); mc_nontrivial(mc_mix(r*256+i,pgs)); mc_state(nm[r].b*256+i);
	must("CHRSET \"%s\",%d,\"%s\"",nm[r].n,i,h); memcpy(chr[nm[r].b]+32*i,d,32); check("CHRSET"); flagged(nm[r].b); readchr(nm[r].n,nm[r].b,i); readchr(nm[r].n,nm[r].b,i^1); for (int k=r%5;k<nn;k+=11) readchr(nm[k].n,nm[k].b,i); check("CHRREAD");
}
static void s_chrstr(void){ // every character code at every position
	int c=mc_range(256), p=mc_range(64), form=mc_choose(2); if (form && !mc_thorough && p%8) mc_skip(); start(0); bool ok=(c>='0'&&c<='9')||(c>='A'&&c<='F'); char s[200]; mc_desc("CHRSET with character %d at %d",c,p); mc_nontrivial(c*64+p); mc_state(c*64+p);
	sprintf(s,"C$=\"3\"*%d+%s(%d)+\"7\"*%d:CHRSET \"SPU2\",5,C$",p,"CHR$",c,63-p); if (form) sprintf(s,"C$=\"3\"*%d+CHR$(%d)+\"7\"*%d+\"\":D$=C$:D$=D$+\"\":CHRSET \"SPU2\",5,D$",p,c,63-p); if (!ok){ refused(s); return; } must("%s",s); char h[65]; for (int i=0;i<64;++i) h[i]=i<p?'3':i==p?c:'7'; for (int i=0;i<32;++i){ char t[3]={h[2*i+1],h[2*i],0}; chr[14][160+i]=strtol(t,0,16); } check("CHRSET"); readchr("SPU2",14,5);
}
static void s_chrlen(void){ int n=mc_range(257); start(0); mc_desc("CHRSET with %d digits",n); mc_nontrivial(n); mc_state(n); char s[100]; if (n==64) mc_skip(); if (n<200) sprintf(s,"CHRSET \"BGU0\",0,\"1\"*%d",n); else sprintf(s,"C$=\"1\"*128+\"2\"*%d:CHRSET \"BGU0\",0,C$",n-128); refused(s); }
static void s_storage(void){ // no string storage left
	start(0); mc_nontrivial(1); mc_state(1); mc_desc("CHRREAD without string storage"); int e=0; must("DIM K$(300)"); for (int i=0;i<300 && !e;++i) e=bas("K$(%d)=\"abc\"+STR$(%d)",i,i); if (!e) mc_fail("harness: storage not exhausted"); noflag(); int f=0; for (int k=0;k<6;++k) f=bas("CHRREAD(\"BGU0\",%d),K$(%d)",k,k); mc_validated(1); (void)f; check("CHRREAD"); 
	for (int k=0;k<6;++k){ char h[65]; tohex(chr[8]+32*k,h); u8 o[300]; struct named_var* v=sys_find("K$",VAR_STRING|VAR_ARRAY); if (!v) v=sys_find("K",VAR_STRING|VAR_ARRAY); if (!v) mc_fail("harness: no array"); int n=sys_strv(arr_entry(v->value.ptr,k,0)->ptr,o); char w[40]; sprintf(w,"abc%d",k); if (!((n==64&&!memcmp(o,h,64))||(n==(int)strlen(w)&&!memcmp(o,w,n)))) mc_fail("K$(%d) holds neither the old nor the read text",k); } }
// ---- INIT
static void s_colinit(void){
	int pgs=mc_choose(8), n=mc_choose(4), i=mc_range(mc_thorough?257:9); static const int q[]={-1,0,1,2,15,16,128,254,255}; if (!mc_thorough) i=q[i]; else --i; if (n==3 && i>=0) mc_skip(); start(pgs); mc_desc("COLINIT %s %d pages %d",n==3?"":cn[n],i,pgs); mc_nontrivial(mc_mix(n*300+i+1,pgs)); mc_state(mc_mix(n*300+i+1,pgs));
	if (n==3){ must("COLINIT"); memcpy(col,col0,sizeof col); } else if (i<0){ must("COLINIT \"%s\"",cn[n]); memcpy(col[pal(n)],col0[pal(n)],COL_SIZE); } else { must("COLINIT \"%s\",%d",cn[n],i); col[pal(n)][i]=col0[pal(n)][i]; } check("COLINIT"); if (!P->res.regen_col) mc_fail("changed palette is not marked for display");
}
static void s_chrinit(void){
	int pgs=mc_choose(4), r=mc_range(70); start(pgs); names(); if (r>=nn) mc_skip(); mc_desc("CHRINIT %s pages %d",nm[r].n,pgs); mc_nontrivial(r*4+pgs); mc_state(nm[r].b); must("CHRINIT \"%s\"",nm[r].n); memcpy(chr[nm[r].b],chr0[nm[r].b],CHR_SIZE); check("CHRINIT"); flagged(nm[r].b);
}
static void s_seq(void){
	start(0); int depth=mc_thorough?5:3; uint64_t h=0;
	for (int d=0;d<depth;++d){ int op=mc_choose(14); mc_desc("op%d,",op); char x[65]; h=mc_mix(h,op);
		switch (op){
			case 0: must("BGPAGE 1-%d",pg[0]); pg[0]^=1; break; case 1: must("SPPAGE %d",pg[1]^=1); break; case 2: must("GPAGE %d",pg[2]^=1); break;
			case 3: case 4: case 5: must("COLSET \"%s\",%d,\"80F0%02X\"",cn[op-3],d,d*16); col[pal(op-3)][d]=enc(0x80,0xF0,d*16); break;
			case 6: must("COLINIT"); memcpy(col,col0,sizeof col); break; case 7: must("COLINIT \"SP\""); memcpy(col[pal(1)],col0[pal(1)],COL_SIZE); break; case 8: must("COLINIT \"BG\",0"); col[pal(0)][0]=col0[pal(0)][0]; break;
			case 9: memset(x,'4'+d,64); x[64]=0; must("CHRSET \"BGU0\",0,\"%s\"",x); memset(chr[8+CHR_BANKS*pg[0]],(4+d)*17,32); break; case 10: memset(x,'5'+d,64); x[64]=0; must("CHRSET \"SPS1\",255,\"%s\"",x); memset(chr[21+CHR_BANKS*pg[1]]+32*255,(5+d)*17,32); break;
			case 11: must("CHRINIT \"BGU0\""); memcpy(chr[8+CHR_BANKS*pg[0]],chr0[8+CHR_BANKS*pg[0]],CHR_SIZE); break; case 12: must("CHRINIT \"SPS1U\""); memcpy(chr[21],chr0[21],CHR_SIZE); break;
			case 13: { must("CHRREAD(\"BGU0\",0),R$:CHRSET \"SPD2\",9,R$"); memcpy(chr[14+CHR_BANKS]+288,chr[8+CHR_BANKS*pg[0]],32); } break;
		}
		check("the sequence"); for (int i=0;i<3;++i) readcol(i,d); mc_state(mc_mix(mc_hash(col,sizeof col),pg[0]+pg[1]*2+pg[2]*4+mc_hash(chr[8],64)));
	}
	mc_nontrivial(h);
}
static const char* const cf[]={"BGF0","BGF1","BGD0","BGD1","BGD2","BGD3","BGU0","BGU1","BGU2","BGU3","SPU0","SPU1","SPU2","SPU3","SPU4","SPU5","SPU6","SPU7","SPS0","SPS1","SPD0","SPD1","SPD2","SPD3","SPD4","SPD5","SPD6","SPD7"};
static void put(const char* n, const char* t, const u8* d, int len){ char b[80]; sprintf(b,"resources/%s.PTC",n); FILE* f=fopen(b,"wb"); if (!f) abort(); fwrite(t,1,12,f); fwrite(d,1,len,f); fclose(f); }
static void boot(void){
	static char sc[300]; snprintf(sc,sizeof sc,"%s",mc_scratch); if (chdir(sc)) abort(); mkdir("resources",0700); static u8 d[CHR_SIZE];
	for (unsigned k=0;k<sizeof cf/sizeof*cf;++k){ for (int i=0;i<CHR_SIZE;++i) d[i]=k*11+i*5+(i>>6); put(cf[k],"PETC0100RCHR",d,CHR_SIZE); }
	for (int k=0;k<3;++k){ char n[8]; sprintf(n,"COL%d",k); for (int i=0;i<512;++i) d[i]=k*37+i*3+(i>>5); put(n,"PETC0100RCOL",d,512); }
	sys_restore_big=true; sys_boot_small(64,64,512);
	// what the files say, independent of what the system loaded
	for (int i=0;i<NCHR;++i){ int sc2=i/CHR_BANKS, j=i%CHR_BANKS; const char* f; char b[5]; if (j<4){ f=j&1?"BGF1":"BGF0"; } else if (j<8){ sprintf(b,"BGD%d",j-4); f=b; } else if (j<12){ sprintf(b,"BGU%d",j-8); f=b; } else if (j<20){ sprintf(b,"SP%c%d",sc2?'D':'U',j-12); f=b; } else { sprintf(b,"SPS%d",j-20); f=b; } for (unsigned k=0;k<sizeof cf/sizeof*cf;++k) if (!strcmp(cf[k],f)) for (int q=0;q<CHR_SIZE;++q) chr0[i][q]=k*11+q*5+(q>>6); }
	for (int i=0;i<NCOL;++i){ u8* c=(u8*)col0[i]; for (int q=0;q<512;++q) c[q]=(i%3)*37+q*3+(q>>5); }
}
static void s_initial(void){ sys_reset(); memcpy(chr,chr0,sizeof chr); memcpy(col,col0,sizeof col); mc_desc("after start"); mc_nontrivial(1); mc_state(2); check("start"); }
static void s_missing(void){ // resource files missing or damaged
	int k=mc_choose(4), op=mc_choose(4), n=mc_choose(3); start(0); static u8 d[CHR_SIZE+50]; for (int i=0;i<CHR_SIZE;++i) d[i]=77+i; static const char* const o[]={"CHRINIT \"SPU3\"","COLINIT \"%s\"","COLINIT \"%s\",4","COLINIT"}; char keep[2][60]; sprintf(keep[0],"resources/%s.PTC",op?"COLx":"SPU3"); if (op) keep[0][13]='0'+n; if (op==0&&n) mc_skip(); if (op==3&&n) mc_skip();
	char bak[40]; sprintf(bak,"resources/backup"); rename(keep[0],bak); if (k){ FILE* f=fopen(keep[0],"wb"); if (k==1) fwrite("PETC0100RCHR",1,12,f); if (k==2){ fwrite(op?"PETC0100RCOL":"PETC0100RCHR",1,12,f); fwrite(d,1,op?511:CHR_SIZE-1,f); } if (k==3) fwrite("PE",1,2,f); fclose(f); }
	char s[60]; sprintf(s,o[op],cn[n]); mc_desc("%s with file fault %d",s,k); mc_nontrivial(k*100+op*10+n); mc_state(k*100+op*10+n); int e=bas("%s",s); unlink(keep[0]); rename(bak,keep[0]); if (op==0 && !e) mc_fail("succeeded"); if (op==3){ memcpy(col,col0,sizeof col); memcpy(col[n],P->res.col[n],COL_SIZE); memcpy(col[n+3],P->res.col[n+3],COL_SIZE); for (int i=0;i<256;++i) if (col[n][i]!=(u16)(n*4099+i*257+9)) mc_fail("a failed load changed the palette"); } check(s); (void)op;
}
static void s_startup(void){ // every default file missing, damaged or in another format when the system starts
	static const char* const wt[]={"missing","empty","a header only","a byte short","longer","with a file header","of unknown format","a folder"}; enum { NF=sizeof cf/sizeof*cf };
	int f=mc_range(NF+3), w=mc_choose(8); const char* n=f<NF?cf[f]:f==NF?"COL0":f==NF+1?"COL1":"COL2"; int len=f<NF?CHR_SIZE:512; sys_reset(); mc_desc("%s.PTC %s",n,wt[w]); char path[60]; sprintf(path,"resources/%s.PTC",n); rename(path,"resources/backup");
	static u8 d[48+CHR_SIZE+60]; memset(d,0,sizeof d); u8* q=d+(w==5?48:12); if (w==5){ memcpy(d,"PX01",4); memcpy(d+36,f<NF?"PETC0100RCHR":"PETC0100RCOL",12); } else memcpy(d,w==6?"QETC0100RCHR":f<NF?"PETC0100RCHR":"PETC0100RCOL",12); for (int i=0;i<len;++i) q[i]=201+i*7+(i>>8); int l=w==1?0:w==2?12:w==3?12+len-1:w==4?12+len+50:w==5?48+len:12+len;
	if (w==7) mkdir(path,0700); else if (w){ FILE* h=fopen(path,"wb"); if (!h) abort(); fwrite(d,1,l,h); fclose(h); } bool good=w==4||w==5;
	static struct resources r; memset(&r,0,sizeof r); init_resource(&r); if (w==7) rmdir(path); else unlink(path); rename("resources/backup",path);
	for (int i=0;i<NCHR;++i){ int sc2=i/CHR_BANKS, j=i%CHR_BANKS; char b[8]; if (j<4) sprintf(b,"BGF%d",j&1); else if (j<8) sprintf(b,"BGD%d",j-4); else if (j<12) sprintf(b,"BGU%d",j-8); else if (j<20) sprintf(b,"SP%c%d",sc2?'D':'U',j-12); else sprintf(b,"SPS%d",j-20); bool me=!strcmp(b,n); for (int k=0;k<CHR_SIZE;++k){ u8 want=me?good?q[k]:0:chr0[i][k]; if (r.chr[i][k]!=want) mc_fail("bank %d (%s) byte %d is %02x after the start, expected %02x",i,b,k,r.chr[i][k],want); } }
	for (int i=0;i<NCOL;++i){ bool me=f>=NF&&i%3==f-NF; for (int k=0;k<512;++k){ u8 g=((u8*)r.col[i])[k], want=me?good?q[k]:0:((u8*)col0[i])[k]; if (g!=want) mc_fail("palette %d byte %d is %02x after the start, expected %02x",i,k,g,want); } }
	free_resource(&r); mc_validated(NCHR+NCOL); mc_nontrivial(f*8+w+1); mc_state(f*8+w+1); mc_outcome(w);
}
const mc_suite mc_suites[]={ {"initial",s_initial,MC_QT,boot},{"colset",s_colset,MC_QT,boot},{"colour-values",s_colval,MC_QT,boot},{"illegal-names",s_illegal,MC_QT,boot},{"illegal-arguments",s_index,MC_QT,boot},{"colour-strings",s_colstr,MC_QT,boot},{"chrset",s_chrset,MC_QT,boot},{"chr-strings",s_chrstr,MC_QT,boot},{"chr-lengths",s_chrlen,MC_QT,boot},{"storage",s_storage,MC_QT,boot},{"colinit",s_colinit,MC_QT,boot},{"chrinit",s_chrinit,MC_QT,boot},{"missing-files",s_missing,MC_QT,boot},{"sequence",s_seq,MC_QT,boot},{"startup",s_startup,MC_QT,boot} };
const int mc_suite_count = sizeof mc_suites/sizeof*mc_suites;

// C28: the resource converter (util/ntr_to_ptc.c) run as a whole on every shape of input file, name and failing operation.
#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <dirent.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <errno.h>
const char* mc_rule = "every number of banks, remainder, trailing part, output name, header byte, size field, truncation, and every failing read, write, open and close; counted by the files written";
typedef uint8_t u8;
int ntr_main(int,char**);
// ---- files with failures: budget of bytes that may be written (shared), of bytes that may be read
static long wbudget, rbudget; static int opens, fail_open; static bool failed_;
typedef struct { FILE* f; FILE* s; bool w; } ck; static ck* cks[64]; // streams the program leaves open are closed as its exit would
static ssize_t c_read(void* c,char* b,size_t n){ ck* k=c; if (rbudget>=0&&(long)n>rbudget){ if (!rbudget){ failed_=true; errno=EIO; return -1; } n=rbudget; } ssize_t r=read(fileno(k->f),b,n); if (rbudget>=0&&r>0) rbudget-=r; return r; }
static ssize_t c_write(void* c,const char* b,size_t n){ ck* k=c; if (wbudget>=0&&(long)n>wbudget){ if (!wbudget){ failed_=true; errno=ENOSPC; return 0; } n=wbudget; } ssize_t r=write(fileno(k->f),b,n); if (wbudget>=0&&r>0) wbudget-=r; return r; }
static int c_seek(void* c,off64_t* o,int w){ ck* k=c; off64_t r=lseek64(fileno(k->f),*o,w); if (r<0) return -1; *o=r; return 0; }
static int c_close(void* c){ ck* k=c; for (int i=0;i<64;++i) if (cks[i]==k) cks[i]=NULL; fclose(k->f); free(k); return 0; }
FILE* __real_fopen(const char*,const char*);
static bool inside;
FILE* __wrap_fopen(const char* n,const char* m){ if (!inside) return __real_fopen(n,m); if (opens++==fail_open){ failed_=true; errno=EACCES; return NULL; } FILE* f=__real_fopen(n,m); if (!f) return NULL; ck* k=malloc(sizeof *k); k->f=f; k->w=*m!='r'; for (int i=0;i<64;++i) if (!cks[i]){ cks[i]=k; break; } return k->s=fopencookie(k,m,(cookie_io_functions_t){c_read,c_write,c_seek,c_close}); }
void ntr_perror(const char* s){ (void)s; }
static jmp_buf jb; void ntr_exit(int c){ longjmp(jb,c+1000); }
// ---- an input file
static u8 in[200000]; static int len; static bool col;
static u8 pat(int i){ return mc_mix(i/251+7,i)>>13; }
static void put32(int o,uint32_t v){ for (int i=0;i<4;++i) in[o+i]=v>>8*i; }
static void make(bool c,uint32_t size,int data){ col=c; memcpy(in,c?"RLCN":"RGCN",4); for (int i=4;i<16;++i) in[i]=i*9; memcpy(in+16,c?"TTLP":"RAHC",4); int h=c?0x18:0x20; for (int i=20;i<16+h;++i) in[i]=i*3; put32(20,size); for (int i=0;i<data;++i) in[16+h+i]=pat(i); len=16+h+data; }
static void clean(void){ DIR* d=opendir("."); struct dirent* e; while ((e=readdir(d))) if (e->d_name[0]!='.'){ unlink(e->d_name); rmdir(e->d_name); } closedir(d); }
static void dir(void){ static char w[300]; snprintf(w,sizeof w,"%s/%d",mc_scratch,getpid()); if (mkdir(w,0700)&&errno!=EEXIST) abort(); if (chdir(w)) abort(); clean(); wbudget=rbudget=-1; opens=0; fail_open=-1; failed_=false; }
static void store(const char* n,const u8* p,int l){ FILE* f=__real_fopen(n,"wb"); fwrite(p,1,l,f); fclose(f); }
static int go(int c,char** v){ int r; fflush(stdout); inside=true; int j=setjmp(jb); if (!j) r=ntr_main(c,v); else r=j-1000; inside=false; for (int i=0;i<64;++i) if (cks[i]) fclose(cks[i]->s); mc_trans(1); return r; }
static int conv(const char* name){ store("in.nds",in,len); char* v[]={"ntr_to_ptc","in.nds",(char*)name,NULL}; return go(3,v); }
static u8 got[200000]; static int files_(char* list){ int n=0; DIR* d=opendir("."); struct dirent* e; *list=0; while ((e=readdir(d))) if (e->d_name[0]!='.'&&strcmp(e->d_name,"in.nds")){ ++n; if (strlen(list)<200){ strcat(list," "); strcat(list,e->d_name); } } closedir(d); return n; }
static int slurp(const char* n){ FILE* f=__real_fopen(n,"rb"); if (!f) return -1; int l=fread(got,1,sizeof got,f); fclose(f); return l; }
static uint64_t H;
static void expect_files(const char* name,int banks){ // exactly these files with exactly these contents
	char list[300]; int n=files_(list); if (n!=(col?1:banks)) mc_fail("%d files exist:%s, expected %d",n,list,col?1:banks); H=mc_mix(banks,col);
	for (int b=0;b<(col?1:banks);++b){ char fn[300]; int size=col?512:8192,h=col?0x18:0x20; if (col) snprintf(fn,sizeof fn,"%s.PTC",name); else snprintf(fn,sizeof fn,"%s%d.PTC",name,b); int l=slurp(fn); if (l<0) mc_fail("%s is missing; there are%s",fn,list); if (l!=12+size) mc_fail("%s has %d bytes, expected %d",fn,l,12+size); if (memcmp(got,col?"PETC0100RCOL":"PETC0100RCHR",12)) mc_fail("%s has another type",fn); for (int i=0;i<size;++i) if (got[12+i]!=in[16+h+b*size+i]) mc_fail("%s differs at byte %d: %02x, expected %02x",fn,i,got[12+i],in[16+h+b*size+i]); H=mc_mix(H,mc_hash(got,l)); }
	mc_validated(1); mc_state(H); mc_outcome(H); }
static void none(int r){ char list[300]; if (!r) mc_fail("the conversion reports success"); if (files_(list)) mc_fail("the refused conversion leaves%s",list); mc_validated(1); }
static void fin(void){ clean(); }
// whole files
static void s_ncgr(void){ int b=mc_choose(11),rem=mc_choose(4),tail=mc_choose(4),n=mc_choose(4),old=mc_choose(2); static const int rs[]={0,1,4096,8191},ts[]={0,1,48,9000}; static const char* const ns[]={"BGU","SPD","abc","A_1"}; if (!mc_thorough&&n&&(rem||tail)) mc_skip(); dir(); int d=b*8192+rs[rem]; make(false,0x20+d,d+ts[tail]); mc_desc("%d banks and %d bytes, %d bytes after them, to %s%s",b,rs[rem],ts[tail],ns[n],old?" over a longer file":""); char fn[20]; if (old){ if (!b) mc_skip(); for (int i=0;i<20000;++i) got[i]=i; sprintf(fn,"%s%d.PTC",ns[n],b-1); store(fn,got,20000); } int r=conv(ns[n]); if (r) mc_fail("the conversion ends with %d",r); expect_files(ns[n],b); mc_nontrivial(mc_mix(b*100+rem*10+tail,n)); fin(); }
static void s_nclr(void){ int d=mc_choose(9),tail=mc_choose(3),n=mc_choose(4),old=mc_choose(2); static const int ds[]={512,513,514,520,544,1024,511,504,32},ts[]={0,1,48}; static const char* const ns[]={"COL0","COL2","abcd","A_12"}; dir(); make(true,0x18+ds[d],ds[d]+ts[tail]); mc_desc("%d bytes of colours, %d bytes after them, to %s",ds[d],ts[tail],ns[n]); if (old&&ds[d]>=512){ char fn[20]; for (int i=0;i<900;++i) got[i]=i; sprintf(fn,"%s.PTC",ns[n]); store(fn,got,900); } int r=conv(ns[n]); if (ds[d]<512) none(r); else { if (r) mc_fail("the conversion ends with %d",r); expect_files(ns[n],1); } mc_nontrivial(mc_mix(d*10+tail,n)); fin(); }
// every byte of the headers has every value: only the magic and the size matter
static void s_header(void){ bool c=mc_choose(2); int o=mc_range(c?40:48),v=mc_range(mc_thorough?256:12); dir(); int d=c?512:8192; make(c,(c?0x18:0x20)+d,d); static const u8 vs[]={0,1,2,127,128,255,'R','N','C',0x20,10,13}; in[o]=mc_thorough?v:vs[v]; mc_desc("%s with byte %d = %d",c?"NCLR":"NCGR",o,in[o]); bool magic=!memcmp(in,c?"RLCN":"RGCN",4); uint32_t size=in[20]|in[21]<<8|in[22]<<16|(uint32_t)in[23]<<24; uint32_t h=c?0x18:0x20; int r=conv(c?"COL0":"BGU"); 
	if (!magic||size<h||size-h>d||(c&&size-h<512)) none(r); else { if (r) mc_fail("the conversion ends with %d",r); expect_files(c?"COL0":"BGU",(size-h)/8192); } mc_nontrivial(mc_mix(o*256+v,c)); fin(); }
static void s_size(void){ bool c=mc_choose(2); static const uint32_t sz[]={0,1,0x17,0x18,0x19,0x1f,0x20,0x21,0x1f8,0x217,0x218,0x219,0x21f,0x220,0x221,0x2000,0x2018,0x2020,0x2021,0x4020,0x5020,0xffff,0x10000,0x7fffffff,0x80000000,0x80002020,0xfffffff0,0xffffffff}; int i=mc_choose(sizeof sz/sizeof *sz),d=mc_choose(6); static const int ds[]={0,1,511,512,8192,16384}; uint32_t h=c?0x18:0x20; dir(); make(c,sz[i],ds[d]); mc_desc("%s of %u with %d bytes",c?"NCLR":"NCGR",sz[i],ds[d]); int r=conv(c?"COL0":"BGU"); if (sz[i]<h||sz[i]-h>ds[d]||(c&&sz[i]-h<512)) none(r); else { if (r) mc_fail("the conversion ends with %d",r); expect_files(c?"COL0":"BGU",(sz[i]-h)/8192); } mc_nontrivial(mc_mix(i*10+d,c)); fin(); }
static void s_cut(void){ bool c=mc_choose(2); int d=c?512:16384,l=c?mc_range(16+0x18+d):mc_range(16+0x20+(mc_thorough?d:300)); dir(); make(c,(c?0x18:0x20)+d,d); len=l; if (!c&&!mc_thorough&&l>=150) len=l*50; // quick: every length of the headers, then every 50th
	 if (len>=16+(c?0x18:0x20)+d) mc_skip(); mc_desc("%s cut to %d bytes",c?"NCLR":"NCGR",len); none(conv(c?"COL0":"BGU")); mc_nontrivial(mc_mix(l,c)); mc_state(mc_mix(l,c)); fin(); }
// failures
static void s_full(void){ bool c=mc_choose(2); int b=c?1:mc_choose(4),per=c?524:8204,total=b*per; static const int os[]={0,1,11,12,13,100,511,512,522,523,524,4095,4096,4097,8191,8192,8203}; int k=mc_choose(b*17+1); dir(); make(c,c?0x218:0x20+b*8192,c?512:b*8192); int w=k==b*17?total:k/17*per+os[k%17]; if (w>total||(c&&k<17&&os[k]>=524)) mc_skip(); wbudget=w; mc_desc("%s of %d banks, the disk is full after %d of %d bytes",c?"NCLR":"NCGR",b,w,total); int r=conv(c?"COL0":"BGU"); if (w<total){ if (!r) mc_fail("the conversion reports success"); mc_validated(1); } else { if (r) mc_fail("the conversion ends with %d",r); expect_files(c?"COL0":"BGU",b); } mc_nontrivial(mc_mix(w,b)); mc_state(mc_mix(w,b*2+c)); clean(); }
static void s_read(void){ bool c=mc_choose(2); int d=c?512:16384,t=16+(c?0x18:0x20)+d; dir(); make(c,(c?0x18:0x20)+d,d); int n=mc_range(60); rbudget=n<48?n:n==59?t:t-(59-n)*(59-n); if (rbudget<0) mc_skip(); mc_desc("%s, reading fails after %ld bytes",c?"NCLR":"NCGR",rbudget); int full=rbudget>=t; int r=conv(c?"COL0":"BGU"); if (failed_) none(r); else if (full&&r) mc_fail("the conversion ends with %d",r); mc_nontrivial(mc_mix(n,c)); mc_state(mc_mix(n,c)); clean(); }
static void s_open(void){ bool c=mc_choose(2); int b=c?1:mc_choose(5),k=mc_range(b+2); dir(); make(c,c?0x218:0x20+b*8192,c?512:b*8192); fail_open=k; mc_desc("%s of %d banks, opening file %d fails",c?"NCLR":"NCGR",b,k); int r=conv(c?"COL0":"BGU"); if (failed_){ if (!r) mc_fail("the conversion reports success"); } else { if (r) mc_fail("the conversion ends with %d",r); expect_files(c?"COL0":"BGU",b); } mc_validated(1); mc_nontrivial(mc_mix(k,b*2+c)); mc_state(mc_mix(k,b*2+c)); fin(); }
// arguments
static void s_args(void){ int n=mc_choose(6),f=mc_choose(6),m=mc_choose(12); dir(); bool c=f==1; make(c,c?0x218:0x2020,c?512:8192); store("in.nds",in,len); static const char* const fs[]={"in.nds","in.nds","none","sub","",0}; static const char* const ms[]={"","A","AB","ABC","ABCD","ABCDE","ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ","COL","COL0","no/x","%s%","a b"}; mkdir("sub",0700); if (f==5){ store("in.nds","RGC",3); }
	char* v[]={"ntr_to_ptc",(char*)(f==5?"in.nds":fs[f]),(char*)ms[m],"x","y",NULL}; v[n]=NULL; mc_desc("%d arguments, %s of %s to \"%s\"",n,c?"NCLR":"NCGR",f==5?"3 bytes":fs[f],ms[m]); int r=go(n,v); rmdir("sub"); int l=strlen(ms[m]); bool ok=n==3&&f<2&&l==(c?4:3)&&!strchr(ms[m],'/'); if (ok){ if (r) mc_fail("the conversion ends with %d",r); expect_files(ms[m],1); } else none(r); mc_nontrivial(mc_mix(n*10+f,m)); mc_state(mc_mix(n*10+f,m)); fin(); }
const mc_suite mc_suites[]={{"banks",s_ncgr,MC_QT},{"colours",s_nclr,MC_QT},{"header",s_header,MC_QT},{"size",s_size,MC_QT},{"cut",s_cut,MC_QT},{"full",s_full,MC_QT},{"read",s_read,MC_QT},{"open",s_open,MC_QT},{"arguments",s_args,MC_QT}};
const int mc_suite_count=sizeof mc_suites/sizeof *mc_suites;

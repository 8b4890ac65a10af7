// C14: button histories, frame waits, touch state and clock, with the harness as the window thread.
#include "bas.h"
#include <time.h>
const char* mc_rule = "every history of one button up to the stated length for every button and repeat setting; every history of two buttons with a repeat change in between; every pair of successive button masks from a covering set; every illegal repeat argument; every wait length, frame rate, start time and point of a break; every touch history; counted by history and settings";
static time_t now; time_t __wrap_time(time_t* t){ if (t) *t=now; return now; }
static const int bitv[]={1,2,4,8,16,32,64,128,256,512,1024,2048};
static const char* const Q="A=BUTTON():B=BUTTON(0):C=BUTTON(1):D=BUTTON(2):E=BUTTON(3):F=BTRIG()\r";
static int hold[12], st[12], rp[12], cur, old;
static void m_frame(int b){ old=cur; cur=b; for (int i=0;i<12;++i) hold[i]=b&bitv[i]?hold[i]+1:0; set_input(P,b); inc_time(&P->time); }
static bool hit(int i){ if (!hold[i]) return false; if (hold[i]==1) return true; return rp[i]>0 && hold[i]>st[i] && (hold[i]-1-st[i])%(rp[i]+1)==0; }
static bool hit1(int i){ if (!hold[i]) return false; if (rp[i]>0 && hold[i]>st[i]) return (hold[i]-1-st[i])%(rp[i]+1)==0; return hold[i]==1; }
static void look(int f){
	int e=sys_go(); if (e) mc_fail("frame %d: %s",f,errname(e)); int r=0; for (int i=0;i<12;++i) if (hit(i)) r|=bitv[i]; (void)hit1;
	int want[]={cur,cur,r,cur&~old,old&~cur,r}; static const char* const n[]={"BUTTON()","BUTTON(0)","BUTTON(1)","BUTTON(2)","BUTTON(3)","BTRIG()"}; mc_validated(6); mc_trans(1);
	for (int i=0;i<6;++i){ char v[2]={'A'+i,0}; if (sys_num(v)!=want[i]*4096) mc_fail("frame %d: %s is %d, expected %d",f,n[i],sys_num(v)/4096,want[i]); }
	mc_state(mc_mix(mc_hash(hold,sizeof hold),mc_hash(rp,sizeof rp)^mc_hash(st,sizeof st)));
}
static void start(void){ sys_reset(); memset(hold,0,sizeof hold); memset(st,0,sizeof st); memset(rp,0,sizeof rp); cur=old=0; mode=0; setmode(0); }
static void begin(void){ if (sys_compile(Q,0)) mc_fail("does not compile"); }
static void rep(int b, int s, int r){ char t[60]; if (s<0){ sprintf(t,"BREPEAT %d",b); st[b]=rp[b]=0; } else { sprintf(t,"BREPEAT %d,%d,%d",b,s,r); st[b]=s; rp[b]=r; } must("%s",t); mc_desc("%s ",t); }
static void s_one(void){
	int b=mc_choose(12), s=mc_choose(5), r=mc_choose(4), off=mc_choose(2), n=mc_thorough?12:8; start(); if (off && (s||r)){ rep(b,7,3); } if (off && !s) rep(b,-1,0); else rep(b,s,r); if (off&&!s&&r) mc_skip(); begin(); mc_desc("button %d:",b); uint64_t h=mc_mix(b*5+s,r*2+off);
	for (int f=0;f<n;++f){ int d=mc_choose(2); mc_desc("%d",d); m_frame(d?bitv[b]:0); look(f); h=mc_mix(h,d); } mc_nontrivial(h); mc_outcome(mc_mix(hold[b],cur));
}
static void s_long(void){ // long holds
	int b=mc_choose(12), s=mc_choose(5), r=mc_choose(5), n=300; static const int ss[]={0,1,5,270,524287}, rr[]={0,1,4,60,524287}; start(); rep(b,ss[s],rr[r]); begin(); mc_desc("button %d held",b); for (int f=0;f<n;++f){ m_frame(bitv[b]|(f&1?bitv[(b+5)%12]:0)); look(f); } m_frame(0); look(n); m_frame(0); look(n+1); mc_nontrivial(mc_mix(b,s*5+r));
}
static void s_two(void){ // two buttons, settings changed on the way
	static const int pa[][2]={{0,1},{4,5},{7,8},{10,11},{3,11}}; int p=mc_choose(5), k=mc_choose(4), w=mc_choose(3), at=mc_choose(4), n=mc_thorough?7:5; int a=pa[p][0], b=pa[p][1]; start(); if (k&1) rep(a,2,1); if (k&2) rep(b,1,2); begin(); uint64_t h=mc_mix(p*4+k,w*4+at);
	for (int f=0;f<n;++f){ if (f==at&&w){ rep(w==1?a:b,w==1?0:-1,w==1?1:0); begin(); } int d=mc_choose(4); mc_desc("%d",d); m_frame((d&1?bitv[a]:0)|(d&2?bitv[b]:0)); look(f); h=mc_mix(h,d); } mc_nontrivial(h); mc_outcome(mc_mix(hold[a],hold[b]));
}
static void s_masks(void){ // any set of buttons followed by any other
	int m=mc_range(4096), k=mc_choose(mc_thorough?16:6); static const int pv[]={0,4095,0x555,0xaaa,0xc3c,1,0x800,0x0f0,0x7ff,0xf0f,0x333,0x666,0x999,2,0x3fc,0xe07}; start(); begin(); mc_desc("masks %03x then %03x",pv[k],m); m_frame(pv[k]); look(0); m_frame(m); look(1); m_frame(pv[k]); look(2); mc_nontrivial(mc_mix(m,k));
}
static void s_badrep(void){ // illegal arguments are errors that change nothing
	int b=mc_choose(16)-2, s=mc_choose(6), r=mc_choose(6); static const int v[]={-1,0,3,-524287,524287,-2}; start(); rep(1,4,2); for (int i=0;i<12;++i) if (i!=1){ P->input.times[i].start=st[i]=i; P->input.times[i].repeat=rp[i]=12-i; } m_frame(0); m_frame(0x3ff); struct button_time keep[12]; memcpy(keep,P->input.times,sizeof keep); mc_desc("BREPEAT %d,%d,%d",b,v[s],v[r]); mc_validated(1); mc_nontrivial(mc_mix(b,s*6+r));
	int e=bas("BREPEAT %d,%d,%d",b,v[s],v[r]); bool ok=b>=0&&b<12&&v[s]>=0&&v[r]>=0; if (b!=12){ if (ok?e:!e) mc_fail("%s",ok?errname(e):"accepted"); } if (ok){ keep[b].start=v[s]; keep[b].repeat=v[r]; }
	for (int i=0;i<12;++i) if (keep[i].start!=P->input.times[i].start||keep[i].repeat!=P->input.times[i].repeat||keep[i].frame!=P->input.times[i].frame) mc_fail("button %d is now %d,%d, expected %d,%d",i,P->input.times[i].start,P->input.times[i].repeat,keep[i].start,keep[i].repeat); mc_state(mc_mix(b,s*6+r));
	if (b<0||b>12){ if (!bas("BREPEAT %d",b)) mc_fail("BREPEAT %d accepted",b); for (int i=0;i<12;++i) if (keep[i].start!=P->input.times[i].start||keep[i].repeat!=P->input.times[i].repeat) mc_fail("BREPEAT %d changed button %d",b,i); }
}
static void s_badmode(void){ int m=mc_choose(11)-3; start(); m_frame(5); m_frame(6); static const int big[]={524287,-524287,256,65536}; int v=m<4?m:big[m-4]; if (m>=4&&m-4>3) mc_skip(); mc_desc("BUTTON(%d)",v); int e=bas("A=BUTTON(%d)",v); bool ok=v>=0&&v<=3; if (ok?e:!e) mc_fail("%s",ok?errname(e):"accepted"); mc_validated(1); mc_nontrivial(v); mc_state(v); }
// waiting
static int rate, breakat, frames, polls; static void on_sleep(void){ if (++polls%rate) return; ++frames; set_input(P,frames==breakat?BUTTON_SELECT:0); inc_time(&P->time); }
static void s_wait(void){
	int w=mc_choose(2), n=mc_range(70)-3, r=mc_choose(3), s=mc_choose(6), fr=mc_choose(2), br=mc_choose(5); static const int64_t t0[]={0,5,524287,1048570,0x7ffffff0,0xfffffff0ll}; start(); P->time.time=t0[s]; rate=r+1; breakat=br==0?0:br==1?1:br==2?n/2:br==3?n:n+1; if (br && (breakat<1)) mc_skip(); frames=polls=0; sys_on_sleep=on_sleep;
	mc_desc("%s %d%s from time %lld, %d polls a frame, break at %d",w?"WAIT":"VSYNC",n,fr?".9":"",(long long)t0[s],rate,breakat); int e=bas("A=1:%s %d%s:A=2",w?"WAIT":"VSYNC",n,fr?(n<0?"+.9":".9"):""); int want=n>0?n:0, got=(int)(P->time.time-t0[s]); mc_validated(1); mc_trans(polls);
	if (br && breakat<want){ if (e!=ERR_BREAK) mc_fail("ended with %s",errname(e)); if (got!=breakat) mc_fail("stopped %d frames after the start, the break was at frame %d",got,breakat); if (sys_num("A")!=4096) mc_fail("went on after the break"); }
	else { if (got!=want) mc_fail("%d frames passed, expected %d",got,want); if (br&&breakat==want){ if (e!=ERR_BREAK&&e) mc_fail("%s",errname(e)); } else if (e) mc_fail("%s",errname(e)); }
	mc_nontrivial(mc_mix(n*2+w,mc_mix(r*6+s,br*2+fr))); mc_state(mc_mix(got,P->time.time)); mc_outcome(mc_mix(got,e));
}
static void s_waitseq(void){ // waits one after another: VSYNC n in a loop advances n each time
	int a=mc_choose(4), b=mc_choose(4), c=mc_choose(4), r=mc_choose(3); start(); rate=r+1; breakat=0; frames=polls=0; sys_on_sleep=on_sleep; P->time.time=100; mc_desc("VSYNC %d:WAIT %d:VSYNC %d",a,b,c); must("A=MAINCNTL:VSYNC %d:B=MAINCNTL:WAIT %d:C=MAINCNTL:FOR I=1 TO 3:VSYNC %d:NEXT:D=MAINCNTL",a,b,c); mc_validated(1);
	fixp t=100*4096; if (sys_num("A")!=t||sys_num("B")!=t+a*4096||sys_num("C")!=t+(a+b)*4096||sys_num("D")!=t+(a+b+3*c)*4096) mc_fail("times %d %d %d %d",sys_num("A")>>12,sys_num("B")>>12,sys_num("C")>>12,sys_num("D")>>12); mc_nontrivial(a*64+b*16+c*4+r); mc_state(P->time.time);
}
static void s_count(void){ // the frame counter
	static const int64_t t[]={0,1,59,60,4095,4096,65535,65536,524286,524287,524288,524289,1048574,1048575,1048576,1048577,1572864,2097151,2097152,10485760,0x7fffffff,0x80000000ll,0xffffffffll,0x100000000ll,0x7ffffffff}; int i=mc_range(25), d=mc_choose(3); start(); int64_t v=t[i]; P->time.time=v; for (int k=0;k<d;++k){ inc_time(&P->time); ++v; }
	mc_desc("time %lld",(long long)v); must("A=MAINCNTL:B=MAINCNTH"); int64_t lo=(sys_num("A")>>12)&0xfffff, hi=(sys_num("B")>>12)&0xfffff; mc_validated(1); if ((hi<<20|lo)!=(v&0xffffffffffll)) mc_fail("MAINCNTH %lld and MAINCNTL %lld",(long long)hi,(long long)lo); if (sys_num("A")&4095||sys_num("B")&4095) mc_fail("not whole numbers"); if (v<524288 && (sys_num("A")!=v*4096||sys_num("B"))) mc_fail("MAINCNTL is %d",sys_num("A")>>12); mc_nontrivial(v); mc_state(v);
}
static void s_touch(void){ // touch histories
	start(); if (sys_compile("A=TCHST:B=TCHX:C=TCHY:D=TCHTIME\r",0)) mc_fail("does not compile"); int n=mc_thorough?7:5, x=0,y=0,t=0; uint64_t h=0; static const int px[]={0,255,100,7}, py[]={0,191,96,60};
	for (int f=0;f<n;++f){ int k=mc_choose(5); mc_desc("%d",k); if (k<4){ x=px[k]; y=py[k]; ++t; } else t=0; set_touch(&P->input,k<4,k<4?px[k]:33,k<4?py[k]:44); inc_time(&P->time); int e=sys_go(); if (e) mc_fail("%s",errname(e)); mc_trans(1); mc_validated(1); if (sys_num("A")!=(t>0)*4096||sys_num("B")!=x*4096||sys_num("C")!=y*4096||sys_num("D")!=t*4096) mc_fail("frame %d: %d %d,%d %d, expected %d %d,%d %d",f,sys_num("A")>>12,sys_num("B")>>12,sys_num("C")>>12,sys_num("D")>>12,t>0,x,y,t); mc_state(mc_mix(x*256+y,t)); h=mc_mix(h,k); } mc_nontrivial(h);
}
static void s_clock(void){ // TIME$ and DATE$ for days around month, leap and century ends
	static const long day[]={0,58,59,60,364,365,789,790,10956,10957,11015,11016,11017,16801,16858,17166,18321,18322,20453,22339,24836,47540,47541,2932896}; int d=mc_range(24), s=mc_range(12); static const int sec[]={0,1,59,60,599,3599,3600,35999,36000,43200,86399,45296}; long dn=day[d]; start(); now=dn*86400+sec[s];
	long z=dn+719468, era=z/146097, doe=z-era*146097, yoe=(doe-doe/1460+doe/36524-doe/146096)/365, y=yoe+era*400, doy=doe-(365*yoe+yoe/4-yoe/100), mp=(5*doy+2)/153, dd=doy-(153*mp+2)/5+1, mm=mp<10?mp+3:mp-9; if (mm<=2) ++y;
	char wd[40], wt[40]; sprintf(wd,"%04ld/%02ld/%02ld",y,mm,dd); sprintf(wt,"%02d:%02d:%02d",sec[s]/3600,sec[s]/60%60,sec[s]%60); mc_desc("%s %s",wd,wt); must("A$=TIME$:B$=DATE$"); mc_validated(1); if (strcmp(sys_strz("A"),wt)) mc_fail("TIME$ is %s",sys_strz("A")); if (strcmp(sys_strz("B"),wd)) mc_fail("DATE$ is %s",sys_strz("B")); mc_nontrivial(mc_mix(d,s)); mc_state(now);
}
static void clockcheck(int64_t t){ now=t; long dn=t/86400, sc=t%86400, z=dn+719468, era=z/146097, doe=z-era*146097, yoe=(doe-doe/1460+doe/36524-doe/146096)/365, y=yoe+era*400, doy=doe-(365*yoe+yoe/4-yoe/100), mp=(5*doy+2)/153, dd=doy-(153*mp+2)/5+1, mm=mp<10?mp+3:mp-9; if (mm<=2) ++y;
	char wd[40], wt[40]; sprintf(wd,"%04ld/%02ld/%02ld",y,mm,dd); sprintf(wt,"%02ld:%02ld:%02ld",sc/3600,sc/60%60,sc%60); int e=sys_go(); if (e) mc_fail("%s",errname(e)); mc_trans(1); mc_validated(1); if (strcmp(sys_strz("A"),wt)) mc_fail("TIME$ is %s, expected %s",sys_strz("A"),wt); if (strcmp(sys_strz("B"),wd)) mc_fail("DATE$ is %s, expected %s",sys_strz("B"),wd); }
static void s_days(void){ // every day of a year, and every second of a day
	int k=mc_range(24+(mc_thorough?8029:430)); start(); if (sys_compile("A$=TIME$:B$=DATE$\r",0)) mc_fail("does not compile"); mc_desc("%s %d",k<24?"hour":"year",k<24?k:1970+k-24);
	if (k<24) for (int s=0;s<3600;++s) clockcheck(20453ll*86400+k*3600+s); else { int64_t y=1970+k-24-1, d=y*365+y/4-y/100+y/400-719162; for (int i=0;i<366;++i) clockcheck((d+i)*86400+(i*7919)%86400); } mc_nontrivial(k); mc_state(now);
}
static void boot(void){ setenv("TZ","UTC",1); tzset(); sys_boot(); }
const mc_suite mc_suites[]={ {"one",s_one,MC_QT,boot},{"long",s_long,MC_QT,boot},{"two",s_two,MC_QT,boot},{"masks",s_masks,MC_QT,boot},{"badrepeat",s_badrep,MC_QT,boot},{"badmode",s_badmode,MC_QT,boot},{"wait",s_wait,MC_QT,boot},{"waits",s_waitseq,MC_QT,boot},{"count",s_count,MC_QT,boot},{"touch",s_touch,MC_QT,boot},{"clock",s_clock,MC_QT,boot},{"days",s_days,MC_QT,boot} };
const int mc_suite_count=sizeof mc_suites/sizeof*mc_suites;

// A program started by RUN or EXEC out of another one, whatever that one was doing, behaves as if started alone.
#pragma once
#include <unistd.h>
#ifndef CHAIN_RESET
#define CHAIN_RESET
#endif
#include <sys/stat.h>
static const struct { const char* t; const char* more; } chain1[]={{"A=1",""},{"FOR I=1 TO 3",""},{"FOR I=1 TO 3:FOR J=1 TO 2",""},{"GOSUB @Z","\r@Z"},{"FOR J=1 TO 2:GOSUB @Z","\r@Z"},{"GOSUB @Z","\r@Z:FOR I=1 TO 5"},
 {"READ A","\rDATA 1,2,3,4,5,6,7,8,9"},{"READ A,B","\rDATA 1,2,3"},{"READ A$:FOR I=1 TO 2:READ A$","\rDATA a,b,\"c\",dddd,e"},{"RESTORE @D:READ A","\r@D\rDATA 51,52,53"},{"READ A","\rDATA 1"},{"DIM Q(2):SWAP A,B",""},{"ON 5 GOTO @Z","\r@Z"},{"IF 1 THEN A=2",""}};
static const struct { const char* t; int e; const char* out; } chain2[]={{"NEXT",ERR_NEXT_WITHOUT_FOR,""},{"NEXT I",ERR_NEXT_WITHOUT_FOR,""},{"NEXT J",ERR_NEXT_WITHOUT_FOR,""},{"RETURN",ERR_RETURN_WITHOUT_GOSUB,""},{"READ B:PRINT B\rDATA 77,88",0,"77"},{"READ B$:PRINT B$\rDATA qq\rDATA rr",0,"qq"},
 {"READ B:PRINT B",ERR_OUT_OF_DATA,""},{"FOR I=1 TO 2:PRINT I;:NEXT",0,"12"},{"GOSUB @S:PRINT 2;:END\r@S\rPRINT 1;:RETURN",0,"12"},{"FOR K=1 TO 0:PRINT 1;\rNEXT:PRINT 5;",0,"5"},{"FOR J=1 TO 2\rGOSUB @S\rNEXT J\rNEXT\r@S\rPRINT J;:RETURN",ERR_NEXT_WITHOUT_FOR,"12"},{"PRINT 4;",0,"4"},
 {"FOR K=1 TO 2:READ B:PRINT B;:NEXT:RESTORE @D:READ B:PRINT B;\rDATA 1\r@D\rDATA 2,3",0,"122"},{"GOTO @Z",ERR_LABEL_NOT_FOUND,""},{"GOTO @D",ERR_LABEL_NOT_FOUND,""},{"RESTORE @D",ERR_LABEL_NOT_FOUND,""},{"DATA 44,55\rREAD B:CLS:PRINT B",0,"44"},{"DATA q,r\rREAD B$:CLS:PRINT B$",0,"q"}};
static void chain_put(const char* t){ u8 f[600]; int n=strlen(t); memset(f,0,24); memcpy(f,"PETC0300RPRG",12); f[20]=n; f[21]=n>>8; memcpy(f+24,t,n); mkdir("programs",0777); FILE* h=fopen("programs/CHN.PTC","wb"); fwrite(f,1,24+n,h); fclose(h); }
static void s_chain(void){
	int a=mc_range(sizeof chain1/sizeof*chain1), b=mc_range(sizeof chain2/sizeof*chain2), way=mc_choose(4), md=mc_choose(3), one=mc_choose(2); char t2[400], t1[600];
	sprintf(t2,"%s%s\r",*chain2[b].t=='D'?"":"CLS\r",chain2[b].t); const char* go=way==0?"RUN":way==1?"EXEC \"CHN\"":way==2?"LOAD \"PRG:CHN\",0:RUN":"EXEC \"PRG:CHN\"";
	// the second program started directly, or on the line after
	int ret=strchr(chain1[a].more,'@') && chain1[a].more[1]=='@';
	if (ret && strstr(chain1[a].t,"GOSUB")) sprintf(t1,"%s\rEND%s%s%s\r",chain1[a].t,chain1[a].more,one?"\r":":",go); else sprintf(t1,"%s%s%s%s\r",chain1[a].t,one?"\r":":",go,chain1[a].more);
	if (!one && strstr(t1,"THEN")) sprintf(t1,"IF 1 THEN A=2:%s\r",go);
	sys_reset(); if (md) P->vars.clear_values=true; P->res.search_path="programs/"; mc_desc("mode %d: %s / then / %s",md,t1,t2);
	if (way==0){ memcpy(P->exec.prg.data,t2,strlen(t2)); P->exec.prg.size=strlen(t2); } else chain_put(t2);
	CHAIN_RESET; int e=sys_run(t1,md==2?TOKOPT_VARIABLE_IDS:0); mc_validated(2); mc_trans(2); char row[40]; strncpy(row,sys_row(0),33); row[33]=0; for (int i=strlen(row);i>0&&row[i-1]==' ';) row[--i]=0;
	if (e!=chain2[b].e) mc_fail("the second program ends with \"%s\", alone with \"%s\"",errname(e),errname(chain2[b].e));
	if (strcmp(row,chain2[b].out)) mc_fail("the second program prints \"%s\", alone \"%s\"",row,chain2[b].out);
	mc_state(mc_mix(a*20+b,way)); mc_nontrivial(mc_mix(mc_mix(a,b),way*6+md*2+one)); mc_outcome(e);
}
static void b_chain(void){ if (chdir(mc_scratch)) abort(); sys_cfg.prg=4096; sys_cfg.arr=2048; sys_boot(); }

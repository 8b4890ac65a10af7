// printf-style BASIC helpers shared by the harnesses (compile mode chosen with setmode)
#pragma once
#include "sys.h"
static int mode; // 0 names, 1 names and CLEAR keeps entries, 2 slots resolved at compile time
static inline int opts(void){ return mode==2 ? TOKOPT_VARIABLE_IDS : 0; }
static inline void setmode(int m){ mode=m; if (m) P->vars.clear_values=true; mc_desc("mode%d ",m); }
static inline int bas(const char* f, ...){ char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b-1,f,a); va_end(a); strcat(b,"\r"); return sys_run(b,opts()); }
static inline void must(const char* f, ...){ char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b-1,f,a); va_end(a); strcat(b,"\r"); int e=sys_run(b,opts()); if (e) mc_fail("%.200s failed: %s",b,errname(e)); }
static inline void shows(const char* want, const char* f, ...){ char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); int e; const char* g=sys_eval(b,opts(),&e); mc_validated(1); if (e) mc_fail("%s failed: %s",b,errname(e)); if (strcmp(g,want)) mc_fail("%s is %s, expected %s",b,g,want); }

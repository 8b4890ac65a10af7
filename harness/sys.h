// Drives the real interpreter in-process: boot once, restore the whole system image
// before every case, run BASIC text, observe public state.
#pragma once
#include "mc.h"
#include "common.h"
#include "system.h"
#include "error.h"
#include "interpreter/tokens.h"
#include "interpreter/vars.h"
#include "interpreter/strs.h"
#include "interpreter/arrays.h"
#include <stdarg.h>
#include "interpreter/program.h"
#include "extension/sbc_blockalloc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

extern struct ptc* P;
struct sys_cfg { int vars, strs, arr; int bc; int lines; int labels; int prg; };
extern struct sys_cfg sys_cfg;
void sys_boot(void);
extern bool sys_plain;           // set before sys_boot: no red zones in the arena
extern bool sys_restore_big;      // also restore large blocks (graphics, characters, ...)
void sys_reset(void);             // whole system back to the image taken at boot
extern void (*sys_on_sleep)(void);
extern int sys_sleeps, sys_sleep_limit;
int sys_run(const char* src, int opts);              // direct command / program
int sys_compile(const char* src, int opts); // then any number of
int sys_go(void);                 // executions of it
int sys_runn(const char* src, int len, int opts);
void sys_snapshot(void);          // retake the image (after extra boot-time setup)

// observations
struct named_var* sys_find(const char* name, int type);     // NULL if absent
fixp sys_num(const char* name);                             // 0 if absent
int sys_str(const char* name, u8* out);                     // length; "" if absent
int sys_strv(const void* s, u8* out);                       // any string value -> bytes
const char* sys_strz(const char* name);                     // printable copy
uint64_t sys_hash_vars(void);
uint64_t sys_hash_console(void);
int sys_live_strings(void);                                 // string slots in use
int sys_ref_strings(bool* ok);                              // distinct slots referenced by variables/arrays
const char* errname(int e);
fixp fx(double d);

// small program builder
typedef struct { char s[4096]; int n; } sb;
void sb_init(sb*); void sb_add(sb*, const char* fmt, ...) __attribute__((format(printf,2,3)));
// screen text helpers: row y as printable text without trailing blanks
const char* sys_row(int y);
// run "CLS", then PRINT of the expression; *err receives the error; returns row 0
const char* sys_eval(const char* expr, int opts, int* err);
void sys_boot_small(int vars, int strs, int arr);

void sys_ignore(const void* p, size_t n);   // leave a range out of sys_diff
const void* sys_diff(void);                 // first byte differing from the snapshot, or NULL
void* sys_block(const void*, int*);
u8 sys_image(const void* p);
struct bytecode* sys_bc(void);

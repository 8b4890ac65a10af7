// forced into every translation unit of the code under test
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#define printf(...) ((void)0)
#define abort mc_abort_trap
extern void mc_abort_trap(void) __attribute__((noreturn));

/* Forced include for every m4rie source file in the simulator build.
 * m4ri bakes cache sizes into constants; here they become per-run knobs so that
 * crossovers and block sizes are explored without changing /repo. */
#ifndef SIM_PRELUDE_H
#define SIM_PRELUDE_H
#ifdef SIM_NDEBUG
#define NDEBUG 1
#endif
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <m4ri/m4ri.h>
#ifndef SIM_NO_KNOBS
#ifdef __cplusplus
extern "C" {
#endif
extern int sim_l2, sim_l3, sim_mulblock;
#ifdef __cplusplus
}
#endif
#undef __M4RI_CPU_L2_CACHE
#define __M4RI_CPU_L2_CACHE sim_l2
#undef __M4RI_CPU_L3_CACHE
#define __M4RI_CPU_L3_CACHE sim_l3
#undef __M4RI_MUL_BLOCKSIZE
#define __M4RI_MUL_BLOCKSIZE sim_mulblock
#endif
#endif

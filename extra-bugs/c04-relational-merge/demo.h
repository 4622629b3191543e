/* Helpers for the demonstrations. */
#include "projectm-eval.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int failures;
#ifndef OWN_LOCKS
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
#endif
typedef struct projectm_eval_context C;
typedef struct projectm_eval_code H;
static inline C* mk(void) { return projectm_eval_context_create(NULL, NULL); }
static inline double run(C* c, const char* t) {
    H* h = projectm_eval_code_compile(c, t);
    if (!h) { printf("refused: %s\n", t); failures++; return -12345; }
    double v = projectm_eval_code_execute(h);
    projectm_eval_code_destroy(h);
    return v;
}
static inline double* var(C* c, const char* n) { return projectm_eval_context_register_variable(c, n); }
#define CHECK(x) do { if (!(x)) { printf("line %d: failed: %s\n", __LINE__, #x); failures++; } } while (0)
#define DONE return failures ? 1 : 0

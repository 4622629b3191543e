#include "demo.h"
int main(void) {
C* c = mk(); CHECK(run(c,"x=$'\\'") == 92); projectm_eval_context_destroy(c);
DONE;
}

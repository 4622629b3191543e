#include "demo.h"
int main(void) {
C* c = mk(); CHECK(run(c,"gMem[3]=4;gmem[3]") == 4); projectm_eval_context_destroy(c);
DONE;
}

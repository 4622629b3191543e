#include "demo.h"
int main(void) {
C* c = mk(); CHECK(run(c,"x=5;x||0?2:3") == 2); projectm_eval_context_destroy(c);
DONE;
}

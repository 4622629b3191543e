// The host side of the library under test: lock callbacks, allocator accounting and fault injection,
// and thin RAII wrappers around the public API.
#pragma once
#include "eng.hpp"
#include "model.hpp"

#include "projectm-eval.h"

#include <functional>
#include <string>
#include <vector>

namespace host {

void child_init();
// Puts the process-wide state of the library (built-in global buffer, default registers) and of this module back to
// its initial state.
void reset_library_state();

// ---- lock callbacks
enum LockEvent { BEFORE_LOCK, AFTER_LOCK, BEFORE_UNLOCK, AFTER_UNLOCK, BEFORE_ALLOC, AFTER_ALLOC, BEFORE_FREE };
extern std::function<void(LockEvent)> lock_hook;      // called on every thread, except within a running hook
int lock_depth();                                     // of the calling thread
void set_lock_depth_error(const char* what);          // records a violation of the protocol
long lock_count();
const std::string& lock_error();                      // first violation of the locking protocol
void clear_lock_state();

// ---- allocator of the library's objects
struct AllocStats { long blocks; size_t bytes; };
AllocStats live();                                    // currently allocated by the library
size_t large_live();                                  // number of live allocations of kLarge bytes or more
constexpr size_t kLarge = 128 * 1024;
extern std::function<bool(size_t)> fail_hook;         // asked for large allocations; true: fail
extern bool check_large_locked;                       // report large allocations/releases outside of the lock
extern long large_allocs, large_frees;                // counted since reset

// ---- API wrappers
class Code;
class Ctx {
public:
    projectm_eval_context* c;
    explicit Ctx(projectm_eval_mem_buffer g = nullptr, double (*regs)[100] = nullptr);
    ~Ctx();
    Ctx(const Ctx&) = delete;
    Ctx& operator=(const Ctx&) = delete;
    double* var(const std::string& n) { return projectm_eval_context_register_variable(c, n.c_str()); }
    projectm_eval_code* compile(const std::string& t);       // the text lives in an exactly sized heap block
    std::string error(int* line = nullptr, int* col = nullptr);
    bool has_error() { return projectm_eval_get_error(c, nullptr, nullptr) != nullptr; }
    // Memory access through compiled code
    double peek(bool global, double index);
    void poke(bool global, double index, double v);
private:
    projectm_eval_code* rd_[2] = {nullptr, nullptr};
    projectm_eval_code* wr_[2] = {nullptr, nullptr};
    double *pi_ = nullptr, *pv_ = nullptr;
    void prepare();
};
class Code {
public:
    projectm_eval_code* h;
    explicit Code(projectm_eval_code* p) : h(p) {}
    Code(Ctx& c, const std::string& t) : h(c.compile(t)) {}
    ~Code() { if (h) projectm_eval_code_destroy(h); }
    Code(const Code&) = delete;
    Code& operator=(const Code&) = delete;
    double run() { return projectm_eval_code_execute(h); }
    explicit operator bool() const { return h != nullptr; }
};

// A buffer handed to contexts as their global memory
struct Buffer {
    projectm_eval_mem_buffer b = projectm_eval_memory_buffer_create();
    ~Buffer() { projectm_eval_memory_buffer_destroy(b); }
    Buffer() = default;
    Buffer(const Buffer&) = delete;
};
// A register array in a heap block of exactly the right size
struct Regs {
    double (*r)[100];
    Regs() : r((double (*)[100]) calloc(100, sizeof(double))) {}
    ~Regs() { free(r); }
    Regs(const Regs&) = delete;
};

// Copies the model's variable values into the context (registering them) and the registers.
void load_state(Ctx& c, const model::State& s);
// Empty if the context's variables, registers and memory equal the model's; otherwise what differs.
// Memory is compared in the pages the model has, at their images in other blocks and at the array's ends.
std::string diff_state(Ctx& c, const model::State& s, double tol, eng::Case& k, bool local = true, bool global = true);

std::string g17(double v);

}  // namespace host

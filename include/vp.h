// Interface between harnesses and the symbolic engine / native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C"
{
extern int vp_scenario;                           // which scenario of the harness file to run
void vp_start();                                  // interleavings become symbolic from here
void vp_final();                                  // ... or up to here: all other threads freeze, every path joins
void vp_stop();                                   // ends the run (after vp_final, instead of the tear-down)
void vp_end();                                    // ... up to here (deterministic continuation)
void vp_assert_impl(bool cond, const char* what); // property
void vp_assume(bool cond);                        // restricts inputs
uint64_t vp_nondet_u64();
uint32_t vp_nondet_u32();
uint16_t vp_nondet_u16();
uint8_t vp_nondet_u8();
bool vp_nondet_bool();
void vp_reach(const char* label);  // vacuity witness: the label was reached on a feasible path
void vp_expect(const char* label); // the check fails as vacuous unless the label is reached
void vp_log(const char* label, uint64_t v); // compared between engine and native replay
void vp_timeouts(int mode, int budget); // 0 never, 1 any time (budget), 2 only when nothing else can run
void vp_spurious(int budget);           // spurious wake-ups allowed on every condition wait
void vp_clock(int mode);                // 0 virtual clock, 1 every reading advances by any amount from 1 us up, n by n ns
void vp_advance(uint64_t ns);
uint64_t vp_time();        // current virtual time, ns
uint64_t vp_deadline();    // absolute deadline of the most recent timed wait, ns
uint64_t vp_timed_waits(); // number of timed waits started so far
uint32_t vp_tid();
uint32_t vp_held(); // number of mutexes held by the calling thread
void vp_yield();
uint64_t vp_concretize(uint64_t v); // case split on the value
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_ASSERT(c, what) vp_assert_impl(static_cast<bool>(c), what)

// a symbolic choice in [0, n)
static inline unsigned vp_choice(unsigned n)
{
    uint8_t v = vp_nondet_u8();
    vp_assume(v < n);
    return (unsigned)vp_concretize(v);
}

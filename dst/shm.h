// Shared memory between the simulator (driver) and the simulated processes.
#pragma once
#include <stdint.h>
#define SIM_FD 900
#define SIM_IN 65536
#define SIM_OUT 65536
#define SIM_SLOTS 48
#define SIM_ADDR 0x5f0000000000ul

enum { ST_FREE = 0, ST_REQ = 1, ST_REP = 2 };
enum { ACT_RET = 0, ACT_NATIVE, ACT_FORK, ACT_EXEC, ACT_EXIT, ACT_HANG };
// Pseudo system calls.
enum { SIM_ATTACH = 10000, SIM_FORKED, SIM_CRASH, SIM_EXECFAIL, SIM_CHILD };

struct Slot {
    volatile uint32_t state;
    int32_t action;
    int64_t nr;
    int64_t args[6];
    int64_t ret;
    int32_t realpid;
    uint32_t inlen, outlen;
    int32_t child_slot;
    // allocator plan and counters
    int64_t alloc_n;        // allocations so far (since attach)
    int64_t alloc_fail_at;  // index of the first failing allocation (0 = never)
    int64_t alloc_fail_len; // how many fail in a row (<0: for ever)
    int64_t alloc_limit;    // live bytes allowed (0 = unlimited)
    int64_t alloc_live, alloc_peak;
    int64_t alloc_fired;
    uint32_t poison;
    uint32_t armed;
    uint64_t sigign;        // bit n: signal n ignored by the program
    uint64_t sighand;       // bit n: signal n has a handler
    char in[SIM_IN];
    char out[SIM_OUT];
};
struct Shared {
    struct Slot slot[SIM_SLOTS];
};

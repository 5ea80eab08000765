// The simulated machine: files, descriptors, processes, clock, faults.
#pragma once
#include "util.h"

struct Fault {
    int inst = 0;
    std::string role, op, cls; // where: process role, operation, file class
    int nth = 0;               // ... and which occurrence of that operation
    std::string kind;          // err short kill kill_after torn flip eof jump fulldisk
    long arg = 0, arg2 = 0;
};
struct Chunk { long at_us; std::string data; };
struct InputSpec {
    std::string type = "file"; // file pipe tty null closed
    std::vector<Chunk> chunks; // pipe/tty: delivered one by one; file: concatenated
    std::string end = "eof";   // eof eio block
    int maxread = 0;           // file: longest read served (0: no limit)
};
struct SinkSpec {
    std::string type = "file"; // file pipe tty closed
    long cap = -1;             // bytes accepted before failing
    std::string fail = "enospc"; // enospc eio epipe edquot
    int maxwrite = 0;          // longest write accepted at once
};
struct Instance {
    std::string exe = "x1sim";
    std::vector<std::string> argv;
    std::map<std::string, std::string> env;
    std::string cwd = "/w";
    InputSpec in;
    SinkSpec out, err;
    int phase = 0;
    long start_us = 0;      // not scheduled before this simulated time (relative to its phase)
    long alloc_limit = 1l << 30;
    int cpu_s = 6;          // processor time before it counts as endless
    int cpu_ms = 0;         // ... a shorter limit for the process itself
};
struct FileSpec { std::string path, data; int mode = 0644; bool dir = false; long age_s = -86400; }; // age: last changed, relative to the start
struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    std::vector<FileSpec> files;
    std::vector<Instance> insts;
    std::vector<Fault> faults;
    std::vector<int> sched;   // scheduling choices
    long wall0_us = 1700000000000000l;
    long tick_us = 50;        // upper bound of the time one call takes
    long disk_free = -1;      // bytes left on the file system
    int poison = 0xA5;
    int pid0 = 1000;          // first process number
    bool same_pids = false;   // process numbers start again in each phase
    bool orphans = false;     // processes whose parent died live on into the next phase
    std::map<std::string, std::string> x; // expectations and notes used by the property's oracle
    std::string save() const;
    static bool load(const std::string &text, Scenario &s, std::string &err);
};
struct Ev {
    int inst = 0;
    std::string role, op, cls;
    int nth = 0;
    long ret = 0;
    std::string info;
    long t_us = 0;
    size_t out_len = 0; // stdout bytes of that instance so far
    long val = 0;
    int pid = 0;
};
struct InstResult {
    std::string how; // exit signal killed blocked hang
    int code = 0;    // exit code or signal number
    std::string out, err;
    long lost = 0;           // stdout bytes offered that the sink refused
    size_t in_read = 0;      // stdin bytes delivered
    int in_reads = 0;
    bool sawEof = false;
    int sub_abnormal = 0;    // child processes that died of a signal nobody injected
    std::string sub_note;
    bool ok() const { return how == "exit" && code == 0; }
    std::string status() const { return how + ":" + std::to_string(code); }
};
struct RunResult {
    std::vector<InstResult> inst;
    std::vector<Ev> ev;
    std::map<std::string, std::string> files; // final contents
    uint64_t hash = 0;
    long steps = 0, end_us = 0;
    std::map<std::string, long> fired; // fault kind -> times
    int fired_faults = 0;              // how many listed faults fired
    std::vector<bool> fault_fired;     // ... and which
    long switches = 0;
    uint64_t order_hash = 0;           // measure of the interleaving
    std::string harness;               // not empty: the simulator could not follow the program
    std::map<std::string, long> allocs; // role -> allocations made
    std::map<std::string, long> allocs_fired;
    std::map<std::string, long> peak;   // role -> most bytes in use at once
};
struct Binaries {
    std::map<std::string, std::string> real, checked; // checked: built with bounds checks that trap
    std::string libsim;
};
extern Binaries g_bin;
void world_setup(); // once per worker process
RunResult run(const Scenario &s);

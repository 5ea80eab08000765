// Random ALGOL 60 programs and an independent interpreter for them (the reference model).
#pragma once
#include "util.h"

struct Profile {
    int stmts = 10;        // size of the main body
    int procs = 3;
    bool arrays = true, byname = true, gotos = true, loops = true, reals = true, bools = true, nested = true;
    bool input = false;    // read
    bool xeen = false;     // console switches
    bool resym = false;    // character input
    bool library = true;   // SUM, EVEN, PRINTTEXT...
    bool callbacks = true; // labels, switches, procedures as parameters
    bool format = true;    // FIXT, FLOT, ABSFIXT
    int error = 0;         // 1: plant a run-time error somewhere
    bool stop = false;
    long min_out = 0;      // reject programs that print less
    int style = -1;        // -1: any spelling
    bool tokens = true;    // print tokens between values
    int big = 12;          // per cent: integers about the limits of the machine
    int procp = 0;         // per cent: formal parameters that are procedures, arrays (beyond what there is anyhow)
    int arrp = 4;
    int turning = 1;       // per cent: loops whose step changes its sign
    bool tty = false;      // input comes from a terminal: prompts, retries
};
struct ModelRun {
    bool ok = false;          // the model accepts the program (no undefined behaviour met)
    std::string reject;
    std::string out;          // everything printed
    bool error = false;       // ended by a run-time error
    std::string errkind;
    std::string in;           // characters the program consumes, in order
    struct Need { size_t in_need; size_t out_len; char kind; }; // n-th consumption: bytes needed, output before it.
    // kind: n number, x switches, c character, e character at the end, E X number/switches at the end, B Y bad number/switches
    std::vector<Need> needs;
    long steps = 0, calls = 0, jumps = 0, loops = 0, thunks = 0, maxdepth = 0;
};
struct Program {
    std::string source;
    ModelRun model;
    int nstmts = 0;
    std::map<std::string, int> features;
};
// Deterministic in (seed, profile, deleted statements). cut: the input ends after so many items (-1: never).
Program make_program(uint64_t seed, const Profile &p, const std::set<int> &deleted = {}, int cut_items = -1, int bad_item = -1);
// As above, trying seeds until the model accepts the program; returns the seed used.
uint64_t find_program(uint64_t seed, const Profile &p, Program &out, int cut_items = -1, int bad_item = -1);
long double round40(long double x); // to the 40-bit mantissa of the machine
std::string show_real(long double x);

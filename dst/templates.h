// Programs of any size whose result is known without interpreting them.
#pragma once
#include "util.h"
struct Sized {
    std::string source, want;
    bool endless = false; // has no result: must be stopped
};
struct Template {
    std::string name;
    long floor;  // sizes up to this one are certain to fit
    long max;    // sizes tried
    std::function<Sized(long n, Rng &r)> make;
};
const std::vector<Template> &templates();
std::string shown(long v); // what print writes for an integer
std::string algol(const std::string &t); // 'begin' -> _b_e_g_i_n

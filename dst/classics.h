#pragma once
#include "util.h"
struct Classic {
    std::string name, source, want, in; // source: 'word' notation
};
// A well-known program for procedures (C15), jumps (C16), arrays and loops (C17).
Classic classic(const std::string &prop, Rng &r);

// Programs that fill what the machine has: levels of procedures, places in a frame, depth of the stack.
#pragma once
#include "templates.h"
Sized levels(long n, Rng &r, bool jump);  // n procedures within each other
Sized crowded(long n, Rng &r);            // a procedure with n variables
Sized piled(long depth, long width, Rng &r); // arrays of width words in each of depth activations
Sized sprawling(long n, Rng &r);          // n labels, procedures, switches and constants, used across the whole text
Sized vast(long n, Rng &r);               // arrays of up to six dimensions and n elements

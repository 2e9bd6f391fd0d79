// Interposition on the allocator calls of the library (linked with -Wl,--wrap): exact live set, peak,
// numbering of allocation calls and failure injection.
#pragma once
#include <cstddef>
namespace memwrap {
extern long live, peak, ncalls, nblocks;   // bytes as requested from the allocator, calls so far, live blocks
extern long failAt;                        // the failAt-th call (1-based since reset) fails; 0: none
extern bool failAll;                       // every call from failAt on fails
extern long failed;                        // number of injected failures so far
extern bool on;
extern void **site; extern int *siteN;      // call stack of the first refused call
void reset();                              // counters only (not the live set)
extern int foreign;                        // frees of blocks this layer does not know
}

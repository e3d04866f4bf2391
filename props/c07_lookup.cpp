#include "props/lifecycle.h"
const char* const kPropertyId = "C07";
const char* const kRule = "One run = a history of 8-40 operations over up to 4 masks (also masked by each other) and 5 rasters of one type: build, load in all forms with or without mask, default values and extents, copy, set cells, replace no-data, reclassify, calculate positions, use the mask's extent, delete. Worker teams of 1-16 virtual threads run every parallel loop; the tape decides all switches, down to single memory accesses, and every access is checked for a happens-before order. After each step every cell is read by row/column, coordinate and position, and places outside, and compared with a plain full grid. Non-trivial: a team with switches inside, over at least four objects.";
const char* const kRealComponents = "CCGL data_raster/utils (instrumented memory accesses), GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "OpenMP runtime and threads (coroutines under the tape), ThreadSanitizer runtime (replaced by scheduling and happens-before checking), kernel file system (simulated disk below libc), memory allocator (accounting around the real one)";
void prop_init() { raster_init(); }
template <class T> void run() {
    { Life<T> w; w.faults = sim::flip(1, 4); w.nested = true; w.lookups = true; w.go(sim::range(8, 40)); }
    if (simthr::switches && simthr::teams) sim::mark_nontrivial();
    check_escapes();
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape(); simthr::races = true;
    switch (sim::draw(5)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; case 3: run<short>(); break; default: run<unsigned char>(); }
}

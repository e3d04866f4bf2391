#include "props/lifecycle.h"
const char* const kPropertyId = "C23";
const char* const kRule = "One run = a history of 10-60 operations over up to 4 masks and 5 rasters of one type: build from arrays, load from files (read faults on some) into new or used objects with or without mask, build from a mask and values, copy (also onto used objects and itself), set cells, replace no-data, reclassify, calculate positions, take over the mask's extent, build/rebuild/release subsets and give them data, update statistics, write out, delete in any order that keeps used masks alive. After each step the object is compared with a plain grid; at the end every array must be released. Non-trivial: at least four objects.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape), memory allocator (accounting and poison around the real one, AddressSanitizer)";
void prop_init() { raster_init(); }
template <class T> void run() {
    simalloc::start();
    { Life<T> w; w.go(sim::range(10, 60)); }
    simalloc::stop();
    if (simalloc::live_arrays()) sim::violate("leak", "%lld arrays (%zu bytes) were not released when all rasters had been deleted", (long long) simalloc::live_arrays(), simalloc::live_bytes());
    if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
    check_escapes();
}
void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    switch (sim::draw(5)) { case 0: run<float>(); break; case 1: run<int>(); break; case 2: run<double>(); break; case 3: run<short>(); break; default: run<unsigned char>(); }
}

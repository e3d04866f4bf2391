#include "props/write_cases.h"
const char* const kPropertyId = "C01";
const char* const kRule = "One run = a generated raster (type, size, no-data pattern, 1 or several layers, possibly masked), an output form (ASCII or GeoTIFF, class method or free function, output type), leftovers of earlier files under the same names, and a sequence of disk faults (refused open, write error, short write, full disk, failing close, unlink, rename, seek, truncate) over 1-3 writes. Non-trivial: a fault fired or an old file was overwritten.";
const char* const kRealComponents = "CCGL data_raster/utils, GDAL 3.8 GTiff driver and libtiff, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc), OpenMP runtime (scheduler under the tape)";
void prop_init() { raster_init(); }

void prop_run() {
    simfs::reset(); simthr::configure_from_tape();
    simfs::mkdirs("/sim/in"); simfs::mkdirs("/sim/out");
    int writes = sim::range(1, 3);
    string path = kOutNames[sim::weighted({6, 6, 1, 1, 1, 1, 1})];
    for (int k = 0; k < writes; k++) {
        Case c = make_case();
        vector<Out> outs = c.outs(path);
        bool asc = outs[0].asc;
        if (k == 0) for (auto& o : outs) if (sim::flip(1, 4)) {           // leftovers that are no rasters
            if (!simfs::is_dir(o.path.substr(0, o.path.rfind('/')))) continue;
            simfs::put(o.path, sim::flip(1, 2) ? string(sim::draw(5000), '7') : "NCOLS 3\nNROWS 3\n1 2 3 4 5 6 7 8 9 9 9 9\n");
            sim::mark_nontrivial();
        }
        bool old = false; for (auto& o : outs) if (simfs::exists(o.path)) old = true;
        if (old) sim::mark_nontrivial();
        vector<simfs::Rule> rs;
        int nr = (int) sim::weighted({2, 6, 2});
        if (k == writes - 1 && k > 0) nr = 0;
        for (int i = 0; i < nr; i++) {
            rs.push_back(draw_rule({{simfs::WRITE, {ENOSPC, EIO, EDQUOT}}, {simfs::WRITE, {ENOSPC, EIO}}, {simfs::WRITE, {-1}}, {simfs::OPEN_W, {EACCES, ENOSPC, EMFILE, EROFS}}, {simfs::CLOSE, {EIO, ENOSPC}}, {simfs::UNLINK, {EACCES, EIO}}, {simfs::TRUNC, {EIO, ENOSPC}}, {simfs::SEEK, {EIO}}, {simfs::RENAME, {EIO, EACCES}}, {simfs::STAT, {EIO}}, {simfs::READ, {EIO}}, {simfs::MKDIR, {EACCES, ENOSPC}}, {simfs::OPEN_R, {EACCES, EMFILE}}, {simfs::OPENDIR, {EMFILE}}}, 12));
            if (sim::flip(1, 2)) rs.back().under = "/sim/out";
        }
        bool full = nr && sim::flip(1, 6);
        if (full) { int64_t used = 0; for (auto& i : simfs::disk.ino) if (i.second.t == simfs::Inode::REG) used += (int64_t) i.second.data.size(); simfs::disk.capacity = used + sim::draw(3000); }
        sim::log("write %d: %s -> %s legal %d old %d rules %d full %d", k, c.what.c_str(), path.c_str(), c.legal, old, nr, full);
        uint64_t f0 = simfs::fault_count;
        bool dir_there = simfs::is_dir(path.substr(0, path.rfind('/')));
        simfs::arm(rs); if (!asc && nr) bound_gdal();
        bool ok = false;
        guarded(asc ? "write-asc" : "write-tif", [&]() { ok = c.write(path); });
        simfs::disarm(); simfs::on_op = nullptr; simfs::disk.capacity = -1;
        bool fired = simfs::fault_count != f0;
        sim::log("-> %d fired %d", ok, fired);
        if (ok) {
            if (!asc && !c.legal) sim::violate("false-success:not-representable", "%s: success although some cells cannot be stored in the requested type", c.what.c_str());
            for (auto& o : outs) {
                string d = o.asc ? diff_asc(o.path, c.want, o.lyr, c.integral) : diff_tif(o.path, c.want_tif, o.lyr, c.gdt);
                if (!d.empty()) sim::violate(fired ? (o.asc ? "false-success:asc" : "false-success:tif") : (o.asc ? "unfaithful:asc" : "unfaithful:tif"), "%s: write reported success but %s (disk fault fired: %d, old file: %d)", c.what.c_str(), d.c_str(), fired, old);
            }
        } else {
            bool some = false; for (double d : c.want.v[0]) some |= d != c.want.nodata;
            if (!fired && some && (asc || c.legal) && (c.makes_dir || dir_there)) sim::violate(asc ? "refused-healthy:asc" : "refused-healthy:tif", "%s: write refused on a healthy disk", c.what.c_str());
        }
        c.done();
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
    }
}

#include "props/common.h"
#include "utils_filesystem.h"
const char* const kPropertyId = "C19";
const char* const kRule = "One run = a generated text file (lines, comments, blanks, LF/CRLF, long lines, embedded bytes, missing final newline; or a directory, a missing file, a link), a sequence of read faults and one or more loads. Non-trivial: a fault fired, or the file has content across several buffers, or the target is not a regular file.";
const char* const kRealComponents = "CCGL utils_filesystem/utils_string, libstdc++ iostreams";
const char* const kStubComponents = "kernel file system (simulated disk below libc)";
void prop_init() {}

static vector<string> model(const string& d) {
    vector<string> out;
    size_t p = 0;
    while (p < d.size()) {
        size_t e = d.find('\n', p);
        if (e == string::npos) e = d.size();
        string l = d.substr(p, e - p);
        size_t a = l.find_first_not_of(" \n\r\t"), b = l.find_last_not_of(" \n\r\t");
        if (a != string::npos) { l = l.substr(a, b - a + 1); if (l[0] != '#') out.push_back(l); }
        p = e + 1;
    }
    return out;
}
static string gen_line(int i) {
    char b[64];
    switch (sim::weighted({8, 2, 2, 2, 1, 1, 1, 1})) {
        case 0: snprintf(b, sizeof b, "key%d = %d", i, i * 37 % 1001); return b;
        case 1: return "# comment " + std::to_string(i);
        case 2: return "";
        case 3: return string(1 + sim::draw(3), " \t "[sim::draw(3)]) + "v" + std::to_string(i) + string(sim::draw(3), ' ');
        case 4: { static const int len[] = {100, 1000, 4095, 4096, 8190, 8191, 8192, 20000}; return "L" + string(len[sim::draw(8)], (char) ('a' + i % 26)); }
        case 5: return string("b\0c", 3) + std::to_string(i);
        case 6: return "\xef\xbb\xbf\xff" + std::to_string(i) + " # tail";
        default: return "   # indented comment";
    }
}
void prop_run() {
    simfs::reset();
    simfs::mkdirs("/sim/d");
    string data;
    int nl = sim::range(0, 12);
    if (sim::flip(1, 6)) nl *= 40;
    const char* eol = sim::flip(1, 4) ? "\r\n" : "\n";
    for (int i = 0; i < nl; i++) { data += gen_line(i); if (i + 1 < nl || !sim::flip(1, 3)) data += eol; }
    string path = "/sim/d/in.txt";
    int kind = (int) sim::weighted({12, 1, 1, 1, 1});
    if (kind == 0) simfs::put(path, data);
    else if (kind == 1) simfs::mkdirs(path);
    else if (kind == 3) { simfs::put("/sim/d/real.txt", data); simfs::mklink(path, "real.txt"); }
    else if (kind == 4) simfs::mklink(path, "nowhere");
    bool loadable = kind == 0 || kind == 3;
    vector<string> want = model(data);
    sim::log("file kind %d bytes %zu lines %zu", kind, data.size(), want.size());
    if (data.size() > 8191 || !loadable) sim::mark_nontrivial();
    int loads = sim::range(1, 3);
    for (int k = 0; k < loads; k++) {
        vector<simfs::Rule> rs;
        bool hard = false;
        int nr = (int) sim::weighted({3, 6, 2});
        if (k == loads - 1 && k > 0) nr = 0;       // the last load is after the faults stopped
        for (int i = 0; i < nr; i++) {
            rs.push_back(draw_rule({{simfs::READ, {-1, EIO, ESTALE}}, {simfs::READ, {EIO}}, {simfs::OPEN_R, {EACCES, EMFILE, EIO}}, {simfs::REALPATH, {EIO, EACCES}}, {simfs::CLOSE, {EIO}}, {simfs::SEEK | simfs::STAT, {EIO}}}, 6));
            if (rs.back().err > 0) hard = true;
        }
        simfs::arm(rs);
        uint64_t f0 = simfs::fault_count;
        vector<string> got; bool ok = false;
        guarded("load-text", [&]() { ok = ccgl::utils_filesystem::LoadPlainTextFile(path, got); });
        simfs::disarm();
        bool fired = simfs::fault_count != f0;
        sim::log("load %d -> %d %zu lines (faults %d)", k, ok, got.size(), fired);
        if (ok) {
            if (!loadable) sim::violate("false-success:not-a-file", "loading something that is not a readable file succeeded (kind %d)", kind);
            if (got != want) {
                size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
                sim::violate(got.size() < want.size() ? "truncated-success" : "wrong-lines", "load reported success with %zu lines, the file has %zu; first difference at line %zu (fault fired: %d)", got.size(), want.size(), i, fired);
            }
        } else {
            if (!got.empty()) sim::violate("failed-with-content", "load reported failure but handed out %zu lines", got.size());
            if (loadable && !(fired && hard)) sim::violate("refused-healthy", "a readable file was refused without any disk error");
        }
        if (simfs::open_handles()) sim::violate("handle-leak", "%d file handles left open", simfs::open_handles());
        check_escapes();
    }
}

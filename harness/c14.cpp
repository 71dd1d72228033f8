// C14: File histories against a model of the bytes on disk, with intercepted stream open/close
// calls, descriptor counts and refusing devices. All files live in a scratch directory.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <climits>
#include <cstdio>
#include <memory>

#include "efp.hpp"
#include "mon.hpp"

using namespace mon;
using efp::File;
using efp::Maybe;
using efp::String;

// ---------------------------------------------------------------- intercepted stream calls
static std::set<FILE*>* g_open;
static uint64_t g_opens, g_closes;

extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_fclose(FILE*);
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    FILE* f = __real_fopen(p, m);
    if (f) {
        HeapPause hp;
        ++g_opens;
        g_open->insert(f);
    }
    return f;
}
extern "C" FILE* __real_fopen64(const char*, const char*);
extern "C" FILE* __wrap_fopen64(const char* p, const char* m) {
    FILE* f = __real_fopen64(p, m);
    if (f) {
        HeapPause hp;
        ++g_opens;
        g_open->insert(f);
    }
    return f;
}
extern "C" FILE* __real_fdopen(int, const char*);
extern "C" FILE* __wrap_fdopen(int d, const char* m) {
    FILE* f = __real_fdopen(d, m);
    if (f) {
        HeapPause hp;
        ++g_opens;
        g_open->insert(f);
    }
    return f;
}
extern "C" int __wrap_fclose(FILE* f) {
    {
        HeapPause hp;
        ++g_closes;
        if (!f || !g_open->erase(f)) {
            violation("close-twice", "a stream that is not open was closed");
            return EOF;
        }
    }
    return __real_fclose(f);
}

static std::string g_dir;
static std::string g_ops;

static void bad(const char* key, const std::string& d = "") { violation(key, d + " after" + (g_ops.size() > 1500 ? "..." + g_ops.substr(g_ops.size() - 1500) : g_ops)); }

static size_t descriptors() {
    size_t n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    if (!d) harness_error("/proc/self/fd");
    while (::readdir(d)) ++n;
    ::closedir(d);
    return n;
}

static std::string disk(const std::string& path) {
    std::string s;
    const int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0) return "<missing>";
    char buf[65536];
    for (ssize_t n; (n = ::read(fd, buf, sizeof buf)) > 0;) s.append(buf, static_cast<size_t>(n));
    ::close(fd);
    return s;
}

static void put(const std::string& path, const std::string& s) {
    const int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) harness_error("put");
    size_t off = 0;
    while (off < s.size()) {
        const ssize_t n = ::write(fd, s.data() + off, s.size() - off);
        if (n <= 0) harness_error("put");
        off += static_cast<size_t>(n);
    }
    ::close(fd);
}

static std::string vis(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < 60; ++i) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        r += c < 32 || c > 126 ? sf("\\x%02x", c) : std::string(1, static_cast<char>(c));
    }
    return sf("(%zu) ", s.size()) + r;
}

static std::string bytes(Rng& r, bool no_null = false) {
    size_t n;
    switch (r.below(8)) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = 4095 + r.below(3); break;
    case 3: n = r.below(!slow() && r.chance(10) ? 200000 : 20000); break;
    default: n = r.below(60);
    }
    std::string s(n, 0);
    const unsigned style = static_cast<unsigned>(r.below(4));
    for (size_t i = 0; i < n; ++i) {
        char c;
        switch (style) {
        case 0: c = static_cast<char>(r.next()); break;
        case 1: c = "ab\n"[r.below(3)]; break;
        case 2: c = "\n\r\xff\x1a z\0"[r.below(7)]; break;
        default: c = static_cast<char>('a' + r.below(26)); if (r.chance(4)) c = '\n';
        }
        if (no_null && !c) c = 'n';
        s[i] = c;
    }
    return s;
}

static String mk(const std::string& s) {
    String r;
    for (size_t i = 0; i < s.size(); ++i) r.push_back(s[i]);
    return r;
}
static std::string from(const String& s) { return std::string(s.data(), s.size()); }

// every operation on a closed or moved-from File fails without effect
static void expect_dead(File& f, const char* why) {
    const uint64_t o = g_opens, c = g_closes;
    if (f.write("x", 1) || f.write("xy") || f.write(String("z")) || f.write(String("")) || f.write("", 0)) bad("dead:write", why);
    if (f.read_line()) bad("dead:read_line", why);
    if (f.read_lines().size() != 0) bad("dead:read_lines", why);
    if (f.flush() == 0) bad("dead:flush", why);
    if (f.seek(0)) bad("dead:seek", why);
    if (f.tell() >= 0) bad("dead:tell", why);
    if (f.close()) bad("dead:close", why);
    if (o != g_opens || c != g_closes) bad("dead:stream", why);
    count("dead files probed");
}

// ---------------------------------------------------------------- random histories
struct Handle {
    std::unique_ptr<File> f;
    int path;                 // -1: closed or moved from
    bool rd, wr, app, bin;
    size_t pos;
    int last;                 // 0 positioned, 1 read, 2 wrote
    bool known;               // pos is defined (an append stream positions itself at its first operation)
    Handle() : path(-1), rd(false), wr(false), app(false), bin(false), pos(0), last(0), known(false) {}
};

struct Hist {
    static const int N = 4, P = 3;
    Rng r;
    Handle h[N];
    std::string content[P];
    bool exists[P], sure[P];      // sure: nothing of it is buffered in an open stream
    std::string name[P];
    size_t fds;
    size_t alive;

    explicit Hist(uint64_t seed) : r(seed), alive(0) {
        for (int i = 0; i < P; ++i) {
            name[i] = g_dir + sf("/f%d", i);
            exists[i] = r.chance(60);
            if (exists[i]) { content[i] = bytes(r); put(name[i], content[i]); }
            else ::unlink(name[i].c_str());
        }
        fds = descriptors();
    }

    bool busy(int p) const {
        for (int i = 0; i < N; ++i) if (h[i].path == p) return true;
        return false;
    }

    void on_disk(int p, const char* when) {
        const std::string d = disk(name[p]);
        if (d != (exists[p] ? content[p] : "<missing>")) bad("content", std::string(when) + ": disk has " + vis(d) + ", written was " + vis(content[p]));
        count("files compared on disk");
    }

    void dropped(int i) {
        if (h[i].path >= 0) { const int p = h[i].path; h[i].path = -1; --alive; on_disk(p, "after the stream was closed"); }
    }

    void check_counts() {
        if (g_open->size() != alive) bad("streams", sf("%zu streams open, %zu File(s) hold one", g_open->size(), alive));
        if (descriptors() != fds + alive) bad("descriptors", sf("%zu more descriptors open, %zu File(s) hold one", descriptors() - fds, alive));
    }

    void open(int i) {
        int p = static_cast<int>(r.below(P));
        if (busy(p)) return;
        static const char* modes[] = {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "rb+", "wb+", "ab+", "r+b", "w+b", "a+b"};
        const char* m = modes[r.below(15)];
        g_ops += sf(" open(%d,%d,%s)", i, p, m);
        const bool was = exists[p];
        Maybe<File> mf = r.chance(50) ? File::open(name[p].c_str(), m) : File::open(mk(name[p]), m);
        const bool want = m[0] != 'r' || was;
        if (static_cast<bool>(mf) != want) { bad("open", sf("mode %s of %s file", m, was ? "an existing" : "a missing")); return; }
        if (!want) { check_counts(); return; }
        // the Maybe may be moved around before the File is taken out
        const unsigned how = static_cast<unsigned>(r.below(3));
        std::unique_ptr<File> nf;
        if (how == 0) nf.reset(new File(mf.move()));
        else if (how == 1) { Maybe<File> m2(efp::move(mf)); nf.reset(new File(m2.move())); }
        else { File tmp(mf.move()); nf.reset(new File(efp::move(tmp))); expect_dead(tmp, "moved from"); }
        ++alive;
        Handle& x = h[i];
        if (x.f && r.chance(50)) {
            // assigned over an older File, which closes its stream
            g_ops += "=";
            *x.f = efp::move(*nf);
            if (x.path >= 0) { const int q = x.path; x.path = -1; --alive; on_disk(q, "after assignment over the File"); }
            expect_dead(*nf, "moved from");
        } else {
            x.f = std::move(nf);
            dropped(i);
        }
        x.path = p;
        x.rd = m[0] == 'r' || std::strchr(m, '+');
        x.wr = m[0] != 'r' || std::strchr(m, '+');
        x.app = m[0] == 'a';
        x.bin = std::strchr(m, 'b') != nullptr;
        x.pos = 0;
        x.last = 0;
        x.known = !x.app;
        exists[p] = true;
        if (m[0] == 'w') content[p].clear();
        check_counts();
    }

    void step() {
        const int i = static_cast<int>(r.below(N));
        Handle& x = h[i];
        if (!x.f || (x.path < 0 && r.chance(80))) { open(i); return; }
        if (x.path < 0) { expect_dead(*x.f, "closed"); return; }
        std::string& c = content[x.path];
        switch (r.below(14)) {
        case 0: open(i); return;
        case 1: case 2: case 3: case 4: {
            if (x.rd && x.wr && x.last == 1) seek(i, x.known ? x.pos : 0);   // the stream wants this between reading and writing
            const unsigned form = static_cast<unsigned>(r.below(3));
            const std::string s = bytes(r, form == 0);
            g_ops += sf(" write%u(%d,%zu)", form, i, s.size());
            bool ok;
            if (form == 0) ok = x.f->write(s.c_str());
            else if (form == 1) { std::vector<char> b(s.begin(), s.end()); b.shrink_to_fit(); ok = x.f->write(b.data(), b.size()); }
            else ok = x.f->write(mk(s));
            if (!x.wr) {
                if (ok && !s.empty()) bad("write:read-only", "write to a stream open for reading succeeded");
                x.last = 2;
                x.known = false;   // stream error: position no longer compared until the next seek
                return;
            }
            if (!ok) { bad("write", "refused"); return; }
            if (s.empty()) return;
            if (x.app) { x.pos = c.size(); x.known = true; }
            if (c.size() < x.pos) c.resize(x.pos, '\0');
            c.replace(x.pos, std::min(s.size(), c.size() - x.pos), s);
            x.pos += s.size();
            x.last = 2;
            count("bytes written", s.size());
            return;
        }
        case 5: case 6: case 7: {
            if (!x.rd) {
                g_ops += sf(" read_line(%d)!", i);
                if (x.f->read_line()) bad("read:write-only", "a line was read from a stream open for writing");
                return;
            }
            if (x.wr && x.last == 2) seek(i, r.below(c.size() + 3));
            if (!x.known) seek(i, 0);
            g_ops += sf(" read_line(%d)", i);
            const Maybe<String> l = x.f->read_line();
            x.last = 1;
            line(x, c, l);
            return;
        }
        case 8: {
            if (!x.rd) return;
            if (x.wr && x.last == 2) seek(i, r.below(c.size() + 3));
            if (!x.known) seek(i, 0);
            g_ops += sf(" read_lines(%d)", i);
            const efp::Vector<String> ls = x.f->read_lines();
            x.last = 1;
            std::vector<std::string> want;
            while (x.pos < c.size()) {
                size_t e = c.find('\n', x.pos);
                want.push_back(c.substr(x.pos, (e == std::string::npos ? c.size() : e) - x.pos));
                x.pos = e == std::string::npos ? c.size() : e + 1;
            }
            if (ls.size() != want.size()) bad("read_lines", sf("%zu lines instead of %zu", ls.size(), want.size()));
            else
                for (size_t k = 0; k < want.size(); ++k)
                    if (from(ls[k]) != want[k]) { bad("read_lines", sf("line %zu is ", k) + vis(from(ls[k])) + " instead of " + vis(want[k])); break; }
            count("lines read", want.size());
            return;
        }
        case 9: {
            const unsigned k = static_cast<unsigned>(r.below(10));
            if (k == 0) {
                g_ops += sf(" seek(%d,-5)", i);
                if (x.f->seek(-5)) bad("seek", "to a negative offset succeeded");
                seek(i, 0);
            } else seek(i, k < 8 ? r.below(c.size() + 1) : c.size() + r.below(5000));
            return;
        }
        case 10: {
            if (!x.known) return;
            g_ops += sf(" tell(%d)", i);
            const long long t = static_cast<long long>(x.f->tell());
            if (t != static_cast<long long>(x.pos)) bad("tell", sf("%lld instead of %zu", t, x.pos));
            count("positions compared");
            return;
        }
        case 11: {
            if (x.last == 1) seek(i, x.known ? x.pos : 0);
            if (!x.wr && x.last == 2) seek(i, 0);
            g_ops += sf(" flush(%d)", i);
            if (x.f->flush() != 0) bad("flush", "refused");
            x.last = 0;
            if (x.wr) on_disk(x.path, "after flush");
            return;
        }
        case 12: {
            // ownership
            const unsigned how = static_cast<unsigned>(r.below(5));
            g_ops += sf(" own%u(%d)", how, i);
            if (how == 0) {
                std::unique_ptr<File> n(new File(efp::move(*x.f)));
                expect_dead(*x.f, "moved from");
                if (r.chance(50)) x.f = std::move(n);                         // the dead one is dropped
                else { *x.f = efp::move(*n); expect_dead(*n, "moved from"); } // and revived
            } else if (how == 1) {
                File& self = *x.f;
                *x.f = efp::move(self);                                       // nothing happens
            } else if (how == 2) {
                const int j = static_cast<int>(r.below(N));
                if (j == i || !h[j].f) return;
                *h[j].f = efp::move(*x.f);
                const int p = h[j].path;
                if (p >= 0) { h[j].path = -1; --alive; on_disk(p, "after assignment over the File"); }
                h[j].path = x.path; h[j].rd = x.rd; h[j].wr = x.wr; h[j].app = x.app; h[j].bin = x.bin; h[j].pos = x.pos; h[j].last = x.last; h[j].known = x.known;
                x.path = -1;
                expect_dead(*x.f, "moved from");
            } else if (how == 3) {
                // through containers of Files
                efp::Vector<File> v;
                v.push_back(efp::move(*x.f));
                v.reserve(20);
                expect_dead(*x.f, "moved from");
                x.f.reset(new File(efp::move(v[0])));
            } else {
                efp::Enum<int, File> e(efp::move(*x.f));
                efp::Enum<int, File> e2(efp::move(e));
                x.f.reset(new File(e2.move<File>()));
            }
            check_counts();
            return;
        }
        default: {
            const bool drop = r.chance(50);
            g_ops += sf(" %s(%d)", drop ? "drop" : "close", i);
            if (drop) x.f.reset();
            else if (!x.f->close()) bad("close", "reported failure");
            dropped(i);
            if (!drop) expect_dead(*x.f, "closed");
            check_counts();
        }
        }
    }

    void line(Handle& x, const std::string& c, const Maybe<String>& l) {
        if (x.pos >= c.size()) {
            if (l) bad("read_line", "a line " + vis(from(l.value())) + " at the end of the file");
            return;
        }
        const size_t e = c.find('\n', x.pos);
        const std::string want = c.substr(x.pos, (e == std::string::npos ? c.size() : e) - x.pos);
        x.pos = e == std::string::npos ? c.size() : e + 1;
        if (!l) bad("read_line", "nothing instead of " + vis(want));
        else if (from(l.value()) != want) bad("read_line", vis(from(l.value())) + " instead of " + vis(want));
        count("lines read");
    }

    void seek(int i, size_t to) {
        g_ops += sf(" seek(%d,%zu)", i, to);
        if (!h[i].f->seek(static_cast<long>(to))) bad("seek", sf("to %zu refused", to));
        h[i].pos = to;
        h[i].last = 0;
        h[i].known = true;
    }

    void run() {
        for (size_t n = 5 + r.below(70); n > 0; --n) step();
        for (int i = 0; i < N; ++i) { h[i].f.reset(); dropped(i); }
        check_counts();
        for (int i = 0; i < P; ++i) { on_disk(i, "end"); ::unlink(name[i].c_str()); }
    }
};

// ---------------------------------------------------------------- what cannot be opened
static void unopenable() {
    begin_case("open failures");
    const size_t fds = descriptors();
    put(g_dir + "/plain", "x");
    const std::string paths[] = {g_dir + "/missing", g_dir + "/no/such/dir", g_dir + "/plain/below", g_dir, "", std::string(5000, 'n'), g_dir + "/plain"};
    const char* modes[] = {"r", "w", "a", "w", "r", "w", "q"};
    for (int k = 0; k < 7; ++k) {
        if (File::open(paths[k].c_str(), modes[k])) bad("open:impossible", paths[k]);
        if (File::open(mk(paths[k]), modes[k])) bad("open:impossible", paths[k]);
        count("failing opens");
    }
    if (descriptors() != fds || !g_open->empty()) bad("descriptors", "a failed open left a descriptor");
    // out of descriptors
    rlimit old, low;
    ::getrlimit(RLIMIT_NOFILE, &old);
    low = old;
    low.rlim_cur = fds + 8;
    ::setrlimit(RLIMIT_NOFILE, &low);
    {
        std::vector<std::unique_ptr<File>> held;
        int refused = 0;
        for (int k = 0; k < 30; ++k) {
            Maybe<File> f = File::open((g_dir + "/plain").c_str(), "r");
            if (f) held.push_back(std::unique_ptr<File>(new File(f.move())));
            else ++refused;
        }
        if (!refused) harness_error("descriptor limit has no effect");
        for (size_t k = 0; k < held.size(); ++k) { const Maybe<String> l = held[k]->read_line(); if (!l || from(l.value()) != "x") bad("read_line", "near the descriptor limit"); }
        count("opens refused for lack of descriptors", static_cast<uint64_t>(refused));
    }
    ::setrlimit(RLIMIT_NOFILE, &old);
    if (descriptors() != fds || !g_open->empty()) bad("descriptors", "left open at the limit");
    ::unlink((g_dir + "/plain").c_str());
}

// ---------------------------------------------------------------- devices that refuse
// At least one of the operations from the refused write on has to say so; none before may.
static void refusing(Rng& r) {
    const char* modes[] = {"w", "wb", "w+", "a", "ab"};
    const char* m = modes[r.below(5)];
    g_ops = sf(" open(/dev/full,%s)", m);
    begin_case("device full");
    Maybe<File> mf = File::open("/dev/full", m);
    if (!mf) harness_error("/dev/full");
    File f(mf.move());
    size_t total = 0, unflushed = 0;
    bool told = false, told_now = false;
    for (size_t k = r.below(6); k > 0; --k) {
        const std::string s = bytes(r, true);
        if (r.chance(75)) {
            const bool ok = r.chance(50) ? f.write(s.c_str()) : f.write(mk(s));
            g_ops += sf(" write(%zu)=%d", s.size(), ok);
            if (!ok && s.empty() && total == 0) bad("refused:early", "an empty write failed");
            total += s.size();
            unflushed += s.size();
            if (!ok) { told = told_now = true; }
            else if (s.size() >= 65536) bad("refused:silent", "a write much larger than the buffer succeeded on a full device");
        } else {
            const bool ok = f.flush() == 0;
            g_ops += sf(" flush=%d", ok);
            if (ok && unflushed && !told_now) bad("refused:flush", sf("%zu bytes were lost and flush reported success", unflushed));
            if (!ok && total == 0) bad("refused:early", "a flush of nothing failed");
            if (!ok) told = true;
            unflushed = 0;
            told_now = false;
        }
    }
    if (r.chance(25)) {
        const std::string big(200000, 'q');
        const bool ok = r.chance(50) ? f.write(big.data(), big.size()) : f.write(mk(big));
        total += big.size();
        if (ok) bad("refused:silent", "a write much larger than the buffer succeeded on a full device");
        else told = true;
    }
    const bool ok = f.close();
    g_ops += sf(" close=%d", ok);
    if (!ok) told = true;
    if (total && !told) bad("refused:silent", sf("%zu bytes were lost and every operation reported success", total));
    if (!total && told) bad("refused:early", "a failure was reported although nothing was written");
    expect_dead(f, "closed");
    count("refusing devices");
    seen(mix(std::hash<std::string>()(g_ops), 5));
}

// a file size limit: the refusal comes in the middle of a history
static void limited(Rng& r) {
    begin_case("file size limit");
    const std::string path = g_dir + "/limited";
    ::unlink(path.c_str());
    rlimit old, low;
    ::getrlimit(RLIMIT_FSIZE, &old);
    low = old;
    low.rlim_cur = 1000 + r.below(20000);
    const char* modes[] = {"w", "wb", "a", "w+b"};
    const char* m = modes[r.below(4)];
    g_ops = sf(" limit %zu mode %s", static_cast<size_t>(low.rlim_cur), m);
    Maybe<File> mf = File::open(path.c_str(), m);
    if (!mf) harness_error("limited");
    File f(mf.move());
    bool told = false;
    std::string all;
    ::setrlimit(RLIMIT_FSIZE, &low);
    for (size_t k = 1 + r.below(8); k > 0; --k) {
        const std::string s = bytes(r, true);
        const bool ok = f.write(s.c_str());
        g_ops += sf(" write(%zu)=%d", s.size(), ok);
        all += s;
        if (!ok) { told = true; if (all.size() <= low.rlim_cur) bad("refused:early", "write failed below the limit"); break; }
        if (r.chance(20)) {
            const bool fo = f.flush() == 0;
            g_ops += sf(" flush=%d", fo);
            if (!fo) { told = true; break; }
            if (all.size() > low.rlim_cur) bad("refused:flush", "flush reported success beyond the limit");
        }
    }
    const bool ok = f.close();
    ::setrlimit(RLIMIT_FSIZE, &old);
    g_ops += sf(" close=%d", ok);
    const std::string d = disk(path);
    if (!ok) told = true;
    if (all.size() > low.rlim_cur && !told) bad("refused:silent", sf("%zu of %zu bytes reached the disk and every operation reported success", d.size(), all.size()));
    if (all.size() <= low.rlim_cur) {
        if (told) bad("refused:early", "a failure was reported below the limit");
        if (d != all) bad("content", "below the limit");
    } else if (all.compare(0, d.size(), d) != 0) bad("content", "what reached the disk is not a prefix of what was written");
    ::unlink(path.c_str());
    count("size-limited files");
    seen(mix(std::hash<std::string>()(g_ops), 6));
}

// positions beyond 2 GiB
static void far_positions(Rng& r) {
    begin_case("far positions");
    const std::string path = g_dir + "/far";
    Maybe<File> mf = File::open(path.c_str(), "w+b");
    if (!mf) harness_error("far");
    File f(mf.move());
    for (int k = 0; k < 20; ++k) {
        const long to = static_cast<long>(r.next() % (1ull << (20 + r.below(22))));
        g_ops = sf(" seek(%ld)", to);
        if (!f.seek(to)) { bad("seek", "refused"); continue; }
        if (static_cast<long long>(f.tell()) != to) bad("tell", sf("%lld", static_cast<long long>(f.tell())));
    }
    f.close();
    ::unlink(path.c_str());
    count("far positions", 20);
}

int main(int argc, char** argv) {
    init(argc, argv);
    g_open = new std::set<FILE*>();
    ::signal(SIGXFSZ, SIG_IGN);
    const char* w = std::getenv("VERIF_WORK");
    if (!w) harness_error("VERIF_WORK is not set");
    g_dir = std::string(w) + sf("/files.%d", static_cast<int>(::getpid()));
    if (::mkdir(g_dir.c_str(), 0700) != 0) harness_error("mkdir");
    heap_install();
    if (wanted("history"))
        for (size_t t = 0; t < scaled(120); ++t) {
            begin_case(sf("history %zu", t));
            std::string().swap(g_ops);
            HeapScope heap;
            guarded("history", [&] { Hist h(mix(st().seed, t)); h.run(); });
            seen(std::hash<std::string>()(g_ops));
            if (t == 0) sample(g_ops);
            std::string().swap(g_ops);
            heap.stop();
            heap.expect_balanced("history");
        }
    Rng r(st().seed);
    guarded("open", [&] { unopenable(); });
    for (size_t t = 0; t < scaled(60); ++t) guarded("device", [&] { refusing(r); });
    for (size_t t = 0; t < scaled(60); ++t) guarded("limit", [&] { limited(r); });
    for (size_t t = 0; t < scaled(5); ++t) guarded("far", [&] { far_positions(r); });
    count("streams opened", g_opens);
    count("streams closed", g_closes);
    if (!g_open->empty()) violation("streams", "open at the end");
    ::rmdir(g_dir.c_str());
    return finish();
}

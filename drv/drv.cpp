// Script interpreter over the public libsrcml API, used by every check.
// Reads a script on stdin (see lib/vrun.py), prints one line per operation.
// It never judges: it only records what the library did, for the monitors.
#include <srcml.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <iostream>
#include <sstream>
#include <fstream>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <signal.h>
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include <libxml/relaxng.h>
#include <libxml/c14n.h>
#include <libxml/xmlsave.h>
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/xsltutils.h>
#include <libexslt/exslt.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#if __has_feature(thread_sanitizer)
#define HAVE_TSAN 1
#endif
#endif

// ---------------------------------------------------------------- schedule perturbation
// Legal but unlikely schedules: delays around lock operations, and spurious
// wake-ups of condition waits (POSIX and C++ allow them at any time).
static std::atomic<unsigned> inj_level{0};     // 0: off; n: one op in n is perturbed
static std::atomic<unsigned> inj_spurious{0};  // 0: off; n: one wait in n returns at once
static std::atomic<unsigned long> inj_delays{0}, inj_wakes{0}, inj_waits{0};
static std::atomic<unsigned long> inj_seed{1};
static unsigned rnd() {
    static thread_local unsigned long s = 0;
    if (!s) s = (inj_seed.fetch_add(0x9E3779B97F4A7C15ul) | 1);
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return (unsigned)(s >> 11);
}
static void perturb() {
    unsigned l = inj_level.load(std::memory_order_relaxed);
    if (!l || rnd() % l) return;
    ++inj_delays;
    unsigned k = rnd() % 8;
    if (k < 4) sched_yield();
    else { struct timespec t = {0, (long)(k < 7 ? 20000 : 300000)}; nanosleep(&t, 0); }
}
#if !defined(HAVE_TSAN)
extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*) =
        (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    ++inj_waits;
    unsigned l = inj_spurious.load(std::memory_order_relaxed);
    if (l && rnd() % l == 0) {
        ++inj_wakes;
        pthread_mutex_unlock(m);
        if (rnd() & 1) sched_yield();
        pthread_mutex_lock(m);
        return 0;
    }
    return real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    perturb();
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    perturb();
    return real(c);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static std::atomic<int (*)(pthread_mutex_t*)> real{nullptr};
    auto f = real.load();
    if (!f) { f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); real = f; }
    perturb();
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static std::atomic<int (*)(pthread_mutex_t*)> real{nullptr};
    auto f = real.load();
    if (!f) { f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); real = f; }
    int r = f(m);
    perturb();
    return r;
}
}
#endif

// ---------------------------------------------------------------- encoding
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static std::string dec(const char* p) {
    std::string r;
    for (; *p; ++p) {
        if (*p == '%' && p[1] && p[2]) { r += (char)(hexv(p[1]) * 16 + hexv(p[2])); p += 2; }
        else r += *p;
    }
    return r;
}
static std::string enc(const char* p, size_t n) {
    static const char* H = "0123456789ABCDEF";
    std::string r; r.reserve(n + n / 4 + 2);
    r += '\'';
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = p[i];
        if (c > 0x20 && c < 0x7f && c != '%') r += (char)c;
        else { r += '%'; r += H[c >> 4]; r += H[c & 15]; }
    }
    return r;
}
static std::string enc(const std::string& s) { return enc(s.data(), s.size()); }
static std::string encp(const char* s) { return s ? enc(s, strlen(s)) : std::string("~"); }

// ---------------------------------------------------------------- contexts
struct ReadIO {
    std::string data; size_t pos = 0; std::vector<size_t> chunks; size_t ci = 0;
    long fail = -1; int failret = -1; int closeret = 0; int closed = 0; int calls = 0; unsigned nap = 0;
    long after_close = 0; size_t biggest = 0;
};
struct WriteIO {
    std::string data; long fail = -1; int failret = -1; int closed = 0; int calls = 0; int closeret = 0; long after_close = 0;
    bool part = false; bool failing = false; unsigned nap = 0;
};
static void naptime(unsigned us) { if (us) { struct timespec t = {0, (long)us * 1000}; nanosleep(&t, 0); } }
static long next_chunk(ReadIO* io, size_t len) {
    ++io->calls;
    if (io->closed) ++io->after_close;
    naptime(io->nap);
    size_t n = len;
    if (!io->chunks.empty()) { n = io->chunks[io->ci++ % io->chunks.size()]; if (n > len) n = len; if (!n) n = 1; }
    if (n > io->data.size() - io->pos) n = io->data.size() - io->pos;
    if (io->fail >= 0 && io->pos + n > (size_t)io->fail) {
        if (io->pos >= (size_t)io->fail) return io->failret;
        n = io->fail - io->pos;
    }
    return (long)n;
}
static ssize_t src_read(void* c, void* b, size_t len) {
    ReadIO* io = (ReadIO*)c; long n = next_chunk(io, len);
    if (len > io->biggest) io->biggest = len;
    if (n > 0) { memcpy(b, io->data.data() + io->pos, n); io->pos += n; }
    return n;
}
static int xml_read(void* c, char* b, int len) {
    ReadIO* io = (ReadIO*)c; long n = next_chunk(io, len < 0 ? 0 : len);
    if (n > 0) { memcpy(b, io->data.data() + io->pos, n); io->pos += n; }
    return (int)n;
}
static int rd_close(void* c) { ReadIO* io = (ReadIO*)c; ++io->closed; return io->closeret; }
static int wr_write(void* c, const char* b, int len) {
    WriteIO* io = (WriteIO*)c; ++io->calls;
    if (io->closed) ++io->after_close;
    naptime(io->nap);
    if (io->fail >= 0 && io->data.size() + len > (size_t)io->fail) {
        if (io->part && !io->failing) io->data.append(b, io->fail - io->data.size());
        io->failing = true; return io->failret;
    }
    io->data.append(b, len);
    return len;
}
static int wr_close(void* c) { WriteIO* io = (WriteIO*)c; ++io->closed; return io->closeret; }

struct Ctx {
    srcml_archive* A[64] = {}; srcml_unit* U[256] = {}; bool own[256] = {}; srcml_transform_result* R[16] = {};
    std::string B[128]; char* M[64] = {}; size_t Msz[64] = {};
    size_t tmps = 0;
    std::vector<std::unique_ptr<ReadIO>> rio; std::map<int, ReadIO*> rslot;
    std::map<int, std::unique_ptr<WriteIO>> wio;
    std::map<int, FILE*> F; std::map<int, int> D;
    std::vector<void*> keep;
    std::vector<std::thread> feeders;
    std::string dir, out; bool quiet = false;
    Ctx* parent = nullptr; bool borrowed[64] = {}; std::mutex wm; std::condition_variable wc; int turn = 0;
    void emit(const std::string& s) { if (!quiet) { out += s; out += '\n'; } }
    void cleanup() {
        for (auto& r : R) if (r) { srcml_transform_free(r); r = 0; }
        for (int i = 0; i < 256; ++i) { if (U[i] && own[i]) srcml_unit_free(U[i]); U[i] = 0; own[i] = false; }
        for (int i = 0; i < 64; ++i) { if (A[i] && !borrowed[i]) srcml_archive_free(A[i]); A[i] = 0; borrowed[i] = false; }
        turn = 0;
        for (int i = 0; i < 64; ++i) { if (M[i]) srcml_memory_free(M[i]); M[i] = 0; Msz[i] = 0; }
        for (auto& t : feeders) t.join();
        feeders.clear();
        for (auto& f : F) fclose(f.second);
        F.clear();
        for (auto& d : D) close(d.second);
        D.clear();
        rio.clear(); rslot.clear(); wio.clear();
        for (auto p : keep) free(p);
        keep.clear();
        for (auto& b : B) std::string().swap(b);
    }
};
typedef std::vector<std::string> Args;
static std::string gdir;

struct Bad : std::runtime_error { Bad(const std::string& s) : std::runtime_error(s) {} };
static int slot(const std::string& s, char c, int lim) {
    if (s.empty() || s[0] != c) throw Bad("bad slot " + s);
    int i = atoi(s.c_str() + 1);
    if (i < 0 || i >= lim) throw Bad("bad slot " + s);
    return i;
}
static std::string blob(Ctx& c, const std::string& t) {   // 'text or bN or mN
    if (t.empty()) throw Bad("blob");
    if (t[0] == '\'') return dec(t.c_str() + 1);
    if (t[0] == 'b') return c.B[slot(t, 'b', 128)];
    if (t[0] == 'm') { int i = slot(t, 'm', 64); return c.M[i] ? std::string(c.M[i], c.Msz[i]) : std::string(); }
    throw Bad("blob " + t);
}
// argument conversion for directly bound functions
struct Tmp { std::vector<char*> mem; ~Tmp() { for (auto m : mem) { memset(m, '#', strlen(m)); free(m); } } };
template <class T> struct Conv;
template <> struct Conv<srcml_archive*> { static srcml_archive* get(Ctx& c, const std::string& t, Tmp&) { return t == "~" ? 0 : c.A[slot(t, 'a', 64)]; } };
template <> struct Conv<const srcml_archive*> { static const srcml_archive* get(Ctx& c, const std::string& t, Tmp& m) { return Conv<srcml_archive*>::get(c, t, m); } };
template <> struct Conv<srcml_unit*> { static srcml_unit* get(Ctx& c, const std::string& t, Tmp&) { return t == "~" ? 0 : c.U[slot(t, 'u', 256)]; } };
template <> struct Conv<const srcml_unit*> { static const srcml_unit* get(Ctx& c, const std::string& t, Tmp& m) { return Conv<srcml_unit*>::get(c, t, m); } };
template <> struct Conv<srcml_transform_result*> { static srcml_transform_result* get(Ctx& c, const std::string& t, Tmp&) { return t == "~" ? 0 : c.R[slot(t, 'r', 16)]; } };
template <> struct Conv<const char*> { static const char* get(Ctx& c, const std::string& t, Tmp& m) {
    if (t == "~") return 0;
    std::string s = blob(c, t); char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); m.mem.push_back(p); return p; } };
template <> struct Conv<size_t> { static size_t get(Ctx&, const std::string& t, Tmp&) { return (size_t)strtoll(t.c_str(), 0, 0); } };
template <> struct Conv<int> { static int get(Ctx&, const std::string& t, Tmp&) { return (int)strtoll(t.c_str(), 0, 0); } };
static std::string show(int v) { return std::to_string(v); }
static std::string show(size_t v) { return std::to_string((long long)v); }
static std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string show(const char* s) { return encp(s); }

typedef std::function<void(Ctx&, Args&)> Op;
static std::map<std::string, Op> ops;
template <class R> struct Show { template <class F, class... X> static std::string call(F f, X... x) { return show(f(x...)); } };
template <> struct Show<void> { template <class F, class... X> static std::string call(F f, X... x) { f(x...); return "."; } };
template <class R, class... P, size_t... I>
static void callit(R (*f)(P...), Ctx& c, Args& a, std::index_sequence<I...>) {
    if (a.size() != sizeof...(P) + 1) throw Bad("arity " + a[0]);
    Tmp t;
    c.emit(Show<R>::call(f, Conv<P>::get(c, a[I + 1], t)...));
}
template <class R, class... P> static void bindf(const char* name, R (*f)(P...)) {
    ops[name] = [f](Ctx& c, Args& a) { callit(f, c, a, std::index_sequence_for<P...>()); };
}
#define BIND(n) bindf(#n, srcml_##n)

static ReadIO* plan(Ctx& c, const std::string& data, const std::string& p) {
    std::unique_ptr<ReadIO> io(new ReadIO); io->data = data;
    std::stringstream ss(p); std::string kv;
    while (std::getline(ss, kv, ';')) {
        auto e = kv.find('='); if (e == std::string::npos) continue;
        std::string k = kv.substr(0, e), v = kv.substr(e + 1);
        if (k == "c") { std::stringstream cs(v); std::string x; while (std::getline(cs, x, ',')) io->chunks.push_back(strtoul(x.c_str(), 0, 10)); }
        else if (k == "fail") io->fail = atol(v.c_str());
        else if (k == "failret") io->failret = atoi(v.c_str());
        else if (k == "close") io->closeret = atoi(v.c_str());
        else if (k == "nap") io->nap = atoi(v.c_str());
        else if (k == "k") c.rslot[atoi(v.c_str())] = io.get();
    }
    c.rio.push_back(std::move(io));
    return c.rio.back().get();
}
static WriteIO* wplan(Ctx& c, int k, const std::string& p) {
    std::unique_ptr<WriteIO> io(new WriteIO);
    std::stringstream ss(p); std::string kv;
    while (std::getline(ss, kv, ';')) {
        auto e = kv.find('='); if (e == std::string::npos) continue;
        std::string kk = kv.substr(0, e), v = kv.substr(e + 1);
        if (kk == "fail") io->fail = atol(v.c_str());
        else if (kk == "failret") io->failret = atoi(v.c_str());
        else if (kk == "part") io->part = v == "1";
        else if (kk == "close") io->closeret = atoi(v.c_str());
        else if (kk == "nap") io->nap = atoi(v.c_str());
    }
    // an old one may still be in use by a live archive: keep it
    static std::mutex mx; static std::vector<std::unique_ptr<WriteIO>> graveyard;
    if (c.wio.count(k)) { std::lock_guard<std::mutex> l(mx); graveyard.push_back(std::move(c.wio[k])); if (graveyard.size() > 64) graveyard.erase(graveyard.begin()); }
    c.wio[k] = std::move(io);
    return c.wio[k].get();
}
static std::string path(Ctx& c, const std::string& t) {
    std::string n = blob(c, t);
    if (n.empty() || n[0] == '/') return n;
    return c.dir + "/" + n;
}
static void putfile(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb"); if (!f) throw Bad("putfile " + p);
    fwrite(d.data(), 1, d.size(), f); fclose(f);
}
static bool slurp(const std::string& p, std::string& d) {
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return false;
    char b[65536]; size_t n; d.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n);
    fclose(f); return true;
}
static void limits(int what, long n) {
    static std::map<int, rlim_t> soft;
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l; getrlimit((__rlimit_resource)what, &l);
    if (!soft.count(what)) soft[what] = l.rlim_cur;
    l.rlim_cur = n < 0 ? soft[what] : (rlim_t)n;
    setrlimit((__rlimit_resource)what, &l);
}
// descriptors that cannot do what is asked of them: a directory, one only for writing, one only for reading, a full device, a pipe nobody reads
static int badfd(Ctx& c, const std::string& k) {
    std::string f = c.dir + "/bad";
    int fd = -1;
    if (k == "dir") fd = open(c.dir.c_str(), O_RDONLY | O_CLOEXEC);
    else if (k == "wo") fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    else if (k == "ro") { putfile(f, "x"); fd = open(f.c_str(), O_RDONLY | O_CLOEXEC); }
    else if (k == "full") fd = open("/dev/full", O_RDWR | O_CLOEXEC);
    else if (k == "epipe") { int p[2]; signal(SIGPIPE, SIG_IGN); if (pipe2(p, O_CLOEXEC)) throw Bad("pipe"); close(p[0]); fd = p[1]; }
    if (fd < 0) throw Bad("badfd " + k);
    return fd;
}
static int feeder_fd(Ctx& c, const std::string& data, const std::string& pl) {
    int p[2]; if (pipe2(p, O_CLOEXEC)) throw Bad("pipe");
    ReadIO* io = plan(c, data, pl);
    int w = p[1];
    c.feeders.emplace_back([io, w] {
        std::string buf(1 << 16, 0);
        for (;;) {
            long n = next_chunk(io, buf.size()); if (n <= 0) break;
            ssize_t k = write(w, io->data.data() + io->pos, n); if (k <= 0) break;
            io->pos += k;
        }
        close(w);
    });
    return p[0];
}
static int uniq = 0;
// a descriptor number of its own: the library closes some of the descriptors it is given, and the driver's later close must not meet a number reused in another thread
static int highfd(int fd) { static std::atomic<unsigned> k{0}; if (fd < 0) return fd; int r = fcntl(fd, F_DUPFD_CLOEXEC, 300 + (int)(k++ % 600)); if (r < 0) return fd; close(fd); return r; }
// names of all kinds: the name of a file never matters
static std::string tmpname(Ctx& c) {
    static std::mutex m; std::lock_guard<std::mutex> l(m);
    static const char* const kinds[] = { "", "", "%41", " b", "\xc3\xa9", "#x", "?y=1", ".gz", "%", "+", "&a", "%2Fz", "'q", "\"r", ".xml.gz" };
    ++uniq;
    return c.dir + "/t" + std::to_string(uniq) + kinds[(c.tmps++ + 2) % (sizeof kinds / sizeof *kinds)];
}
static int count_fds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d); return n;
}
static int count_threads() {
    int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return -1;
    while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n;
    closedir(d); return n;
}

// ---------------------------------------------------------------- oracles (plain libxml2, no srcML)
static void silent(void*, const char*, ...) {}
static void nserr(void*, xmlErrorPtr) {}
static std::string nodestr(xmlDocPtr d, xmlNodePtr n) {
    xmlBufferPtr b = xmlBufferCreate();
    if (n->type == XML_ATTRIBUTE_NODE || n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) {
        xmlChar* s = xmlNodeGetContent(n); xmlBufferCat(b, s); xmlFree(s);
    } else xmlNodeDump(b, d, n, 0, 0);
    std::string r((const char*)xmlBufferContent(b), xmlBufferLength(b));
    xmlBufferFree(b); return r;
}

static void setup() {
    BIND(version_number); BIND(version_string); BIND(check_language); BIND(check_extension); BIND(get_language_list_size);
    BIND(get_language_list); BIND(check_encoding); BIND(check_xslt); BIND(check_exslt); BIND(error_string);
    BIND(set_src_encoding); BIND(set_xml_encoding); BIND(set_language); BIND(set_filename); BIND(set_url); BIND(set_version);
    BIND(set_timestamp); BIND(set_options); BIND(enable_option); BIND(disable_option); BIND(set_tabstop);
    BIND(register_file_extension); BIND(register_namespace); BIND(set_processing_instruction); BIND(set_eol);
    BIND(set_srcdiff_revision); BIND(get_src_encoding); BIND(get_xml_encoding); BIND(get_revision); BIND(get_language);
    BIND(get_filename); BIND(get_url); BIND(get_version); BIND(get_timestamp); BIND(get_hash); BIND(get_loc); BIND(get_eol);
    BIND(get_options); BIND(get_tabstop); BIND(get_processing_instruction_target); BIND(get_processing_instruction_data);
    BIND(get_namespace_size); BIND(get_namespace_prefix); BIND(get_prefix_from_uri); BIND(get_namespace_uri);
    BIND(get_uri_from_prefix); BIND(cleanup_globals); BIND(get_srcdiff_revision);
    BIND(archive_error_number); BIND(archive_error_string); BIND(archive_write_unit); BIND(archive_write_string);
    BIND(archive_close); BIND(archive_is_solitary_unit); BIND(archive_enable_solitary_unit); BIND(archive_disable_solitary_unit);
    BIND(archive_has_hash); BIND(archive_enable_hash); BIND(archive_disable_hash); BIND(archive_set_xml_encoding);
    BIND(archive_set_src_encoding); BIND(archive_set_language); BIND(archive_set_options); BIND(archive_enable_option);
    BIND(archive_disable_option); BIND(archive_set_tabstop); BIND(archive_register_file_extension);
    BIND(archive_register_namespace); BIND(archive_set_processing_instruction); BIND(archive_set_url); BIND(archive_set_version);
    BIND(archive_get_xml_encoding); BIND(archive_get_src_encoding); BIND(archive_get_revision); BIND(archive_get_language);
    BIND(archive_get_url); BIND(archive_get_version); BIND(archive_get_options); BIND(archive_get_tabstop);
    BIND(archive_get_namespace_size); BIND(archive_get_namespace_prefix); BIND(archive_get_prefix_from_uri);
    BIND(archive_get_namespace_uri); BIND(archive_get_uri_from_prefix); BIND(archive_get_processing_instruction_target);
    BIND(archive_get_processing_instruction_data); BIND(archive_check_extension); BIND(archive_skip_unit);
    BIND(append_transform_xpath); BIND(append_transform_xpath_attribute); BIND(append_transform_xpath_element);
    BIND(append_transform_param); BIND(append_transform_stringparam); BIND(transform_get_type); BIND(transform_get_unit_size);
    BIND(transform_get_string); BIND(transform_get_number); BIND(transform_get_bool); BIND(clear_transforms);
    BIND(unit_error_number); BIND(unit_error_string); BIND(unit_set_src_encoding); BIND(unit_set_language);
    BIND(unit_set_filename); BIND(unit_set_version); BIND(unit_set_timestamp); BIND(unit_set_eol); BIND(unit_get_src_encoding);
    BIND(unit_get_revision); BIND(unit_get_language); BIND(unit_get_filename); BIND(unit_get_version); BIND(unit_get_timestamp);
    BIND(unit_get_hash); BIND(unit_get_loc); BIND(unit_get_eol); BIND(unit_get_srcml); BIND(unit_get_srcml_outer);
    BIND(unit_get_srcml_inner); BIND(write_start_unit); BIND(write_end_unit); BIND(write_start_element); BIND(write_end_element);
    BIND(write_namespace); BIND(write_attribute); BIND(write_string); BIND(archive_get_srcdiff_revision);
    BIND(archive_set_srcdiff_revision);

    ops["acreate"] = [](Ctx& c, Args& a) { auto& s = c.A[slot(a[1], 'a', 64)]; if (s) throw Bad("slot in use"); s = srcml_archive_create(); c.emit(s ? "1" : "0"); };
    ops["aclone"] = [](Ctx& c, Args& a) { auto& s = c.A[slot(a[1], 'a', 64)]; if (s) throw Bad("slot in use"); s = srcml_archive_clone(a[2] == "~" ? 0 : c.A[slot(a[2], 'a', 64)]); c.emit(s ? "1" : "0"); };
    ops["afree"] = [](Ctx& c, Args& a) { if (a[1] == "~") srcml_archive_free(0); else { auto& s = c.A[slot(a[1], 'a', 64)]; srcml_archive_free(s); s = 0; } c.emit("."); };
    // in a thread: use an archive or unit of the main context; serialised writing (any order; in order)
    ops["borrow"] = [](Ctx& c, Args& a) { int i = slot(a[1], 'a', 64); c.A[i] = c.parent->A[i]; c.borrowed[i] = true; };
    ops["take"] = [](Ctx& c, Args& a) { int i = slot(a[1], 'u', 256); c.U[i] = c.parent->U[i]; c.own[i] = false; };
    ops["lwrite"] = [](Ctx& c, Args& a) { std::lock_guard<std::mutex> l(c.parent->wm); c.emit(show(srcml_archive_write_unit(c.A[slot(a[1], 'a', 64)], c.U[slot(a[2], 'u', 256)]))); };
    ops["owrite"] = [](Ctx& c, Args& a) {
        std::unique_lock<std::mutex> l(c.parent->wm); int k = atoi(a[3].c_str());
        c.parent->wc.wait(l, [&] { return c.parent->turn == k; });
        c.emit(show(srcml_archive_write_unit(c.A[slot(a[1], 'a', 64)], c.U[slot(a[2], 'u', 256)])));
        ++c.parent->turn; c.parent->wc.notify_all();
    };
    auto setu = [](Ctx& c, const std::string& t, srcml_unit* u, bool own) { int i = slot(t, 'u', 256); if (c.U[i] && c.own[i]) srcml_unit_free(c.U[i]); c.U[i] = u; c.own[i] = own && u; c.emit(u ? "1" : "0"); };
    ops["ucreate"] = [setu](Ctx& c, Args& a) { setu(c, a[1], srcml_unit_create(a[2] == "~" ? 0 : c.A[slot(a[2], 'a', 64)]), true); };
    ops["uclone"] = [setu](Ctx& c, Args& a) { setu(c, a[1], srcml_unit_clone(a[2] == "~" ? 0 : c.U[slot(a[2], 'u', 256)]), true); };
    ops["ufree"] = [](Ctx& c, Args& a) { if (a[1] == "~") srcml_unit_free(0); else { int i = slot(a[1], 'u', 256); if (c.own[i]) srcml_unit_free(c.U[i]); c.U[i] = 0; c.own[i] = false; } c.emit("."); };
    ops["read"] = [setu](Ctx& c, Args& a) { setu(c, a[1], srcml_archive_read_unit(a[2] == "~" ? 0 : c.A[slot(a[2], 'a', 64)]), true); };
    ops["tunit"] = [setu](Ctx& c, Args& a) { setu(c, a[1], srcml_transform_get_unit(a[2] == "~" ? 0 : c.R[slot(a[2], 'r', 16)], atoi(a[3].c_str())), false); };
    ops["apply"] = [](Ctx& c, Args& a) {
        srcml_transform_result** rp = a[3] == "~" ? 0 : &c.R[slot(a[3], 'r', 16)];
        if (rp && *rp) { srcml_transform_free(*rp); *rp = 0; }
        c.emit(show(srcml_unit_apply_transforms(a[1] == "~" ? 0 : c.A[slot(a[1], 'a', 64)], a[2] == "~" ? 0 : c.U[slot(a[2], 'u', 256)], rp))); };
    ops["tfree"] = [](Ctx& c, Args& a) { if (a[1] == "~") c.emit(show(srcml_transform_free(0))); else { auto& r = c.R[slot(a[1], 'r', 16)]; c.emit(show(srcml_transform_free(r))); r = 0; } };
    ops["wresult"] = [](Ctx& c, Args& a) {   // every unit of a result to an archive
        auto r = c.R[slot(a[2], 'r', 16)]; std::string o = "w";
        for (int i = 0; i < srcml_transform_get_unit_size(r); ++i) o += " " + show(srcml_archive_write_unit(c.A[slot(a[1], 'a', 64)], srcml_transform_get_unit(r, i)));
        c.emit(o); };
    ops["copyns"] = [](Ctx& c, Args& a) {   // namespaces of an archive registered with another
        auto to = c.A[slot(a[1], 'a', 64)], from = c.A[slot(a[2], 'a', 64)]; std::string o = "n";
        for (size_t i = 0; i < srcml_archive_get_namespace_size(from); ++i) o += " " + show(srcml_archive_register_namespace(to, srcml_archive_get_namespace_prefix(from, i), srcml_archive_get_namespace_uri(from, i)));
        c.emit(o); };
    ops["memfree"] = [](Ctx& c, Args& a) { if (a[1] == "~") srcml_memory_free(0); else { int i = slot(a[1], 'm', 64); srcml_memory_free(c.M[i]); c.M[i] = 0; c.Msz[i] = 0; } c.emit("."); };
    ops["mem"] = [](Ctx& c, Args& a) { int i = slot(a[1], 'm', 64); c.emit(c.M[i] ? enc(c.M[i], c.Msz[i]) : "~"); };
    ops["memsz"] = [](Ctx& c, Args& a) { int i = slot(a[1], 'm', 64); c.emit(std::to_string(c.Msz[i]) + " " + (c.M[i] ? std::to_string(strlen(c.M[i])) : "~")); };
    // the whole observable state of an archive, of a unit, of the global archive: one line
    ops["adump"] = [](Ctx& c, Args& a) {
        srcml_archive* A = c.A[slot(a[1], 'a', 64)]; std::string o = "A";
        auto s = [&](const char* n, const char* v) { o += std::string(" ") + n + "=" + encp(v); };
        auto n = [&](const char* k, long long v) { o += std::string(" ") + k + "=" + std::to_string(v); };
        s("xml", srcml_archive_get_xml_encoding(A)); s("src", srcml_archive_get_src_encoding(A)); s("rev", srcml_archive_get_revision(A));
        s("lang", srcml_archive_get_language(A)); s("url", srcml_archive_get_url(A)); s("ver", srcml_archive_get_version(A));
        n("opt", srcml_archive_get_options(A)); n("tab", srcml_archive_get_tabstop(A)); n("sol", srcml_archive_is_solitary_unit(A)); n("hash", srcml_archive_has_hash(A));
        n("sd", srcml_archive_get_srcdiff_revision(A)); s("pit", srcml_archive_get_processing_instruction_target(A)); s("pid", srcml_archive_get_processing_instruction_data(A));
        size_t k = srcml_archive_get_namespace_size(A); n("ns", k); std::string l;
        for (size_t i = 0; i < k && i < 100; ++i) l += encp(srcml_archive_get_namespace_prefix(A, i)) + "|" + encp(srcml_archive_get_namespace_uri(A, i)) + ",";
        o += " nsl=" + l; c.emit(o);
    };
    ops["udump"] = [](Ctx& c, Args& a) {
        srcml_unit* U = c.U[slot(a[1], 'u', 256)]; std::string o = "U";
        auto s = [&](const char* n, const char* v) { o += std::string(" ") + n + "=" + encp(v); };
        auto n = [&](const char* k, long long v) { o += std::string(" ") + k + "=" + std::to_string(v); };
        s("src", srcml_unit_get_src_encoding(U)); s("rev", srcml_unit_get_revision(U)); s("lang", srcml_unit_get_language(U)); s("file", srcml_unit_get_filename(U));
        s("ver", srcml_unit_get_version(U)); s("time", srcml_unit_get_timestamp(U)); s("hash", srcml_unit_get_hash(U)); n("loc", srcml_unit_get_loc(U)); n("eol", srcml_unit_get_eol(U));
        c.emit(o);
    };
    ops["gdump"] = [](Ctx& c, Args&) {
        std::string o = "G";
        auto s = [&](const char* n, const char* v) { o += std::string(" ") + n + "=" + encp(v); };
        auto n = [&](const char* k, long long v) { o += std::string(" ") + k + "=" + std::to_string(v); };
        s("xml", srcml_get_xml_encoding()); s("src", srcml_get_src_encoding()); s("rev", srcml_get_revision()); s("lang", srcml_get_language()); s("file", srcml_get_filename());
        s("url", srcml_get_url()); s("ver", srcml_get_version()); s("time", srcml_get_timestamp()); s("hash", srcml_get_hash()); n("eol", srcml_get_eol());
        n("opt", srcml_get_options()); n("tab", srcml_get_tabstop()); n("sd", srcml_get_srcdiff_revision()); s("pit", srcml_get_processing_instruction_target()); s("pid", srcml_get_processing_instruction_data());
        size_t k = srcml_get_namespace_size(); n("ns", k); std::string l;
        for (size_t i = 0; i < k && i < 100; ++i) l += encp(srcml_get_namespace_prefix(i)) + "|" + encp(srcml_get_namespace_uri(i)) + ",";
        o += " nsl=" + l; c.emit(o);
    };
    ops["src"] = [](Ctx& c, Args& a) { c.B[slot(a[1], 'b', 128)] = blob(c, a[2]); };
    ops["app"] = [](Ctx& c, Args& a) { c.B[slot(a[1], 'b', 128)] += blob(c, a[2]); };
    ops["rep"] = [](Ctx& c, Args& a) { std::string s = blob(c, a[3]); auto& d = c.B[slot(a[1], 'b', 128)]; for (long n = atol(a[2].c_str()); n > 0; --n) d += s; };
    ops["buf"] = [](Ctx& c, Args& a) { c.emit(enc(blob(c, a[1]))); };
    ops["cut"] = [](Ctx& c, Args& a) { auto& d = c.B[slot(a[1], 'b', 128)]; size_t n = atol(a[2].c_str()); if (n < d.size()) d.resize(n); };
    ops["put"] = [](Ctx& c, Args& a) { putfile(path(c, a[1]), blob(c, a[2])); };
    ops["slurp"] = [](Ctx& c, Args& a) { std::string d; bool ok = slurp(path(c, a[2]), d); c.B[slot(a[1], 'b', 128)] = d; c.emit(ok ? enc(d) : "~"); };
    ops["flushall"] = [](Ctx& c, Args&) { for (auto& f : c.F) fflush(f.second); };
    ops["rm"] = [](Ctx& c, Args& a) { std::string p = path(c, a[1]); if (p.compare(0, c.dir.size() + 1, c.dir + "/") == 0) unlink(p.c_str()); };
    // faults of the system: fsize N (file size limit, -1 none), nofile N (N more descriptors, -1 no limit)
    ops["fsize"] = [](Ctx&, Args& a) { limits(RLIMIT_FSIZE, atol(a[1].c_str())); };
    ops["nofile"] = [](Ctx&, Args& a) { long n = atol(a[1].c_str()); if (n >= 0) { int k = dup(0); if (k < 0) throw Bad("dup"); close(k); n += k; } limits(RLIMIT_NOFILE, n); };
    ops["mkdir"] = [](Ctx& c, Args& a) { mkdir(path(c, a[1]).c_str(), 0700); };
    ops["nap"] = [](Ctx&, Args& a) { naptime(atoi(a[1].c_str())); };
    ops["fds"] = [](Ctx& c, Args&) { c.emit(std::to_string(count_fds())); };
    ops["wdata"] = [](Ctx& c, Args& a) { auto it = c.wio.find(atoi(a[1].c_str())); if (it == c.wio.end()) { c.emit("~"); return; } auto& w = *it->second;
        c.emit(enc(w.data) + " closed=" + std::to_string(w.closed) + " calls=" + std::to_string(w.calls) + " failing=" + std::to_string(w.failing) + " after=" + std::to_string(w.after_close)); };
    ops["wsave"] = [](Ctx& c, Args& a) { auto it = c.wio.find(atoi(a[2].c_str())); c.B[slot(a[1], 'b', 128)] = it == c.wio.end() ? "" : it->second->data; };
    ops["rstat"] = [](Ctx& c, Args& a) { auto it = c.rslot.find(atoi(a[1].c_str())); if (it == c.rslot.end()) { c.emit("~"); return; } auto& w = *it->second;
        c.emit("pos=" + std::to_string(w.pos) + " closed=" + std::to_string(w.closed) + " after=" + std::to_string(w.after_close) + " calls=" + std::to_string(w.calls)); };
    ops["inject"] = [](Ctx&, Args& a) { inj_level = atoi(a[1].c_str()); inj_spurious = atoi(a[2].c_str()); if (a.size() > 3) inj_seed = strtoul(a[3].c_str(), 0, 10) * 2654435761u + 1; };
    ops["injstat"] = [](Ctx& c, Args&) { c.emit("delays=" + std::to_string(inj_delays) + " wakes=" + std::to_string(inj_wakes) + " waits=" + std::to_string(inj_waits)); };

    // parse uN KIND blob [plan]
    ops["parse"] = [](Ctx& c, Args& a) {
        srcml_unit* u = a[1] == "~" ? 0 : c.U[slot(a[1], 'u', 256)];
        const std::string& k = a[2];
        std::string pl = a.size() > 4 ? a[4] : "";
        int st = -99;
        if (k == "null") st = srcml_unit_parse_memory(u, 0, strtoul(a[3].c_str(), 0, 10));
        else if (k == "nullfile") st = srcml_unit_parse_filename(u, 0);
        else if (k == "nullFILE") st = srcml_unit_parse_FILE(u, 0);
        else if (k == "badfd") st = srcml_unit_parse_fd(u, atoi(a[3].c_str()));
        else if (k == "nullio") st = srcml_unit_parse_io(u, 0, 0, 0);
        else if (k == "name") st = srcml_unit_parse_filename(u, path(c, a[3]).c_str());
        else if (k == "xfd") { int fd = highfd(badfd(c, a[3])); st = srcml_unit_parse_fd(u, fd); close(fd); }
        else if (k == "xFILE") { FILE* fp = fdopen(badfd(c, a[3]), a[3] == "wo" ? "w" : "r"); st = srcml_unit_parse_FILE(u, fp); fclose(fp); }
        else {
            std::string d = blob(c, a[3]);
            if (k == "mem") {
                char* p = (char*)malloc(d.size() ? d.size() : 1); memcpy(p, d.data(), d.size());
                st = srcml_unit_parse_memory(u, p, d.size());
                memset(p, '#', d.size()); free(p);
            } else if (k == "file") {
                std::string f = tmpname(c); putfile(f, d); st = srcml_unit_parse_filename(u, f.c_str()); unlink(f.c_str());
            } else if (k == "FILE") {
                std::string f = tmpname(c); putfile(f, d); FILE* fp = fopen(f.c_str(), "rb");
                st = srcml_unit_parse_FILE(u, fp); fclose(fp); unlink(f.c_str());
            } else if (k == "fd") {
                std::string f = tmpname(c); putfile(f, d); int fd = highfd(open(f.c_str(), O_RDONLY | O_CLOEXEC));
                st = srcml_unit_parse_fd(u, fd); close(fd); unlink(f.c_str());
            } else if (k == "pipe") {
                int fd = highfd(feeder_fd(c, d, pl)); st = srcml_unit_parse_fd(u, fd); close(fd);
                c.feeders.back().join(); c.feeders.pop_back();
            } else if (k == "pipeFILE") {
                int fd = highfd(feeder_fd(c, d, pl)); FILE* fp = fdopen(fd, "rb"); st = srcml_unit_parse_FILE(u, fp); fclose(fp);
                c.feeders.back().join(); c.feeders.pop_back();
            } else if (k == "io") { ReadIO* io = plan(c, d, pl); st = srcml_unit_parse_io(u, io, src_read, rd_close);
                c.emit(show(st) + " closed=" + std::to_string(io->closed) + " pos=" + std::to_string(io->pos) + " after=" + std::to_string(io->after_close)); return;
            } else if (k == "ionc") { ReadIO* io = plan(c, d, pl); st = srcml_unit_parse_io(u, io, src_read, 0);
            } else throw Bad("parse kind " + k);
        }
        c.emit(show(st));
    };
    // ropen aN KIND blob [plan]
    ops["ropen"] = [](Ctx& c, Args& a) {
        srcml_archive* A = a[1] == "~" ? 0 : c.A[slot(a[1], 'a', 64)];
        const std::string& k = a[2]; std::string pl = a.size() > 4 ? a[4] : ""; int st = -99;
        if (k == "null") st = srcml_archive_read_open_memory(A, 0, strtoul(a[3].c_str(), 0, 10));
        else if (k == "nullfile") st = srcml_archive_read_open_filename(A, 0);
        else if (k == "nullFILE") st = srcml_archive_read_open_FILE(A, 0);
        else if (k == "badfd") st = srcml_archive_read_open_fd(A, atoi(a[3].c_str()));
        else if (k == "nullio") st = srcml_archive_read_open_io(A, 0, 0, 0);
        else if (k == "name") st = srcml_archive_read_open_filename(A, path(c, a[3]).c_str());
        else if (k == "xfd") { int fd = highfd(badfd(c, a[3])); c.D[1000 + (int)c.D.size()] = fd; st = srcml_archive_read_open_fd(A, fd); }
        else if (k == "xFILE") { FILE* fp = fdopen(badfd(c, a[3]), a[3] == "wo" ? "w" : "r"); c.F[1000 + (int)c.F.size()] = fp; st = srcml_archive_read_open_FILE(A, fp); }
        else {
            std::string d = blob(c, a[3]);
            if (k == "mem") { char* p = (char*)malloc(d.size() ? d.size() : 1); memcpy(p, d.data(), d.size()); c.keep.push_back(p); st = srcml_archive_read_open_memory(A, p, d.size()); }
            else if (k == "file") { std::string f = tmpname(c); putfile(f, d); st = srcml_archive_read_open_filename(A, f.c_str()); unlink(f.c_str()); }
            else if (k == "FILE") { std::string f = tmpname(c); putfile(f, d); FILE* fp = fopen(f.c_str(), "rb"); unlink(f.c_str()); c.F[1000 + (int)c.F.size()] = fp; st = srcml_archive_read_open_FILE(A, fp); }
            else if (k == "fd") { std::string f = tmpname(c); putfile(f, d); int fd = highfd(open(f.c_str(), O_RDONLY | O_CLOEXEC)); unlink(f.c_str()); c.D[1000 + (int)c.D.size()] = fd; st = srcml_archive_read_open_fd(A, fd); }
            else if (k == "pipe") { int fd = highfd(feeder_fd(c, d, pl)); c.D[1000 + (int)c.D.size()] = fd; st = srcml_archive_read_open_fd(A, fd); }
            else if (k == "io") { ReadIO* io = plan(c, d, pl); st = srcml_archive_read_open_io(A, io, xml_read, rd_close); }
            else if (k == "ionc") { ReadIO* io = plan(c, d, pl); st = srcml_archive_read_open_io(A, io, xml_read, 0); }
            else throw Bad("ropen kind " + k);
        }
        c.emit(show(st));
    };
    // wopen aN KIND dest [plan]
    ops["wopen"] = [](Ctx& c, Args& a) {
        srcml_archive* A = a[1] == "~" ? 0 : c.A[slot(a[1], 'a', 64)];
        const std::string& k = a[2]; std::string pl = a.size() > 4 ? a[4] : ""; int st = -99;
        if (k == "null") st = srcml_archive_write_open_memory(A, 0, 0);
        else if (k == "nullfile") st = srcml_archive_write_open_filename(A, 0);
        else if (k == "nullFILE") st = srcml_archive_write_open_FILE(A, 0);
        else if (k == "badfd") st = srcml_archive_write_open_fd(A, atoi(a[3].c_str()));
        else if (k == "nullio") st = srcml_archive_write_open_io(A, 0, 0, 0);
        else if (k == "mem") { int i = slot(a[3], 'm', 64); if (c.M[i]) { srcml_memory_free(c.M[i]); c.M[i] = 0; c.Msz[i] = 0; } st = srcml_archive_write_open_memory(A, &c.M[i], &c.Msz[i]); }
        else if (k == "xfd") { int fd = highfd(badfd(c, a[3])); c.D[(int)c.D.size()] = fd; st = srcml_archive_write_open_fd(A, fd); }
        else if (k == "xFILE") { FILE* fp = fdopen(badfd(c, a[3]), a[3] == "ro" || a[3] == "dir" ? "r" : "w"); c.F[(int)c.F.size()] = fp; st = srcml_archive_write_open_FILE(A, fp); }
        else if (k == "file") st = srcml_archive_write_open_filename(A, path(c, a[3]).c_str());
        else if (k == "FILE") { FILE* fp = fopen(path(c, a[3]).c_str(), "wb"); if (!fp) throw Bad("fopen"); c.F[(int)c.F.size()] = fp; st = srcml_archive_write_open_FILE(A, fp); }
        else if (k == "fd") { int fd = highfd(open(path(c, a[3]).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600)); if (fd < 0) throw Bad("open"); c.D[(int)c.D.size()] = fd; st = srcml_archive_write_open_fd(A, fd); }
        else if (k == "io") st = srcml_archive_write_open_io(A, wplan(c, atoi(a[3].c_str()), pl), wr_write, wr_close);
        else if (k == "ionc") st = srcml_archive_write_open_io(A, wplan(c, atoi(a[3].c_str()), pl), wr_write, 0);
        else throw Bad("wopen kind " + k);
        c.emit(show(st));
    };
    ops["unparse"] = [](Ctx& c, Args& a) {
        srcml_unit* u = a[1] == "~" ? 0 : c.U[slot(a[1], 'u', 256)];
        const std::string& k = a[2]; std::string pl = a.size() > 4 ? a[4] : ""; int st = -99;
        if (k == "null") st = srcml_unit_unparse_memory(u, 0, 0);
        else if (k == "nullfile") st = srcml_unit_unparse_filename(u, 0);
        else if (k == "nullFILE") st = srcml_unit_unparse_FILE(u, 0);
        else if (k == "badfd") st = srcml_unit_unparse_fd(u, atoi(a[3].c_str()));
        else if (k == "nullio") st = srcml_unit_unparse_io(u, 0, 0, 0);
        else if (k == "mem") { int i = slot(a[3], 'm', 64); if (c.M[i]) { srcml_memory_free(c.M[i]); c.M[i] = 0; c.Msz[i] = 0; } st = srcml_unit_unparse_memory(u, &c.M[i], &c.Msz[i]); }
        else if (k == "xfd") { int fd = highfd(badfd(c, a[3])); st = srcml_unit_unparse_fd(u, fd); close(fd); }
        else if (k == "xFILE") { FILE* fp = fdopen(badfd(c, a[3]), a[3] == "ro" || a[3] == "dir" ? "r" : "w"); st = srcml_unit_unparse_FILE(u, fp); fclose(fp); }
        else if (k == "file") st = srcml_unit_unparse_filename(u, path(c, a[3]).c_str());
        else if (k == "FILE") { FILE* fp = fopen(path(c, a[3]).c_str(), "wb"); if (!fp) throw Bad("fopen"); st = srcml_unit_unparse_FILE(u, fp); fclose(fp); }
        else if (k == "fd") { int fd = highfd(open(path(c, a[3]).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600)); if (fd < 0) throw Bad("open"); st = srcml_unit_unparse_fd(u, fd); close(fd); }
        else if (k == "io") st = srcml_unit_unparse_io(u, wplan(c, atoi(a[3].c_str()), pl), wr_write, wr_close);
        else if (k == "ionc") st = srcml_unit_unparse_io(u, wplan(c, atoi(a[3].c_str()), pl), wr_write, 0);
        else throw Bad("unparse kind " + k);
        c.emit(show(st));
    };
    // xslt aN KIND blob ; relaxng aN KIND blob
    auto tr = [](Ctx& c, Args& a, bool xslt) {
        srcml_archive* A = a[1] == "~" ? 0 : c.A[slot(a[1], 'a', 64)];
        const std::string& k = a[2]; int st = -99;
        if (k == "null") st = xslt ? srcml_append_transform_xslt_memory(A, 0, 5) : srcml_append_transform_relaxng_memory(A, 0, 5);
        else if (k == "nullfile") st = xslt ? srcml_append_transform_xslt_filename(A, 0) : srcml_append_transform_relaxng_filename(A, 0);
        else if (k == "nullFILE") st = xslt ? srcml_append_transform_xslt_FILE(A, 0) : srcml_append_transform_relaxng_FILE(A, 0);
        else if (k == "badfd") st = xslt ? srcml_append_transform_xslt_fd(A, -1) : srcml_append_transform_relaxng_fd(A, -1);
        else if (k == "name") st = xslt ? srcml_append_transform_xslt_filename(A, path(c, a[3]).c_str()) : srcml_append_transform_relaxng_filename(A, path(c, a[3]).c_str());
        else {
            std::string d = blob(c, a[3]); std::string f = tmpname(c);
            if (k == "mem") { char* p = (char*)malloc(d.size() ? d.size() : 1); memcpy(p, d.data(), d.size());
                st = xslt ? srcml_append_transform_xslt_memory(A, p, d.size()) : srcml_append_transform_relaxng_memory(A, p, d.size()); memset(p, '#', d.size()); free(p); }
            else if (k == "file") { putfile(f, d); st = xslt ? srcml_append_transform_xslt_filename(A, f.c_str()) : srcml_append_transform_relaxng_filename(A, f.c_str()); unlink(f.c_str()); }
            else if (k == "FILE") { putfile(f, d); FILE* fp = fopen(f.c_str(), "rb"); st = xslt ? srcml_append_transform_xslt_FILE(A, fp) : srcml_append_transform_relaxng_FILE(A, fp); fclose(fp); unlink(f.c_str()); }
            else if (k == "fd") { putfile(f, d); int fd = highfd(open(f.c_str(), O_RDONLY | O_CLOEXEC)); st = xslt ? srcml_append_transform_xslt_fd(A, fd) : srcml_append_transform_relaxng_fd(A, fd); close(fd); unlink(f.c_str()); }
            else throw Bad("transform kind " + k);
        }
        c.emit(show(st));
    };
    ops["xslt"] = [tr](Ctx& c, Args& a) { tr(c, a, true); };
    ops["relaxng"] = [tr](Ctx& c, Args& a) { tr(c, a, false); };
    ops["srcml"] = [](Ctx& c, Args& a) { std::string i = a[1] == "~" ? "" : path(c, a[1]), o = a[2] == "~" ? "" : path(c, a[2]);
        c.emit(show(srcml(a[1] == "~" ? 0 : i.c_str(), a[2] == "~" ? 0 : o.c_str()))); };

    // oracle: ox_xpath blob 'expr [prefix uri]...  -> type then values
    ops["ox_xpath"] = [](Ctx& c, Args& a) {
        std::string d = blob(c, a[1]), e = dec(a[2].c_str() + 1);
        xmlDocPtr doc = xmlReadMemory(d.data(), (int)d.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
        if (!doc) { c.emit("unparsable"); return; }
        xmlXPathContextPtr x = xmlXPathNewContext(doc);
        x->error = nserr;
        for (size_t i = 3; i + 1 < a.size(); i += 2) xmlXPathRegisterNs(x, (const xmlChar*)dec(a[i].c_str() + 1).c_str(), (const xmlChar*)dec(a[i + 1].c_str() + 1).c_str());
        xmlXPathObjectPtr o = xmlXPathEvalExpression((const xmlChar*)e.c_str(), x);
        std::string r;
        if (!o) r = "invalid";
        else if (o->type == XPATH_NODESET) {
            r = "nodes " + std::to_string(o->nodesetval ? o->nodesetval->nodeNr : 0);
            for (int i = 0; o->nodesetval && i < o->nodesetval->nodeNr; ++i) {
                xmlNodePtr n = o->nodesetval->nodeTab[i];
                if (n->type == XML_NAMESPACE_DECL) { r += " ns"; continue; }
                r += " " + std::to_string((int)n->type) + ":" + enc(n->type == XML_ELEMENT_NODE || n->type == XML_ATTRIBUTE_NODE ? (const char*)n->name : "", n->type == XML_ELEMENT_NODE || n->type == XML_ATTRIBUTE_NODE ? strlen((const char*)n->name) : 0) + ":" + enc(nodestr(doc, n));
            }
        }
        else if (o->type == XPATH_BOOLEAN) r = std::string("bool ") + (o->boolval ? "1" : "0");
        else if (o->type == XPATH_NUMBER) r = "number " + show(o->floatval);
        else if (o->type == XPATH_STRING) r = "string " + encp((const char*)o->stringval);
        else r = "other";
        if (o) xmlXPathFreeObject(o);
        xmlXPathFreeContext(x); xmlFreeDoc(doc);
        c.emit(r);
    };
    ops["ox_xslt"] = [](Ctx& c, Args& a) {       // ox_xslt doc sheet [name value]... (values are XPath expressions)
        static std::once_flag once; std::call_once(once, [] { exsltRegisterAll(); });
        std::string d = blob(c, a[1]), s = blob(c, a[2]);
        xmlDocPtr doc = xmlReadMemory(d.data(), (int)d.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
        xmlDocPtr sd = xmlReadMemory(s.data(), (int)s.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
        xsltStylesheetPtr st = sd ? xsltParseStylesheetDoc(sd) : 0;
        if (!doc || !st) { c.emit("invalid"); if (doc) xmlFreeDoc(doc); if (st) xsltFreeStylesheet(st); else if (sd) xmlFreeDoc(sd); return; }
        std::vector<std::string> v; for (size_t i = 3; i < a.size(); ++i) v.push_back(dec(a[i].c_str() + 1));
        std::vector<const char*> p; for (auto& x : v) p.push_back(x.c_str()); p.push_back(0);
        xmlDocPtr r = xsltApplyStylesheet(st, doc, p.data());
        if (!r) c.emit("none");
        else {
            xmlChar* b = 0; int n = 0; xsltSaveResultToString(&b, &n, r, st);
            c.emit("doc " + enc(b ? (const char*)b : "", b ? n : 0) + " " + std::to_string(r->children ? (int)r->children->type : 0));
            if (b) xmlFree(b);
            xmlFreeDoc(r);
        }
        xsltFreeStylesheet(st); xmlFreeDoc(doc);
    };
    // oracle: ox_chain doc (x expr | s sheet n [name value]*n | r schema)...  -> final result; each step works on the canonical XML of the results of the step before
    ops["ox_chain"] = [](Ctx& c, Args& a) {
        static std::once_flag once; std::call_once(once, [] { exsltRegisterAll(); });
        const int PO = XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE;
        struct Item { char kind; std::string v, w; };
        std::vector<Item> items{{'E', blob(c, a[1]), ""}};
        std::string scalar;
        auto describe = [](xmlNodePtr n, std::vector<Item>& out) {
            auto str = [](xmlChar* p) { std::string r = p ? (const char*)p : ""; xmlFree(p); return r; };
            if (n->type == XML_DOCUMENT_NODE) n = xmlDocGetRootElement((xmlDocPtr)n);
            if (!n) return;
            if (n->type == XML_ELEMENT_NODE) {
                xmlOutputBufferPtr b = xmlAllocOutputBuffer(0);
                struct V { static int vis(void* d, xmlNodePtr k, xmlNodePtr parent) { for (xmlNodePtr p = k->type == XML_NAMESPACE_DECL ? parent : k; p; p = p->parent) if (p == d) return 1; return 0; } };
                // attribute and namespace nodes are visible with their element
                xmlC14NExecute(n->doc, V::vis, n, XML_C14N_1_0, 0, 1, b);
                xmlOutputBufferFlush(b);
                out.push_back({'E', std::string((const char*)xmlOutputBufferGetContent(b), xmlOutputBufferGetSize(b)), ""});
                xmlOutputBufferClose(b);
            }
            else if (n->type == XML_ATTRIBUTE_NODE) out.push_back({'A', str(xmlNodeGetContent(n)), (const char*)n->name});
            else if (n->type == XML_NAMESPACE_DECL) out.push_back({'N', (const char*)((xmlNsPtr)n)->href, ((xmlNsPtr)n)->prefix ? (const char*)((xmlNsPtr)n)->prefix : ""});
            else out.push_back({n->type == XML_COMMENT_NODE ? 'C' : n->type == XML_PI_NODE ? 'P' : 'T', str(xmlNodeGetContent(n)), n->name && n->type == XML_PI_NODE ? (const char*)n->name : ""});
        };
        for (size_t i = 2; i < a.size() && scalar.empty(); ) {
            std::string k = a[i++];
            std::vector<Item> next;
            std::string arg = k == "x" ? dec(a[i].c_str() + 1) : blob(c, a[i]); ++i;
            std::vector<std::string> v;
            if (k == "s") { size_t n = atoi(a[i++].c_str()); for (size_t j = 0; j < 2 * n; ++j) v.push_back(dec(a[i++].c_str() + 1)); }
            std::vector<const char*> pp; for (auto& x : v) pp.push_back(x.c_str()); pp.push_back(0);
            for (auto& it : items) {
                if (it.kind == 'A' || it.kind == 'N') continue;
                xmlDocPtr doc;
                if (it.kind == 'E') doc = xmlReadMemory(it.v.data(), (int)it.v.size(), 0, 0, PO);
                else {
                    doc = xmlNewDoc((const xmlChar*)"1.0");
                    xmlAddChild((xmlNodePtr)doc, it.kind == 'C' ? xmlNewDocComment(doc, (const xmlChar*)it.v.c_str()) : it.kind == 'P' ? xmlNewDocPI(doc, (const xmlChar*)it.w.c_str(), (const xmlChar*)it.v.c_str()) : xmlNewDocText(doc, (const xmlChar*)it.v.c_str()));
                }
                if (!doc) { c.emit("unparsable " + enc(it.v)); return; }
                if (k == "x") {
                    xmlXPathContextPtr x = xmlXPathNewContext(doc);
                    x->error = nserr;
                    const char* d[][2] = {{"src", "http://www.srcML.org/srcML/src"}, {"cpp", "http://www.srcML.org/srcML/cpp"}, {"err", "http://www.srcML.org/srcML/error"}, {"pos", "http://www.srcML.org/srcML/position"}, {"omp", "http://www.srcML.org/srcML/openmp"}};
                    for (auto& z : d) xmlXPathRegisterNs(x, (const xmlChar*)z[0], (const xmlChar*)z[1]);
                    xmlNodePtr root = xmlDocGetRootElement(doc);
                    for (xmlNsPtr n = root ? root->nsDef : 0; n; n = n->next) if (n->prefix) xmlXPathRegisterNs(x, n->prefix, n->href);
                    xmlXPathObjectPtr o = xmlXPathEvalExpression((const xmlChar*)arg.c_str(), x);
                    if (!o) { c.emit("invalid"); xmlXPathFreeContext(x); xmlFreeDoc(doc); return; }
                    if (o->type == XPATH_NODESET) {
                        if (o->nodesetval) xmlXPathNodeSetSort(o->nodesetval);
                        for (int j = 0; o->nodesetval && j < o->nodesetval->nodeNr; ++j) describe(o->nodesetval->nodeTab[j], next);
                    }
                    else if (o->type == XPATH_BOOLEAN) scalar = std::string("bool ") + (o->boolval ? "1" : "0");
                    else if (o->type == XPATH_NUMBER) scalar = "number " + show(o->floatval);
                    else scalar = "string " + encp((const char*)o->stringval);
                    xmlXPathFreeObject(o); xmlXPathFreeContext(x);
                } else if (k == "s") {
                    xmlDocPtr sd = xmlReadMemory(arg.data(), (int)arg.size(), 0, 0, PO & ~XML_PARSE_HUGE);
                    xsltStylesheetPtr st = sd ? xsltParseStylesheetDoc(sd) : 0;
                    if (!st) { c.emit("badsheet"); if (sd) xmlFreeDoc(sd); xmlFreeDoc(doc); return; }
                    xmlDocPtr r = xsltApplyStylesheet(st, doc, pp.data());
                    if (!r) { c.emit("invalid"); xsltFreeStylesheet(st); xmlFreeDoc(doc); return; }
                    std::string text; bool any = false, elements = false;
                    for (xmlNodePtr n = r->children; n; n = n->next) {
                        if (n->type == XML_ELEMENT_NODE) { describe(n, next); elements = true; }
                        else if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) { any = true; text += (const char*)n->content; }
                    }
                    if (!elements && any) scalar = "string " + enc(text);
                    xmlFreeDoc(r); xsltFreeStylesheet(st);
                } else {
                    xmlRelaxNGParserCtxtPtr pc = xmlRelaxNGNewMemParserCtxt(arg.data(), (int)arg.size());
                    xmlRelaxNGSetParserErrors(pc, silent, silent, 0);
                    xmlRelaxNGPtr g = xmlRelaxNGParse(pc);
                    if (!g) { c.emit("badsheet"); xmlRelaxNGFreeParserCtxt(pc); xmlFreeDoc(doc); return; }
                    xmlRelaxNGValidCtxtPtr vc = xmlRelaxNGNewValidCtxt(g);
                    xmlRelaxNGSetValidErrors(vc, silent, silent, 0);
                    if (xmlRelaxNGValidateDoc(vc, doc) == 0 && xmlDocGetRootElement(doc)) describe(xmlDocGetRootElement(doc), next);
                    xmlRelaxNGFreeValidCtxt(vc); xmlRelaxNGFree(g); xmlRelaxNGFreeParserCtxt(pc);
                }
                xmlFreeDoc(doc);
                if (!scalar.empty()) break;
            }
            items.swap(next);
            if (items.empty()) break;
        }
        if (!scalar.empty()) { c.emit(scalar); return; }
        std::string r = "units";
        for (auto& it : items) r += std::string(" ") + it.kind + ":" + enc(it.w) + ":" + enc(it.v);
        c.emit(r);
    };
    // oracle: ox_select doc expr  -> preorder positions (over elements and text nodes) of the selected nodes, 'o' for others
    ops["ox_select"] = [](Ctx& c, Args& a) {
        std::string d = blob(c, a[1]), e = dec(a[2].c_str() + 1);
        xmlDocPtr doc = xmlReadMemory(d.data(), (int)d.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
        if (!doc) { c.emit("unparsable"); return; }
        std::map<xmlNodePtr, int> at; int k = 0;
        std::function<void(xmlNodePtr)> walk = [&](xmlNodePtr n) { for (; n; n = n->next) { if (n->type == XML_ELEMENT_NODE || n->type == XML_TEXT_NODE) at[n] = k++; if (n->type == XML_ELEMENT_NODE) walk(n->children); } };
        walk(doc->children);
        xmlXPathContextPtr x = xmlXPathNewContext(doc);
        x->error = nserr;
        xmlXPathRegisterNs(x, (const xmlChar*)"src", (const xmlChar*)"http://www.srcML.org/srcML/src");
        xmlXPathRegisterNs(x, (const xmlChar*)"cpp", (const xmlChar*)"http://www.srcML.org/srcML/cpp");
        xmlXPathRegisterNs(x, (const xmlChar*)"pos", (const xmlChar*)"http://www.srcML.org/srcML/position");
        xmlXPathObjectPtr o = xmlXPathEvalExpression((const xmlChar*)e.c_str(), x);
        std::string r = "sel";
        if (!o) r = "invalid";
        else if (o->type != XPATH_NODESET) r = "scalar";
        else for (int j = 0; o->nodesetval && j < o->nodesetval->nodeNr; ++j) { auto it = at.find(o->nodesetval->nodeTab[j]); r += it == at.end() ? std::string(" o") : " " + std::to_string(it->second); }
        if (o) xmlXPathFreeObject(o);
        xmlXPathFreeContext(x); xmlFreeDoc(doc);
        c.emit(r);
    };
    ops["ox_rng"] = [](Ctx& c, Args& a) {
        std::string d = blob(c, a[1]), s = blob(c, a[2]);
        xmlDocPtr doc = xmlReadMemory(d.data(), (int)d.size(), 0, 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
        xmlRelaxNGParserCtxtPtr pc = xmlRelaxNGNewMemParserCtxt(s.data(), (int)s.size());
        xmlRelaxNGSetParserErrors(pc, silent, silent, 0);
        xmlRelaxNGPtr g = xmlRelaxNGParse(pc);
        if (!doc || !g) c.emit("invalid");
        else {
            xmlRelaxNGValidCtxtPtr v = xmlRelaxNGNewValidCtxt(g);
            xmlRelaxNGSetValidErrors(v, silent, silent, 0);
            c.emit(std::string("valid ") + (xmlRelaxNGValidateDoc(v, doc) == 0 ? "1" : "0"));
            xmlRelaxNGFreeValidCtxt(v);
        }
        if (g) xmlRelaxNGFree(g);
        xmlRelaxNGFreeParserCtxt(pc);
        if (doc) xmlFreeDoc(doc);
    };
}

// ---------------------------------------------------------------- running
static char cur_case[256];
static void on_alarm(int) {
    const char* m = "\n@hang "; (void)!write(2, m, strlen(m)); (void)!write(2, cur_case, strlen(cur_case)); (void)!write(2, "\n", 1);
    _exit(97);
}
static void on_term() {
    const char* m = "\n@terminate "; (void)!write(2, m, strlen(m));
    auto e = std::current_exception();
    if (e) { try { std::rethrow_exception(e); } catch (std::exception& x) { (void)!write(2, x.what(), strlen(x.what())); } catch (...) { (void)!write(2, "non-std exception", 17); } }
    (void)!write(2, "\n", 1);
#ifdef HAVE_ASAN
    __sanitizer_print_stack_trace();
#endif
    _exit(98);
}
static Args split(const std::string& l) { Args a; std::stringstream s(l); std::string t; while (s >> t) a.push_back(t); return a; }
static bool run_line(Ctx& c, const std::string& l) {
    Args a = split(l); if (a.empty() || a[0][0] == '#') return true;
    auto it = ops.find(a[0]);
    if (it == ops.end()) { fprintf(stderr, "@badop %s\n", l.c_str()); _exit(96); }
    size_t before = c.out.size();
    try { it->second(c, a); if (c.out.size() == before) c.emit("."); }
    catch (Bad& b) { fprintf(stderr, "@badop %s: %s\n", b.what(), l.substr(0, 200).c_str()); _exit(96); }
    catch (std::out_of_range& e) { c.emit(std::string("!exception ") + enc(e.what(), strlen(e.what()))); }
    catch (std::exception& e) { c.emit(std::string("!exception ") + enc(e.what(), strlen(e.what()))); }
    catch (...) { c.emit("!exception 'unknown"); }
    return true;
}
static void run_par(Ctx& c, const std::map<int, std::vector<std::string>>& th) {
    std::atomic<int> ready{0}; int n = (int)th.size();
    std::vector<std::thread> ts; std::map<int, std::unique_ptr<Ctx>> cs;
    for (auto& t : th) { cs[t.first].reset(new Ctx); cs[t.first]->dir = c.dir; cs[t.first]->quiet = c.quiet; cs[t.first]->parent = &c; }
    for (auto& t : th) {
        Ctx* x = cs[t.first].get(); const std::vector<std::string>* ls = &t.second;
        ts.emplace_back([x, ls, &ready, n] {
            ++ready; while (ready < n) sched_yield();
            for (auto& l : *ls) run_line(*x, l);
            x->cleanup();
        });
    }
    for (auto& t : ts) t.join();
    c.turn = 0;
    for (auto& x : cs) { c.emit("@thread " + std::to_string(x.first)); c.out += x.second->out; }
    c.emit("@endpar");
}
static void run_case(Ctx& c, const std::vector<std::string>& lines) {
    std::map<int, std::vector<std::string>> th; bool inpar = false;
    for (auto& l : lines) {
        if (l == "par") { inpar = true; th.clear(); continue; }
        if (l == "endpar") { inpar = false; run_par(c, th); continue; }
        if (inpar) { size_t b = l.find('|'); th[atoi(l.c_str())].push_back(l.substr(b + 1)); continue; }
        run_line(c, l);
    }
    c.cleanup();
}
int main(int argc, char** argv) {
    gdir = argc > 1 ? argv[1] : ".";
    std::set_terminate(on_term);
    signal(SIGALRM, on_alarm); signal(SIGPIPE, SIG_IGN);
    setup();
    std::ios::sync_with_stdio(false);
    std::string line; std::vector<std::string> lines; std::string name; bool leak = false; unsigned limit = 60;
    auto go = [&] {
        snprintf(cur_case, sizeof cur_case, "%s", name.c_str());
        printf("@case %s\n", name.c_str()); fflush(stdout);
        alarm(limit);
        Ctx c; c.dir = gdir;
        int t0 = count_threads();
        run_case(c, lines);
        fputs(c.out.c_str(), stdout);
        int f0 = count_fds();      // after a first run, which may open what stays open for the process
        if (leak) {
            c.out.clear(); c.quiet = true; long al[5] = {};
            for (int i = 0; i < 5; ++i) {
                run_case(c, lines); std::string().swap(c.out);
#ifdef HAVE_ASAN
                al[i] = (long)__sanitizer_get_current_allocated_bytes();
#endif
            }
            printf("@alloc %ld %ld %ld %ld\n", al[1] - al[0], al[2] - al[1], al[3] - al[2], al[4] - al[3]);
            printf("@fds %d\n", (count_fds() - f0) / 5);   // left open by every repetition
            printf("@threads %d\n", (count_threads() - t0) / 5);
        }
        alarm(0);
        printf("@end %s\n", name.c_str()); fflush(stdout);
        lines.clear();
    };
    while (std::getline(std::cin, line)) {
        if (line.compare(0, 5, "case ") == 0) {
            Args a = split(line); name = a[1]; leak = false; limit = 60;
            for (size_t i = 2; i < a.size(); ++i) { if (a[i] == "leak") leak = true; if (a[i].compare(0, 6, "limit=") == 0) limit = atoi(a[i].c_str() + 6); }
            lines.clear();
        } else if (line == "endcase") go();
        else lines.push_back(line);
    }
    printf("@done delays=%lu wakes=%lu waits=%lu\n", inj_delays.load(), inj_wakes.load(), inj_waits.load());
    fflush(stdout);
    xmlCleanupParser();
    _exit(0);
}

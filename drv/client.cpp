// The srcml command-line client of /repo/src/client with its CLI11-based option parser (not installed here) replaced
// by the one below, which fills in the same request; every other file of the client is the real one.
// Calls of the library made by the client are wrapped to record an event log (SRCML_EVENTS) and, with SRCML_NAP,
// locking and library calls are delayed at random.
#include <srcml_cli.hpp>
#include <srcml_options.hpp>
#include <src_prefix.hpp>
#include <SRCMLStatus.hpp>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <pthread.h>
#include <string>
#include <unistd.h>
#include <vector>

// ---- delays and events
static unsigned napseed = 0, naplevel = 0;
static int evfd = -1;
static std::atomic<int> nthreads(0), sequence(0);
static thread_local int tid = 0;
static thread_local unsigned state = 0;

__attribute__((constructor)) static void setup() {
    if (const char* s = getenv("SRCML_NAP")) {
        naplevel = atoi(s);
        if (const char* c = strchr(s, ','))
            napseed = atoi(c + 1);
    }
    if (const char* s = getenv("SRCML_EVENTS"))
        evfd = open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
}

static unsigned rnd() {
    if (!tid) {
        tid = ++nthreads;
        state = napseed * 2654435761u + tid * 40503u + 1;
    }
    state ^= state << 13;
    state ^= state >> 17;
    state ^= state << 5;
    return state;
}

extern "C" void verif_nap() {
    if (!naplevel)
        return;
    unsigned k = rnd() % 100;
    if (k < 10 * naplevel)
        sched_yield();
    else if (k < 13 * naplevel)
        usleep(rnd() % (200 * naplevel));
}

static void event(const char* what, const void* obj, const char* name, int rc) {
    if (evfd < 0)
        return;
    rnd();
    char b[4200];
    int n = snprintf(b, sizeof b, "%d\t%d\t%s\t%p\t%d\t%s\n", ++sequence, tid, what, obj, rc, name ? name : "");
    if (n > 0)
        if (write(evfd, b, n < (int)sizeof b ? n : sizeof b - 1) < 0) {}
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    verif_nap();
    return __real_pthread_mutex_lock(m);
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    verif_nap();
    return r;
}
int __real_srcml_unit_parse_memory(srcml_unit*, const char*, size_t);
int __wrap_srcml_unit_parse_memory(srcml_unit* u, const char* b, size_t n) {
    verif_nap();
    event("parse", u, srcml_unit_get_filename(u), 0);
    int r = __real_srcml_unit_parse_memory(u, b, n);
    event("parsed", u, srcml_unit_get_filename(u), r);
    verif_nap();
    return r;
}
int __real_srcml_unit_parse_filename(srcml_unit*, const char*);
int __wrap_srcml_unit_parse_filename(srcml_unit* u, const char* f) {
    verif_nap();
    event("parse", u, srcml_unit_get_filename(u), 0);
    int r = __real_srcml_unit_parse_filename(u, f);
    event("parsed", u, srcml_unit_get_filename(u), r);
    verif_nap();
    return r;
}
int __real_srcml_archive_write_unit(srcml_archive*, srcml_unit*);
int __wrap_srcml_archive_write_unit(srcml_archive* a, srcml_unit* u) {
    verif_nap();
    std::string name = u && srcml_unit_get_filename(u) ? srcml_unit_get_filename(u) : "";
    int r = __real_srcml_archive_write_unit(a, u);
    event("written", u, name.c_str(), r);
    verif_nap();
    return r;
}
void __real_srcml_archive_close(srcml_archive*);
void __wrap_srcml_archive_close(srcml_archive* a) {
    event("close", a, "", 0);
    __real_srcml_archive_close(a);
}
}

// ---- options
srcml_request_t parseCLI11(int argc, char* argv[]) {
    srcml_request_t q;
    q.markup_options = 0;
    q.max_threads = 4;
    q.tabs = 8;
    q.att_xml_encoding = std::string("UTF-8");
    int i = 1;
    bool inl = false;
    std::string inlined;
    static const char* SHORT[][2] = { {"-v", "--verbose"}, {"-q", "--quiet"}, {"-o", "--output"}, {"-j", "--jobs"}, {"-t", "--text"}, {"-l", "--language"}, {"-r", "--archive"},
        {"-X", "--output-srcml"}, {"-L", "--list"}, {"-i", "--info"}, {"-I", "--full-info"}, {"-f", "--filename"}, {"-s", "--src-version"}, {"-U", "--unit"}, {"-S", "--output-src"} };
    auto val = [&]() -> std::string {
        if (inl)
            return inlined;
        if (i + 1 >= argc) {
            fprintf(stderr, "missing value\n");
            exit(100);
        }
        return argv[++i];
    };
    for (; i < argc; ++i) {
        std::string a = argv[i];
        bool isopt = a.size() > 1 && a[0] == '-';
        inl = false;
        if (a.substr(0, 8) == "--xmlns:")
            a[7] = '=';
        auto eq = a.find('=');
        if (isopt && a[1] == '-' && eq != std::string::npos) {
            inl = true;
            inlined = a.substr(eq + 1);
            a = a.substr(0, eq);
        }
        for (auto& s : SHORT)
            if (isopt && a == s[0])
                a = s[1];
        if (isopt && a[1] != '-' && a.size() > 2)
            for (auto& s : SHORT)
                if (a.substr(0, 2) == s[0]) {
                    inl = true;
                    inlined = a.substr(2);
                    a = s[1];
                    break;
                }
        if (!isopt) {
            if (a == "-" || a == "stdin://-")
                q.stdindex = (int)q.input_sources.size();
            srcml_input_src in(a);
            if (in.extension == ".xsl")
                q.transformations.push_back(src_prefix_add_uri("xslt", in.filename));
            else if (in.extension == ".rng")
                q.transformations.push_back(src_prefix_add_uri("relaxng", in.filename));
            else
                q.input_sources.push_back(in);
        } else if (a == "--verbose") q.command |= SRCML_COMMAND_VERBOSE;
        else if (a == "--quiet") q.command |= SRCML_COMMAND_QUIET;
        else if (a == "--output") {
            q.output_filename = srcml_output_dest(val());
            if (q.output_filename.isdirectory || (q.output_filename.extension.empty() && q.output_filename.filename.back() == '/')) {
                q.command |= SRCML_COMMAND_TO_DIRECTORY;
                q.command |= SRCML_COMMAND_NOARCHIVE;
            }
        }
        else if (a == "--jobs") q.max_threads = atoi(val().c_str());
        else if (a == "--text") q.input_sources.push_back(src_prefix_add_uri("text", val()));
        else if (a == "--language") q.att_language = val();
        else if (a == "--files-from") { std::string v = val(); q.files_from.push_back(v); q.input_sources.push_back(src_prefix_add_uri("filelist", v)); }
        else if (a == "--register-ext") q.language_ext.push_back(val());
        else if (a == "--src-encoding") q.src_encoding = val();
        else if (a == "--archive") *q.markup_options |= SRCML_ARCHIVE;
        else if (a == "--output-srcml") q.command |= SRCML_COMMAND_XML;
        else if (a == "--output-srcml-outer") q.command |= SRCML_COMMAND_XML_FRAGMENT | SRCML_COMMAND_XML;
        else if (a == "--output-srcml-inner") q.command |= SRCML_COMMAND_XML_RAW | SRCML_COMMAND_XML;
        else if (a == "--position") *q.markup_options |= SRCML_OPTION_POSITION;
        else if (a == "--tabs") { q.tabs = atoi(val().c_str()); *q.markup_options |= SRCML_OPTION_POSITION; }
        else if (a == "--cpp") *q.markup_options |= SRCML_OPTION_CPP;
        else if (a == "--cpp-markup-if0") *q.markup_options |= SRCML_OPTION_CPP_MARKUP_IF0;
        else if (a == "--cpp-nomarkup-else") *q.markup_options |= SRCML_OPTION_CPP_TEXT_ELSE;
        else if (a == "--xml-encoding") q.att_xml_encoding = val();
        else if (a == "--no-xml-declaration") *q.markup_options |= SRCML_OPTION_NO_XML_DECL;
        else if (a == "--xmlns") {
            std::string v = val();
            auto d = v.find("=");
            std::string pre = d == std::string::npos ? "" : v.substr(0, d), uri = d == std::string::npos ? v : v.substr(d + 1);
            q.xmlns_namespaces[pre] = uri;
            q.xmlns_namespace_uris[uri] = pre;
        }
        else if (a == "--list") q.command |= SRCML_COMMAND_LIST;
        else if (a == "--info") q.command |= SRCML_COMMAND_INFO;
        else if (a == "--full-info") q.command |= SRCML_COMMAND_LONGINFO;
        else if (a == "--show-language") q.command |= SRCML_COMMAND_DISPLAY_SRCML_LANGUAGE;
        else if (a == "--show-url") q.command |= SRCML_COMMAND_DISPLAY_SRCML_URL;
        else if (a == "--show-filename") q.command |= SRCML_COMMAND_DISPLAY_SRCML_FILENAME;
        else if (a == "--show-src-version") q.command |= SRCML_COMMAND_DISPLAY_SRCML_SRC_VERSION;
        else if (a == "--show-timestamp") q.command |= SRCML_COMMAND_DISPLAY_SRCML_TIMESTAMP;
        else if (a == "--show-hash") q.command |= SRCML_COMMAND_DISPLAY_SRCML_HASH;
        else if (a == "--show-encoding") q.command |= SRCML_COMMAND_DISPLAY_SRCML_ENCODING;
        else if (a == "--show-unit-count") q.command |= SRCML_COMMAND_UNITS;
        else if (a == "--show-prefix") q.xmlns_prefix_query = val();
        else if (a == "--filename") q.att_filename = val();
        else if (a == "--url") q.att_url = val();
        else if (a == "--src-version") q.att_version = val();
        else if (a == "--hash") *q.markup_options |= SRCML_HASH;
        else if (a == "--timestamp") q.command |= SRCML_COMMAND_TIMESTAMP;
        else if (a == "--unit") q.unit = atoi(val().c_str());
        else if (a == "--eol") {
            std::string v = val();
            for (auto& ch : v) ch = tolower(ch);
            q.eol = v == "auto" ? SOURCE_OUTPUT_EOL_AUTO : v == "lf" || v == "unix" ? SOURCE_OUTPUT_EOL_LF : v == "cr" ? SOURCE_OUTPUT_EOL_CR : SOURCE_OUTPUT_EOL_CRLF;
        }
        else if (a == "--output-src") q.command |= SRCML_COMMAND_SRC;
        else if (a == "--to-dir") { q.output_filename = srcml_output_dest(val()); q.command |= SRCML_COMMAND_TO_DIRECTORY | SRCML_COMMAND_NOARCHIVE; }
        else if (a == "--xpath") { q.transformations.push_back(src_prefix_add_uri("xpath", val())); q.xpath_query_support.push_back(std::make_pair(boost::none, boost::none)); }
        else if (a == "--element") {
            std::string v = val();
            auto k = v.find(":");
            q.xpath_query_support.back().first = element{ v.substr(0, k), v.substr(k + 1) };
        }
        else if (a == "--attribute") {
            std::string v = val();
            auto k = v.find(":"), e = v.find("=");
            attribute t;
            t.prefix = v.substr(0, k);
            t.name = v.substr(k + 1, e - k - 1);
            t.value = v.substr(e + 1);
            q.xpath_query_support.back().second = t;
        }
        else if (a == "--xslt") q.transformations.push_back(src_prefix_add_uri("xslt", val()));
        else if (a == "--xslt-param") q.transformations.push_back(src_prefix_add_uri("xslt-param", val()));
        else if (a == "--relaxng") q.transformations.push_back(src_prefix_add_uri("relaxng", val()));
        else if (a == "--cat") q.command |= SRCML_COMMAND_CAT_XML;
        else if (a == "--revision") q.revision = (size_t)atoi(val().c_str());
        else if (a == "--pretty") q.pretty_format = val();
        else if (a == "--no-color") q.command |= SRCML_COMMAND_NO_COLOR;
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            exit(100);
        }
    }
    if (q.output_filename == "")
        q.output_filename = std::string("stdout://-");
    if (q.input_sources.empty()) {
        q.stdindex = 0;
        q.input_sources.push_back(srcml_input_src("stdin://-"));
    }
    if (q.input_sources.size() == 1 && q.input_sources[0].isdirectory) {
        auto url = q.input_sources[0].resource;
        while (url.length() > 0 && (url[0] == '.' || url[0] == '/'))
            url.erase(0, 1);
        q.att_url = url;
    }
    return q;
}

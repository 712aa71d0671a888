// Native run-time of the harness API: replays a verifier counterexample on
// the real compiled code, or samples inputs (bounded stand-in).
#include "yv.h"
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <chrono>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <malloc.h>
static sigjmp_buf env;
static std::vector<std::pair<std::string, std::string>> given, used;
static size_t gpos; static bool replaying;
static unsigned long long rs = 88172645463325252ull;
static std::string failLabel; static int status; // 1 discarded, 2 failed, 3 crashed
static std::set<std::string> covers;
static std::set<std::string> samples_h;
static unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static int szmode;
struct yv_stop { int s; };
void (*yv_child_fail)(const char*); // set in forked children.
extern "C" {
int yv_omp_threads = 1;
int yv_symbolic(void) { return 0; }
static int64_t draw(int64_t lo, int64_t hi) {
    unsigned __int128 n = (unsigned __int128)((__int128)hi - lo) + 1;
    unsigned k = rnd() >> 60;
    if (n > 40) {
        if (k == 0) return lo + (int64_t)(rnd() % 3);
        if (k == 1) return hi - (int64_t)(rnd() % 3);
        if (szmode == 0 || k < 9) { // small magnitude values near the low end / zero.
            int64_t span = k < 5 ? 9 : 41;
            int64_t b = lo > 0 ? lo : (hi < 0 ? hi - span : ((lo > -span) ? lo : -(int64_t)(rnd() % span)));
            int64_t v = b + (int64_t)(rnd() % (span));
            if (v < lo) v = lo; if (v > hi) v = hi;
            return v;
        }
    }
    return (int64_t)((__int128)lo + (__int128)((((unsigned __int128)rnd() << 64) | rnd()) % n));
}
int64_t yv_i64(const char* name, int64_t lo, int64_t hi) {
    int64_t v;
    if (replaying) {
        v = gpos < given.size() ? strtoll(given[gpos].second.c_str(), 0, 10) : lo; gpos++;
        if (v < lo) v = lo; if (v > hi) v = hi;
    } else v = draw(lo, hi);
    used.push_back({name, std::to_string((long long)v)});
    return v;
}
int yv_pick(const char* name, int n) {
    int v;
    if (replaying) { v = gpos < given.size() ? atoi(given[gpos].second.c_str()) : 0; gpos++; if (v < 0 || v >= n) v = 0; }
    else v = (int)(rnd() % (unsigned)n);
    used.push_back({name, std::to_string(v)});
    return v;
}
double yv_f64(const char* name) {
    double v;
    if (replaying) {
        std::string s = gpos < given.size() ? given[gpos].second : "0"; gpos++;
        v = atof(s.c_str());
    } else { v = (double)((int64_t)(rnd() % 2000) - 1000) / 8.0; if (rnd() % 4 == 0) v = (double)((int64_t)(rnd() % 7) - 3); }
    char b[64]; snprintf(b, 64, "%.17g", v);
    used.push_back({name, b});
    return v;
}
void yv_assume(int c) { if (!c) { status = 1; siglongjmp(env, 1); } }
void yv_assert(int c, const char* label) { if (!c) { status = 2; failLabel = std::string("assert: ") + label; siglongjmp(env, 1); } }
void yv_cover(const char* label) { covers.insert(label); }
int64_t yv_fresh(int64_t lo, int64_t) { return lo; }
double yv_fresh_f64(void) { return 0; }
void yv_contract(void*, void*) {}
void yv_contract_named(const char*, void*) {}
void yv_loop(const char*, int, int) {}
void yv_witness(int, int64_t) {}
int64_t yv_iter(int) { return -1; }
void yv_ghost(void*) {}
int64_t yv_concretize(int64_t v) { return v; }
void* yv_symbuf(const char*, int64_t n) { double* p = (double*)aligned_alloc(4096, ((size_t)n + 8191) / 4096 * 4096); for (int64_t i = 0; i < n / 8; i++) p[i] = (double)((i * 7919) % 1009) / 16.0; return p; }
int64_t yv_ptr_off(const void*) { return 0; }
int64_t yv_ptr_obj(const void*) { return 0; }
int yv_same(double a, double b) { double d = a - b; if (d < 0) d = -d; double m = a < 0 ? -a : a; double n = b < 0 ? -b : b; if (n > m) m = n; return d <= 1e-9 * (m + 1) || (a != a && b != b); }
void yv_msg(const char* s, int64_t v) { if (getenv("YV_MSG")) fprintf(stderr, "%s %lld\n", s, (long long)v); }
void __assert_fail(const char* a, const char* f, unsigned l, const char*) __THROW {
    status = 2; char b[400]; const char* s = strrchr(f, '/'); snprintf(b, 400, "code-assert: assert(%s) at %s:%u", a, s ? s + 1 : f, l); failLabel = b; if (yv_child_fail) yv_child_fail(b); siglongjmp(env, 1);
}
}
static void onsig(int s) { status = 3; failLabel = s == SIGALRM ? "no termination within 20 s" : "crash: signal " + std::to_string(s); siglongjmp(env, 1); }
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r + "\""; }
static int runOne(void (*h)(void)) {
    status = 0; used.clear(); gpos = 0; failLabel.clear(); yv_omp_threads = 1;
    if (!sigsetjmp(env, 1)) {
        alarm(20);
        try { h(); }
        catch (std::exception& e) { status = 2; failLabel = std::string("exception: no exception escapes the harness: ") + e.what(); }
        catch (...) { status = 2; failLabel = "exception: no exception escapes the harness"; }
    }
    alarm(0);
    return status;
}
int main(int argc, char** argv) {
    std::string entry, rep; long n = 0; double secs = 5; unsigned long seed = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--replay") rep = argv[++i];
        else if (a == "--random") n = atol(argv[++i]); else if (a == "--time") secs = atof(argv[++i]); else if (a == "--seed") seed = strtoul(argv[++i], 0, 10);
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    static char altst[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altst; ss.ss_size = sizeof altst; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM, SIGILL}) sigaction(s, &sa, 0);
    void (*h)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry.c_str());
    if (!h) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    if (rep.size()) {
        replaying = true; FILE* f = fopen(rep.c_str(), "r"); if (!f) return 2; char l[4096];
        while (fgets(l, 4096, f)) { std::string s = l; while (s.size() && (s.back() == '\n')) s.pop_back(); if (s.empty() || s[0] == '#') continue; auto p = s.find(' '); if (p == std::string::npos) continue; given.push_back({s.substr(0, p), s.substr(p + 1)}); }
        int r = runOne(h);
        printf("{\"status\":%d,\"label\":%s}\n", r, js(failLabel).c_str());
        return r >= 2 ? 1 : 0;
    }
    rs ^= seed * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 10; i++) rnd();
    auto t0 = std::chrono::steady_clock::now(); long done = 0, disc = 0; std::set<std::string> distinct; std::string sample; int bad = 0;
    std::string out;
    for (long i = 0; i < n; i++) {
        szmode = i % 3 == 2;
        int r = runOne(h);
        if (r == 1) { disc++; if (disc > 200 * (done + 50)) break; }
        else {
            done++;
            std::string key; for (auto& u : used) key += u.first + "=" + u.second + " ";
            if (distinct.size() < 300000) distinct.insert(key);
            if (sample.empty() || done == 3) sample = key.substr(0, 300);
        }
        if (r >= 2) { bad = r; break; }
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    printf("{\"entry\":%s,\"evaluations\":%ld,\"discarded\":%ld,\"distinct\":%zu,\"status\":%d,\"label\":%s,\"sample\":%s,\"covers\":[", js(entry).c_str(), done, disc, distinct.size(), bad, js(failLabel).c_str(), js(sample).c_str());
    bool f = true; for (auto& c : covers) { printf("%s%s", f ? "" : ",", js(c).c_str()); f = false; }
    printf("],\"inputs\":["); f = true;
    if (bad) for (auto& u : used) { printf("%s[%s,%s]", f ? "" : ",", js(u.first).c_str(), js(u.second).c_str()); f = false; }
    printf("]}\n");
    fflush(stdout);
    _exit(bad ? 1 : 0);
}

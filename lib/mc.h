// mc.h - a small stateless/explicit-state model checker for sequential C++ code.
//
// A harness defines  void mc_body(mc::Ctx& c)  which drives the real library.  Every nondeterministic decision
// (configuration, input pixel, next operation, environment answer) is taken with c.choose(n); the explorer runs the
// body once for every choice sequence (depth-first, odometer order), i.e. it enumerates the whole bounded space.
// c.shard() marks a prefix that can be handed to one of several worker processes.
// A worker that crashes, aborts under AddressSanitizer or hangs is turned into a violation of the execution it was
// running; every violation is replayed in a fresh process before it is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace mc {

constexpr int MAX_DEPTH = 1024;
constexpr int MAX_WORKERS = 64;
constexpr int MAX_KNOWN = 64;

struct Choice { uint32_t n, v; const char* label; };

// one per worker, in shared memory so that the parent can read it after a crash
struct Slot {
    std::atomic<uint64_t> execs, transitions, pruned, checks, heartbeat;
    std::atomic<uint32_t> len;      // choices taken so far in the current execution
    std::atomic<uint64_t> ticket;
    Choice path[MAX_DEPTH];
    std::atomic<int> violation;     // 1 = violation recorded in msg
    char msg[4096];
    char sig[256];
    std::atomic<uint64_t> known[MAX_KNOWN];
    std::atomic<int> maxdepth;
    Choice sample[MAX_DEPTH]; std::atomic<uint32_t> sample_len;   // an execution kept for the evidence
};

constexpr uint64_t TABLE = 1ull << 24;

struct Shared {
    std::atomic<uint64_t> next_ticket;
    std::atomic<int> stop;
    std::atomic<int> capped;
    std::atomic<uint64_t> distinct;
    std::atomic<int> table_full;
    Slot slot[MAX_WORKERS];
    std::atomic<uint64_t> table[TABLE];
};

struct Violation { };
struct Skip { };
struct Known { };
struct Diverged { std::string what; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

// ----- allocation balance (through the sanitizer's malloc hooks) -----
inline std::atomic<int64_t>& live_allocs() { static std::atomic<int64_t> v(0); return v; }
#if defined(__SANITIZE_ADDRESS__)
inline void hook_malloc(const volatile void*, size_t) { live_allocs().fetch_add(1, std::memory_order_relaxed); }
inline void hook_free(const volatile void* p) { if (p) live_allocs().fetch_sub(1, std::memory_order_relaxed); }
#endif

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567) {
    const unsigned char* c = (const unsigned char*)p;
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
    uint64_t v = 0; if (n) memcpy(&v, c, n);
    return mix(h, v ^ ((uint64_t)n << 56));
}

class Ctx {
public:
    Shared* sh = nullptr; Slot* s = nullptr;
    uint32_t pos = 0;            // next choice
    uint32_t have = 0;           // choices fixed in the current path
    bool thorough = false, replay = false, verbose = false, single = false;
    uint64_t my_ticket = 0, prefix_count = 0, prefix_id = 0;
    bool sharded = false, first = true, rerun = false;
    uint32_t changed_at = 0;     // the choice the explorer advanced before this execution
    const std::vector<std::string>* known_sigs = nullptr;
    std::string description;
    bool no_leak_check = false;

    // visited states of this worker: fingerprint -> greatest remaining depth already explored from it
    std::vector<std::pair<uint64_t,int>> vis; uint64_t visn = 0;

    uint32_t choose(uint32_t n, const char* label = "") {
        if (n == 0) throw Diverged{std::string("empty choice ") + label};
        if (pos < have) {
            Choice& c = s->path[pos];
            if (c.n != n) throw Diverged{std::string("choice '") + label + "' had " + std::to_string(c.n) + " alternatives, now " + std::to_string(n)};
            c.label = label;
            pos++;
            s->len.store(pos, std::memory_order_relaxed);
            return c.v;
        }
        if (pos >= MAX_DEPTH) throw Diverged{"too many choices"};
        Choice& c = s->path[pos++];
        c.n = n; c.v = 0; c.label = label;
        have = pos;
        s->len.store(pos, std::memory_order_relaxed);
        return 0;
    }
    bool flag(const char* label = "") { return choose(2, label) != 0; }
    int range(int lo, int hi, const char* label = "") { return lo + (int)choose((uint32_t)(hi - lo + 1), label); }
    template<class T> T pick(std::initializer_list<T> l, const char* label = "") { return *(l.begin() + choose((uint32_t)l.size(), label)); }
    template<class T> const T& pick(const std::vector<T>& l, const char* label = "") { return l[choose((uint32_t)l.size(), label)]; }

    // End of the prefix that identifies a unit of work: only the worker that claimed its number goes on.
    void shard() {
        if (replay || sharded) return;
        sharded = true;
        if (first || changed_at < pos) { prefix_id = prefix_count++; }      // a prefix not seen before
        if (single) { if (prefix_id != my_ticket) throw Skip(); return; }
        while (my_ticket < prefix_id) { my_ticket = sh->next_ticket.fetch_add(1); s->ticket = my_ticket; }
        if (prefix_id != my_ticket) throw Skip();
    }

    void step(uint64_t n = 1) { s->transitions.fetch_add(n, std::memory_order_relaxed); s->heartbeat.fetch_add(1, std::memory_order_relaxed); }

    // records an observed state (fingerprint) for the coverage statistics
    void state(uint64_t h) {
        h = mix(0xabcdef, h); if (h == 0) h = 1;
        if (replay || sh->table_full.load(std::memory_order_relaxed)) return;
        uint64_t i = h & (TABLE - 1);
        for (int probe = 0; probe < 64; probe++, i = (i + 1) & (TABLE - 1)) {
            uint64_t cur = sh->table[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                uint64_t expect = 0;
                if (sh->table[i].compare_exchange_strong(expect, h)) {
                    if (sh->distinct.fetch_add(1) + 1 > TABLE / 4 * 3) sh->table_full.store(1);
                    return;
                }
                if (expect == h) return;
            }
        }
    }

    // explicit-state pruning: true when this state was already explored with at least this many operations to go
    bool seen(uint64_t h, int remaining) {
        if (replay || rerun) return false;
        if (h == 0) h = 1;
        if (vis.empty()) vis.resize(1 << 16);
        if (visn * 2 > vis.size()) {
            std::vector<std::pair<uint64_t,int>> old; old.swap(vis); vis.resize(old.size() * 4);
            visn = 0;
            for (auto& e : old) if (e.first) { auto& d = slot_for(e.first); d = e; visn++; }
        }
        auto& e = slot_for(h);
        if (e.first == h) { if (e.second >= remaining) { s->pruned.fetch_add(1, std::memory_order_relaxed); return true; } e.second = remaining; return false; }
        e.first = h; e.second = remaining; visn++;
        return false;
    }
    void forget() { vis.clear(); visn = 0; }

    void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!verbose) return;
        char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        if (description.size() < 6000) { description += b; description += "; "; }
    }

    // sig identifies the kind of failure (for the known-findings file); the message says exactly what failed
    [[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        va_list ap; va_start(ap, fmt); vsnprintf(s->msg, sizeof s->msg, fmt, ap); va_end(ap);
        snprintf(s->sig, sizeof s->sig, "%s", sig);
        if (known_sigs) for (size_t i = 0; i < known_sigs->size() && i < MAX_KNOWN; i++)
            if ((*known_sigs)[i] == sig) { s->known[i].fetch_add(1); throw Known(); }
        throw Violation();
    }
    void ok(bool cond, const char* sig, const char* what) { s->checks.fetch_add(1, std::memory_order_relaxed); if (!cond) fail(sig, "%s", what); }
private:
    std::pair<uint64_t,int>& slot_for(uint64_t h) {
        uint64_t m = vis.size() - 1, i = (h ^ (h >> 29)) & m;
        while (vis[i].first != 0 && vis[i].first != h) i = (i + 1) & m;
        return vis[i];
    }
};

} // namespace mc

void mc_body(mc::Ctx& c);          // defined by the harness
extern const char* mc_property;    // defined by the harness

namespace mc {

// runs one execution; returns 0 ok, 1 violation, 2 known, 3 skipped, 4 diverged
inline int run_once(Ctx& c) {
    c.pos = 0; c.sharded = false;
    c.s->len.store(0, std::memory_order_relaxed);
    int64_t before = live_allocs().load();
    size_t visbefore = c.vis.capacity();
    try { mc_body(c); c.shard(); }
    catch (Skip&) { return 3; }
    catch (Known&) { return 2; }
    catch (Violation&) { return 1; }
    catch (Diverged& d) { snprintf(c.s->msg, sizeof c.s->msg, "%s", d.what.c_str()); return 4; }
    catch (std::exception& e) {
        try { c.fail("unexpected-exception", "unexpected exception %s: %s", typeid(e).name(), e.what()); }
        catch (Known&) { return 2; } catch (Violation&) { return 1; }
    }
    catch (const char* e) {
        try { c.fail("unexpected-exception", "unexpected exception: %s", e); }
        catch (Known&) { return 2; } catch (Violation&) { return 1; }
    }
    int64_t after = live_allocs().load();
    if (after > before && c.vis.capacity() == visbefore && !c.no_leak_check && !c.verbose) {
        // a one-time cache is no leak: it is one only when the same execution leaks again, twice
        uint32_t have = c.have, pos = c.pos;
        bool leak = true;
        for (int i = 0; i < 2 && leak; i++) {
            int64_t b = live_allocs().load();
            c.pos = 0; c.rerun = true; c.sharded = true;
            try { mc_body(c); } catch (...) { leak = false; }
            if (live_allocs().load() <= b) leak = false;
            c.have = have; c.pos = pos;
        }
        c.rerun = false;
        if (leak) {
            try { c.fail("leak", "memory leak: this execution leaves %lld more live allocation(s) every time it runs", (long long)(after - before)); }
            catch (Known&) { return 2; } catch (Violation&) { return 1; }
        }
    }
    return 0;
}

inline bool backtrack(Ctx& c) {
    uint32_t n = c.pos;                 // choices beyond what this execution used are dropped
    c.first = false;
    while (n > 0) {
        Choice& ch = c.s->path[n - 1];
        if (ch.v + 1 < ch.n) { ch.v++; c.have = n; c.changed_at = n - 1; return true; }
        n--;
    }
    return false;
}

struct Options {
    bool thorough = false; int workers = 8; std::string out, replay, errdir = "."; double cap = 700;
    std::vector<std::string> known; double stall = 60;
};

inline void worker(Shared* sh, int id, const Options& o, double t0, int64_t ticket) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Ctx* cp = new Ctx; Ctx& c = *cp; c.sh = sh; c.s = &sh->slot[id]; c.thorough = o.thorough; c.known_sigs = &o.known;
    if (ticket >= 0) { c.single = true; c.my_ticket = (uint64_t)ticket; }
    else c.my_ticket = sh->next_ticket.fetch_add(1);
    c.s->ticket = c.my_ticket;
    uint64_t count = 0;
    for (;;) {
        int r = run_once(c);
        if (r == 1) { c.s->violation = 1; sh->stop = 1; _exit(10); }
        if (r == 4) { c.s->violation = 2; sh->stop = 1; _exit(11); }
        if (r == 0 || r == 2) {
            c.s->execs.fetch_add(1, std::memory_order_relaxed);
            if ((int)c.pos > c.s->maxdepth) c.s->maxdepth = (int)c.pos;
            uint64_t n = c.s->execs;
            if ((n & (n - 1)) == 0 || c.pos > c.s->sample_len + 2) {
                memcpy(c.s->sample, c.s->path, sizeof(Choice) * c.pos); c.s->sample_len = c.pos;
            }
        }
        c.s->heartbeat.fetch_add(1, std::memory_order_relaxed);
        if (sh->stop) _exit(0);
        if ((++count & 127) == 0 && now() - t0 > o.cap) { sh->capped = 1; _exit(0); }
        if (c.single && c.prefix_count > c.my_ticket + 1) break;
        if (!backtrack(c)) break;
    }
    _exit(0);
}

inline std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r + "\"";
}

inline std::string slurp(const std::string& f, size_t limit = 200000) {
    std::string r; FILE* fp = fopen(f.c_str(), "rb"); if (!fp) return r;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < limit) r.append(b, n);
    fclose(fp); return r;
}

// condenses a sanitizer report: the error line and the first frame inside the code under test
inline std::string condense(const std::string& err) {
    std::string r; size_t p = err.find("ERROR:"); if (p == std::string::npos) p = err.find("runtime error");
    if (p == std::string::npos) return err.substr(0, 300);
    size_t e = err.find('\n', p); r = err.substr(p, e - p);
    size_t f = err.find("boofcv", e);
    while (f != std::string::npos) {
        size_t ls = err.rfind('\n', f), le = err.find('\n', f);
        std::string line = err.substr(ls + 1, le - ls - 1);
        if (line.find("/boofcpp") != std::string::npos && line.find("#") != std::string::npos) { r += " | " + line; break; }
        f = err.find("boofcv", le == std::string::npos ? err.size() : le);
    }
    return r;
}

struct Outcome { int kind; std::string sig, msg, desc; };  // kind 0 ok, 1 violation, 4 diverged

// runs one choice sequence alone in a fresh process
inline Outcome replay_path(const std::vector<Choice>& path, const Options& o, bool verbose, double limit, bool leak_check = true) {
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char* desc = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string errf = o.errdir + "/replay.err";
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd);
        fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
        Ctx* c = new Ctx; c->sh = sh; c->s = &sh->slot[0]; c->replay = true; c->verbose = verbose; c->thorough = o.thorough;
        c->no_leak_check = !leak_check;
        if (verbose) c->description.reserve(8192);
        for (size_t i = 0; i < path.size(); i++) c->s->path[i] = path[i];
        c->have = (uint32_t)path.size();
        int r = run_once(*c);
        snprintf(desc, 8192, "%s", c->description.c_str());
        _exit(r == 1 ? 10 : r == 4 ? 11 : 0);
    }
    double t0 = now(); int st = 0; bool timeout = false;
    for (;;) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        if (now() - t0 > limit) { timeout = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(2000);
    }
    Outcome r; r.desc = desc;
    Slot& s = sh->slot[0];
    if (timeout) { r.kind = 1; r.sig = "hang"; r.msg = "does not terminate (still running after " + std::to_string((int)limit) + " s alone)"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { r.kind = 1; r.sig = s.sig; r.msg = s.msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { r.kind = 4; r.sig = "diverged"; r.msg = s.msg; }
    else {
        r.kind = 1; r.sig = "crash";
        r.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "aborted with status " + std::to_string(WEXITSTATUS(st));
        std::string c = condense(slurp(errf)); if (!c.empty()) r.msg += ": " + c;
    }
    munmap(sh, sizeof(Shared)); munmap(desc, 8192);
    return r;
}

inline std::vector<Choice> path_of(Slot& s) {
    std::vector<Choice> p; uint32_t n = s.len;
    for (uint32_t i = 0; i < n; i++) p.push_back(s.path[i]);
    return p;
}

inline std::string path_text(const std::vector<Choice>& p) {
    std::string r;
    for (auto& c : p) { if (!r.empty()) r += " "; r += (c.label && *c.label) ? c.label : "_"; r += "=" + std::to_string(c.v) + "/" + std::to_string(c.n); }
    return r;
}

inline void write_replay(const std::string& file, const Options& o, const std::vector<Choice>& p, const Outcome& oc) {
    FILE* f = fopen(file.c_str(), "w"); if (!f) return;
    fprintf(f, "property %s\ntier %s\nchoices", mc_property, o.thorough ? "thorough" : "quick");
    for (auto& c : p) fprintf(f, " %u/%u", c.v, c.n);
    fprintf(f, "\n# %s\n# signature: %s\n# %s\n# execution: %s\n", path_text(p).c_str(), oc.sig.c_str(), oc.msg.c_str(), oc.desc.c_str());
    fclose(f);
}

inline int mc_main(int argc, char** argv) {
    Options o; std::string replay_file, replay_out = "violation.replay";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--tier") o.thorough = next() == "thorough";
        else if (a == "--workers") o.workers = atoi(next().c_str());
        else if (a == "--out") o.out = next();
        else if (a == "--errdir") o.errdir = next();
        else if (a == "--cap") o.cap = atof(next().c_str());
        else if (a == "--replay") replay_file = next();
        else if (a == "--replay-out") replay_out = next();
        else if (a == "--known") o.known.push_back(next());
    }
    if (o.workers > MAX_WORKERS) o.workers = MAX_WORKERS;
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    setvbuf(stdout, nullptr, _IONBF, 0);
    if (!replay_file.empty()) {
        std::string t = slurp(replay_file); std::vector<Choice> p;
        o.thorough = t.find("tier thorough") != std::string::npos;
        size_t q = t.find("choices"); if (q == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
        const char* c = t.c_str() + q + 7; unsigned v, n; int used;
        while (*c && *c != '\n' && sscanf(c, " %u/%u%n", &v, &n, &used) == 2) { p.push_back({n, v, ""}); c += used; }
        Outcome oc = replay_path(p, o, true, 120);
        Outcome oc2 = oc.kind == 0 ? replay_path(p, o, false, 120) : oc;
        printf("execution: %s\n", oc.desc.c_str());
        if (oc2.kind == 1) { printf("REPRODUCED [%s] %s\n", oc2.sig.c_str(), oc2.msg.c_str()); return 1; }
        if (oc2.kind == 4) { printf("DIVERGED %s\n", oc2.msg.c_str()); return 2; }
        printf("NOT REPRODUCED\n"); return 0;
    }
    double t0 = now();
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    std::vector<pid_t> pids(o.workers); std::vector<bool> alive(o.workers, true);
    std::vector<uint64_t> beat(o.workers, 0); std::vector<double> beat_t(o.workers, t0);
    for (int i = 0; i < o.workers; i++) {
        pids[i] = fork();
        if (pids[i] == 0) {
            int fd = open((o.errdir + "/worker" + std::to_string(i) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd);
            fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
            worker(sh, i, o, t0, -1);
        }
    }
    int bad = -1; std::string why; bool error = false; std::string errmsg;
    int left = o.workers;
    while (left > 0) {
        int st; pid_t w = waitpid(-1, &st, WNOHANG);
        if (w > 0) {
            for (int i = 0; i < o.workers; i++) if (pids[i] == w) {
                alive[i] = false; left--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { error = true; errmsg = sh->slot[i].msg; sh->stop = 1; }
                else if (bad < 0) {
                    bad = i; sh->stop = 1;
                    why = (WIFEXITED(st) && WEXITSTATUS(st) == 10) ? "violation" : "crash";
                }
            }
            continue;
        }
        double t = now();
        for (int i = 0; i < o.workers; i++) if (alive[i]) {
            uint64_t b = sh->slot[i].heartbeat;
            if (b != beat[i]) { beat[i] = b; beat_t[i] = t; }
            else if (t - beat_t[i] > o.stall) {
                kill(pids[i], SIGKILL);
                if (bad < 0) { bad = i; why = "hang"; sh->stop = 1; }
                beat_t[i] = t;
            }
        }
        usleep(2000);
    }
    uint64_t execs = 0, trans = 0, pruned = 0, checks = 0; int maxdepth = 0; std::vector<uint64_t> known(o.known.size());
    for (int i = 0; i < o.workers; i++) {
        Slot& s = sh->slot[i]; execs += s.execs; trans += s.transitions; pruned += s.pruned; checks += s.checks;
        if (s.maxdepth > maxdepth) maxdepth = s.maxdepth;
        for (size_t k = 0; k < known.size(); k++) known[k] += s.known[k];
    }
    std::string result = "ok"; Outcome oc{0, "", "", ""}; std::vector<Choice> path;
    if (bad >= 0) {
        Slot& s = sh->slot[bad]; path = path_of(s);
        Outcome first{1, s.sig, s.msg, ""};
        if (why != "violation") { first.sig = why; first.msg = why + ": " + condense(slurp(o.errdir + "/worker" + std::to_string(bad) + ".err")); }
        oc = replay_path(path, o, false, why == "hang" ? 90 : 60);
        if (oc.kind == 1) {
            Outcome v = replay_path(path, o, true, 10, false); oc.desc = v.desc;
            result = "violation";
        } else if (oc.kind == 4) { error = true; errmsg = oc.msg; }
        else if (why == "hang") {
            // alone it terminates: the machine was overloaded, not the code
            error = true; errmsg = "a worker was stalled but its execution terminates alone";
        } else {
            // needs the executions before it in the same process: explore the same unit of work again in a fresh process
            Slot& s2 = sh->slot[MAX_WORKERS - 1]; uint64_t ticket = s.ticket;
            sh->stop = 0;
            pid_t p = fork();
            if (p == 0) {
                int fd = open((o.errdir + "/again.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd);
                Options o2 = o; o2.cap = 300; worker(sh, MAX_WORKERS - 1, o2, now(), (int64_t)ticket);
            }
            int st; waitpid(p, &st, 0);
            if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 11))) {
                result = "violation"; oc = first; path = path_of(s2);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { oc.sig = s2.sig; oc.msg = s2.msg; }
                oc.msg += " (needs the earlier executions of unit of work " + std::to_string(ticket) + " in the same process)";
            } else { error = true; errmsg = "a failure did not reproduce: " + first.sig + " " + first.msg; }
        }
        if (result == "violation") write_replay(replay_out, o, path, oc);
    }
    // sample executions, described by running them again
    std::vector<std::string> samples;
    if (result == "ok" && !error) {
        for (int i = 0; i < o.workers && samples.size() < 3; i += (o.workers > 3 ? o.workers / 3 : 1)) {
            if (!sh->slot[i].execs) continue;
            std::vector<Choice> p(sh->slot[i].sample, sh->slot[i].sample + sh->slot[i].sample_len);
            Outcome v = replay_path(p, o, true, 10, false);
            if (v.kind == 0 && !v.desc.empty()) samples.push_back(v.desc);
            else samples.push_back(path_text(p));
        }
    }
    double wall = now() - t0;
    if (!o.out.empty()) {
        FILE* f = fopen(o.out.c_str(), "w");
        if (!f) { perror("out"); return 3; }
        fprintf(f, "{\"result\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_saturated\":%s,\"checks\":%llu,\"pruned\":%llu,\"max_depth\":%d,\"capped\":%s,\"workers\":%d,\"wall\":%.2f,",
            json_str(error ? "error" : result).c_str(), (unsigned long long)execs, (unsigned long long)trans, (unsigned long long)sh->distinct.load(), sh->table_full ? "true" : "false",
            (unsigned long long)checks, (unsigned long long)pruned, maxdepth, sh->capped ? "true" : "false", o.workers, wall);
        fprintf(f, "\"signature\":%s,\"message\":%s,\"description\":%s,\"error\":%s,\"known\":{", json_str(oc.sig).c_str(), json_str(oc.msg).c_str(), json_str(oc.desc).c_str(), json_str(errmsg).c_str());
        for (size_t k = 0; k < known.size(); k++) fprintf(f, "%s%s:%llu", k ? "," : "", json_str(o.known[k]).c_str(), (unsigned long long)known[k]);
        fprintf(f, "},\"samples\":[");
        for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s%s", k ? "," : "", json_str(samples[k]).c_str());
        fprintf(f, "]}\n"); fclose(f);
    }
    if (error) { fprintf(stderr, "ERROR: %s\n", errmsg.c_str()); return 3; }
    return result == "violation" ? 1 : 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::mc_main(argc, argv); }
#endif
#endif

// C30: all pairs of operations in two threads.  Each operation's memory accesses are recorded in a fresh process; when no
// location is written by one operation and touched by the other, all interleavings are equivalent to the recorded one
// (one Mazurkiewicz trace).  Otherwise the interleavings of the conflicting accesses are explored with bounded preemptions
// on two real threads, and each thread's results are compared with those it gets alone.
#include "ops.h"
#include "tsan_rt.h"
#include <map>
const char* mc_property = "C30";
using namespace boofcv;
static std::vector<Op>& ops() { static std::vector<Op> r = all_ops(); return r; }
struct Config { uint32_t w, h; int data; bool pooled; };
static const Config configs[][2] = {{{7, 6, 0, true}, {7, 6, 0, true}}, {{7, 6, 0, false}, {10, 9, 1, false}}, {{16, 13, 0, true}, {16, 13, 0, true}}, {{12, 20, 1, false}, {5, 5, 0, false}}};
// ---- inputs that both threads use ----
template<class E> static void fill_pool(uint32_t w, uint32_t h, int data, bool check, bool& bad) {
    for (uint32_t bands : {0u, 2u, 3u}) for (int kind = 0; kind < 3; kind++) for (size_t i = 0; i < 2; i++) {
        size_t size; uint32_t slot = ((Args::type_code<E>() * 4 + bands) * 3 + kind) * 2 + (uint32_t)i; char* m = (char*)rt_pool_slot(slot, &size); uint32_t n = w * h * (bands ? bands : 1);
        std::vector<E> v = pixels<E>(n, 1, w * 37 + h + data * 101 + (uint32_t)i); Args::shape_values(v, kind, data); E* d = (E*)(m + 256);
        if (check) { if (memcmp(d, v.data(), n * sizeof(E))) bad = true; continue; }
        memcpy(d, v.data(), n * sizeof(E)); if (bands) new (m) Interleaved<E>(d, n, w, h, bands, 0, w * bands); else new (m) Gray<E>(d, n, w, h, 0, w);
    }
}
static const void* pool_input(int type, uint32_t bands, int kind, size_t index) { size_t size; return rt_pool_slot(((type * 4 + bands) * 3 + kind) * 2 + (uint32_t)index, &size); }
static bool pool_changed(const Config& k) { bool bad = false; if (k.pooled) { fill_pool<U8>(k.w, k.h, k.data, true, bad); fill_pool<S16>(k.w, k.h, k.data, true, bad); fill_pool<F32>(k.w, k.h, k.data, true, bad); } return bad; }
static void make_pool(const Config& k) { bool b; if (k.pooled) { fill_pool<U8>(k.w, k.h, k.data, false, b); fill_pool<S16>(k.w, k.h, k.data, false, b); fill_pool<F32>(k.w, k.h, k.data, false, b); } }
// ---- running in a child process ----
struct Out { int done, threw, changed; uint32_t n; double v[1 << 15]; char problem[200]; };
static Out* outs() { static Out* o = (Out*)mmap(nullptr, 2 * sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return o; }
struct Task { const Op* op; Config k; Out* out; };
static void perform(void* v) {
    Task* t = (Task*)v; Args a(t->k.w, t->k.h, {}, 1, t->k.data); if (t->k.pooled) a.pool = pool_input;
    try { t->op->run(a); } catch (std::exception&) { a.threw = true; } catch (const char*) { a.threw = true; }
    RtPause p; a.finish(); Out& o = *t->out; o.threw = a.threw; o.n = (uint32_t)std::min<size_t>(a.result.size(), 1 << 15); for (uint32_t i = 0; i < o.n; i++) o.v[i] = a.result[i]; snprintf(o.problem, sizeof o.problem, "%s", a.problem().c_str()); o.done = 1;
}
struct Result { bool done = false, threw = false; std::vector<double> v; std::string problem; bool operator==(const Result& b) const { return done && b.done && threw == b.threw && v.size() == b.v.size() && (v.empty() || memcmp(v.data(), b.v.data(), v.size() * 8) == 0) && problem == b.problem; } };
struct Run { bool crashed = false; std::string how; Result r[2]; bool pool = false; };
// op[r] may be null; how: 0 record foreign accesses sequentially, 1 record all sequentially, 2 controlled schedule
static Run run(const Op* op[2], const Config k[2], int how, int first) {
    Out* o = outs(); for (int r = 0; r < 2; r++) { o[r].done = 0; o[r].n = 0; o[r].problem[0] = 0; o[r].changed = 0; } fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(30); signal(SIGALRM, SIG_DFL); make_pool(k[0]); Task t[2]; void (*f[2])(void*) = {nullptr, nullptr}; void* a[2];
        for (int r = 0; r < 2; r++) { t[r] = Task{op[r], k[r], &o[r]}; a[r] = &t[r]; if (op[r]) f[r] = perform; }
        if (how == 2) rt_run(RT_SCHEDULE, f, a); else rt_run_sequential(how ? RT_RECORD_ALL : RT_RECORD_FOREIGN, f, a, first);
        o[0].changed = pool_changed(k[0]); _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} Run r; r.pool = o[0].changed;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { r.crashed = true; r.how = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not end (deadlock)" : WIFSIGNALED(st) ? "crashes with signal " + std::to_string(WTERMSIG(st)) : "aborts"; }
    for (int i = 0; i < 2; i++) { r.r[i].done = o[i].done; r.r[i].threw = o[i].threw; r.r[i].v.assign(o[i].v, o[i].v + o[i].n); r.r[i].problem = o[i].problem; }
    return r;
}
struct Bytes { std::vector<uintptr_t> reads, writes; uint64_t events = 0; };
static Bytes bytes(int role) {
    RtShared* s = rt_shared(); Bytes b; b.events = s->count[role];
    for (uint32_t i = 0; i < s->count[role]; i++) { RtAccess& a = s->log[role][i]; uint32_t n = std::min<uint32_t>(a.size, 1 << 16); auto& v = a.write ? b.writes : b.reads; for (uint32_t q = 0; q < n; q++) v.push_back(a.addr + q); }
    for (auto* v : {&b.reads, &b.writes}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); } return b;
}
static void both(const std::vector<uintptr_t>& a, const std::vector<uintptr_t>& b, std::vector<uintptr_t>& r) { if (a.empty() || b.empty()) return; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); }
static std::vector<uintptr_t> conflicts(const Bytes& a, const Bytes& b) { std::vector<uintptr_t> r; both(a.writes, b.writes, r); both(a.writes, b.reads, r); both(b.writes, a.reads, r); return r; }
struct Solo { bool ready = false; Bytes b; Result r; };
static Solo& solo(mc::Ctx& c, int cfg, size_t i, int role) {
    static std::map<std::pair<int, size_t>, Solo> cache; Solo& s = cache[{cfg * 2 + role, i}]; if (s.ready) return s;
    const Op* o[2] = {nullptr, nullptr}; o[role] = &ops()[i]; Run r = run(o, configs[cfg], 0, role);
    if (r.crashed) c.fail("crash", "%s alone %s", ops()[i].name.c_str(), r.how.c_str());
    if (r.pool) c.fail("input", "%s alone changes its input", ops()[i].name.c_str());
    if (rt_shared()->overflow[role]) throw mc::Diverged{"access log full for " + ops()[i].name};
    s.b = bytes(role); s.r = r.r[role]; s.ready = true; return s;
}
static std::vector<uint32_t> points(uint32_t n, bool all) {
    std::vector<uint32_t> r; if (n <= (all ? 64 : 16)) { for (uint32_t i = 0; i <= n; i++) r.push_back(i); return r; }
    for (uint32_t i = 0; i < 6; i++) { r.push_back(i); r.push_back(n - i); } for (uint32_t i = 1; i < (all ? 24u : 10u); i++) r.push_back((uint32_t)((uint64_t)n * i / (all ? 24 : 10)));
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static void judge(mc::Ctx& c, const Run& r, const Solo& a, const Solo& b, const char* na, const char* nb, const char* how) {
    if (r.crashed) c.fail("crash", "'%s' and '%s' in two threads, %s: the program %s", na, nb, how, r.how.c_str());
    for (int t = 0; t < 2; t++) { const Solo& s = t ? b : a; if (!(r.r[t] == s.r)) c.fail("interference", "thread %d running '%s' next to '%s' gives another result than alone (%s)", t + 1, t ? nb : na, t ? na : nb, how); }
    if (r.pool) c.fail("input", "'%s' and '%s' in two threads, %s: a shared input was changed", na, nb, how);
}
void mc_body(mc::Ctx& c) {
    rt_setup(); size_t n = ops().size(); int cfg = c.choose(c.thorough ? 4 : 2, "inputs"); size_t i = c.choose((uint32_t)n, "operation 1"); c.shard(); size_t j = i + c.choose((uint32_t)(n - i), "operation 2");
    Solo &a = solo(c, cfg, i, 0), &b = solo(c, cfg, j, 1); const char *na = ops()[i].name.c_str(), *nb = ops()[j].name.c_str(); c.describe("'%s' and '%s' in two threads, %s inputs", na, nb, configs[cfg][0].pooled ? "the same" : "separate");
    if (i == j && configs[cfg][0].pooled && !(solo(c, cfg, i, 1).r == a.r)) c.fail("thread", "'%s' gives another result in another thread", na);
    c.step(); c.s->checks.fetch_add(a.b.events + b.b.events); c.state(mc::mix(i * 4096 + j, cfg));
    if (conflicts(a.b, b.b).empty()) return;
    // dependent accesses: find all of them by running one after the other in both orders, then explore
    const Op* o[2] = {&ops()[i], &ops()[j]}; std::vector<uintptr_t> vis;
    for (int first = 0; first < 2; first++) { Run r = run(o, configs[cfg], 1, first); judge(c, r, a, b, na, nb, first ? "one after the other, the second first" : "one after the other"); for (uintptr_t x : conflicts(bytes(0), bytes(1))) vis.push_back(x >> 3); c.step(); }
    std::sort(vis.begin(), vis.end()); vis.erase(std::unique(vis.begin(), vis.end()), vis.end()); if (vis.size() > RT_SET / 2) vis.resize(RT_SET / 2); rt_set_visible(vis.data(), (uint32_t)vis.size());
    int start = c.choose(2, "first thread"); rt_set_plan(start, nullptr, 0); run(o, configs[cfg], 2, start); uint32_t seen[2] = {rt_shared()->visible_seen[0], rt_shared()->visible_seen[1]};
    std::vector<uint32_t> p0 = points(seen[start], c.thorough), p1 = points(seen[1 - start], c.thorough); uint32_t plan[3]; plan[0] = p0[c.choose((uint32_t)p0.size(), "preempt first thread at")]; plan[1] = p1[c.choose((uint32_t)p1.size(), "preempt second thread at")];
    int np = 2; if (c.thorough) { std::vector<uint32_t> p2; for (uint32_t x : points(seen[start], false)) if (x >= plan[0]) p2.push_back(x); if (p2.size() > 6) p2.resize(6); if (!p2.empty()) { plan[2] = p2[c.choose((uint32_t)p2.size(), "preempt first thread again at")]; np = 3; } }
    rt_set_plan(start, plan, np); Run r = run(o, configs[cfg], 2, start); c.step(); c.state(mc::mix(mc::mix(i * 4096 + j, cfg), mc::mix(plan[0] * 4096 + plan[1], start)));
    char how[160]; snprintf(how, sizeof how, "thread %d first, switching before its conflicting access %u and before access %u of the other", start + 1, plan[0], plan[1]); c.describe(", %s", how); judge(c, r, a, b, na, nb, how);
}

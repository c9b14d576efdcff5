// C34: every ordered pair of calls, on the same and on other images, in one process; each call must give what it gives alone
// in a new process.
#include "ops.h"
const char* mc_property = "C34";
static std::vector<Op>& ops() { static std::vector<Op> r = more_ops(); return r; }
struct Config { uint32_t w, h; int data; };
static const Config configs[] = {{9, 8, 0}, {12, 5, 1}, {6, 6, 2}, {17, 16, 0}, {1, 1, 1}};
constexpr int CONFIGS = 5; constexpr size_t MAX_OPS = 2048;
struct Answer { bool threw; uint64_t hash; uint32_t n; char problem[160]; };
static Answer perform(size_t op, const Config& k) {
    Args a(k.w, k.h, {}, 1, k.data); run_op(ops()[op], a); Answer r; r.threw = a.threw; r.n = (uint32_t)a.result.size(); r.hash = mc::hash_bytes(a.result.data(), a.result.size() * 8); snprintf(r.problem, sizeof r.problem, "%s", a.problem().c_str()); return r;
}
// what each call gives alone: computed once, each in a process of its own, and shared by the workers
struct Cell { std::atomic<int> ready; Answer a; };
struct Table { Cell cell[CONFIGS][MAX_OPS]; struct Report { int bad; uint64_t calls; size_t first, second; int firstc, secondc; char what[1500]; } report[mc::MAX_WORKERS + 1]; };
static Table* table = (Table*)mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
template<class F> static int child(F f) {
    fflush(nullptr); pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(100); signal(SIGALRM, SIG_DFL); f(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
static const Answer& alone(mc::Ctx& c, size_t op, int k) {
    Cell& cell = table->cell[k][op]; if (cell.ready.load()) return cell.a;
    Answer* out = (Answer*)mmap(nullptr, sizeof(Answer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int st = child([&] { *out = perform(op, configs[k]); }); Answer a = *out; munmap(out, sizeof(Answer));
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crash", "'%s' alone on a %ux%u image crashes", ops()[op].name.c_str(), configs[k].w, configs[k].h);
    cell.a = a; cell.ready.store(1); return cell.a;
}
void mc_body(mc::Ctx& c) {
    size_t n = ops().size(); if (n > MAX_OPS) throw mc::Diverged{"too many operations"};
    static const int quick[][2] = {{0, 0}, {1, 0}, {0, 1}}; int q, ka, kb;
    if (c.thorough) { q = c.choose(CONFIGS * CONFIGS, "images"); ka = q / CONFIGS; kb = q % CONFIGS; } else { q = c.choose(3, "images"); ka = quick[q][0]; kb = quick[q][1]; }
    size_t i = c.choose((uint32_t)n, "first call"); c.shard();
    c.describe("'%s' on a %ux%u image before every other call on a %ux%u image", ops()[i].name.c_str(), configs[ka].w, configs[ka].h, configs[kb].w, configs[kb].h);
    alone(c, i, ka); for (size_t j = 0; j < n; j++) alone(c, j, kb);
    Table::Report* r = (Table::Report*)mmap(nullptr, sizeof(Table::Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(r, 0, sizeof *r);
    auto same = [](const Answer& a, const Answer& b) { return a.threw == b.threw && a.n == b.n && a.hash == b.hash && !strcmp(a.problem, b.problem); };
    int st = child([&] {
        for (size_t j = 0; j < n && !r->bad; j++) {
            r->first = i; r->firstc = ka; r->second = j; r->secondc = kb; size_t before = j;
            for (int step = 0; step < 2 && !r->bad; step++) {
                size_t op = step ? j : i; int k = step ? kb : ka; Answer a = perform(op, configs[k]); const Answer& w = table->cell[k][op].a; r->calls++;
                if (!same(a, w)) { r->bad = 1; snprintf(r->what, sizeof r->what, "'%s' on a %ux%u image after '%s' on a %ux%u image %s, alone it %s (%u values)", ops()[op].name.c_str(), configs[k].w, configs[k].h, step ? ops()[i].name.c_str() : before ? ops()[j - 1].name.c_str() : "nothing", configs[step ? ka : kb].w, configs[step ? ka : kb].h, a.threw != w.threw ? (a.threw ? "is refused" : "is accepted") : a.problem[0] ? a.problem : "gives another result", w.threw ? "is refused" : "succeeds", w.n); }
            }
        }
    });
    bool bad = r->bad; std::string what = r->what; uint64_t calls = r->calls; size_t j = r->second; munmap(r, sizeof *r);
    if (bad) c.fail("memory", "%s", what.c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crash", "'%s' or '%s', called one after the other, crashes", ops()[i].name.c_str(), ops()[j].name.c_str());
    c.step(calls); c.s->checks.fetch_add(calls * 2); for (size_t k = 0; k < n; k++) c.state(mc::mix(i * 4096 + k, q + 100));
}

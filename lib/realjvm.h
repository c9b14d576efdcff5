// realjvm.h - a real Java machine running the repository's Java classes (lib/java/verif/Server.java executes the calls)
#ifndef VERIF_REALJVM_H
#define VERIF_REALJVM_H
#include "util.h"
#include <poll.h>
struct JavaEnd { std::string what; };
struct Java {
    int to = -1, from = -1; pid_t pid = -1; std::vector<uint8_t> o; std::vector<uint8_t> buf; size_t at = 0; mc::Ctx* c = nullptr; int next_id = 1;
    std::string errfile;
    void start() {
        int a[2], b[2]; if (pipe(a) || pipe(b)) throw JavaEnd{"pipe"};
        const char* dir = getenv("VERIF_JAVA"); if (!dir) throw JavaEnd{"VERIF_JAVA is not set"};
        errfile = std::string(dir) + "/jvm" + std::to_string(getpid()) + ".err";
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); for (int i = 3; i < 64; i++) close(i);
            std::string cp = std::string(dir) + "/classes", lp = std::string("-Djava.library.path=") + dir, ef = std::string("-XX:ErrorFile=") + errfile + ".hs", tmp = std::string("-Djava.io.tmpdir=") + dir; if (chdir(dir)) _exit(1);
            execlp("java", "java", "-Xmx256m", "-Xms256m", "-Xss1m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-XX:+DisableAttachMechanism", "-Xshare:auto", "-Xcheck:jni", "-XX:-CreateCoredumpOnCrash", "-XX:+DisplayVMOutputToStderr", ef.c_str(), tmp.c_str(), lp.c_str(), "-cp", cp.c_str(), "verif.Server", "quiet", (char*)nullptr); _exit(127);
        }
        close(a[0]); close(b[1]); to = a[1]; from = b[0]; fcntl(to, F_SETFD, FD_CLOEXEC); fcntl(from, F_SETFD, FD_CLOEXEC);
    }
    void b(int v) { o.push_back((uint8_t)v); }
    void i(int32_t v) { for (int k = 24; k >= 0; k -= 8) o.push_back((uint8_t)((uint32_t)v >> k)); }
    void d(double v) { uint64_t u; memcpy(&u, &v, 8); i((int32_t)(u >> 32)); i((int32_t)u); }
    void fill(size_t n) {
        while (buf.size() - at < n) {
            uint8_t t[65536]; ssize_t r = read(from, t, sizeof t); if (r < 0 && errno == EINTR) continue;
            if (r <= 0) { int st = 0; waitpid(pid, &st, 0); std::string e = mc::slurp(errfile, 4000); size_t f = e.find("FATAL"); if (f == std::string::npos) f = e.find("# "); throw JavaEnd{(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + ": " + e.substr(f == std::string::npos ? 0 : f, 500)}; }
            if (at > 1 << 20) { buf.erase(buf.begin(), buf.begin() + at); at = 0; } buf.insert(buf.end(), t, t + r);
        }
    }
    int rb() { fill(1); return buf[at++]; }
    int32_t ri() { fill(4); uint32_t v = 0; for (int k = 0; k < 4; k++) v = v << 8 | buf[at++]; return (int32_t)v; }
    std::string rs() { fill(2); size_t n = buf[at] << 8 | buf[at + 1]; at += 2; fill(n); std::string s((char*)&buf[at], n); at += n; return s; }
    void send() { size_t p = 0; while (p < o.size()) { ssize_t r = write(to, o.data() + p, o.size() - p); if (r < 0 && errno == EINTR) continue; if (r <= 0) { fill(1); throw JavaEnd{"the pipe is closed"}; } p += r; } o.clear(); }
    std::string error;
    // 0 done, 1 the call threw an ordinary exception, 2 it threw something else
    int result() { if (buf.size() == at) { buf.clear(); at = 0; } send(); int r = rb(); error.clear(); if (r == 1 || r == 2) { error = rs(); error += " " + rs(); } return r; }
};
inline Java& java() { static Java* j = nullptr; if (!j) { signal(SIGPIPE, SIG_IGN); j = new Java; j->start(); } return *j; }
// an image as Java holds it
struct JI { int type; int w, h, start, stride; bool sub; std::vector<int32_t> d; };
template<class E> constexpr int jtype() { return sizeof(E) == 1 ? 0 : sizeof(E) == 2 ? 3 : std::is_floating_point<E>::value ? 5 : 4; }
template<class E> int32_t bits(E v) { return std::is_same<E, U8>::value ? (int32_t)(int8_t)v : (int32_t)v; }
template<> inline int32_t bits<F32>(F32 v) { int32_t r; memcpy(&r, &v, 4); return r; }
enum { TIGHT, SUB, WIDE, LONG, JL };        // exactly its pixels; a sub-image; a larger stride without being a sub-image; an array that is longer than needed
inline JI blank(int type, int w, int h, int layout, uint32_t seed) {
    JI g{type, w, h, layout == SUB ? 3 : 0, layout == SUB ? w + 2 : layout == WIDE ? w + 1 : w, layout == SUB, {}}; int len = g.start + (h ? g.stride * (h - 1) + w : 0) + (layout == LONG || layout == SUB ? 4 : 0); uint32_t s = seed * 2654435761u + 77;
    for (int i = 0; i < len; i++) { uint32_t r = mc::mix(s, i); g.d.push_back(type == 5 ? bits<F32>((F32)(r % 300) - 20.0f) : type <= 1 ? (int8_t)r : type <= 3 ? (int16_t)r : (int32_t)(r % 100000)); } return g;
}
template<class E> void put(JI& g, const std::vector<E>& px) { for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) g.d[g.start + y * g.stride + x] = bits<E>(px[y * g.w + x]); }
inline int new_image(Java& j, const JI& g) { int id = j.next_id++; j.b(3); j.i(id); j.b(g.type); j.i(g.w); j.i(g.h); j.i(g.start); j.i(g.stride); j.i((int)g.d.size()); j.b(g.sub); for (int32_t v : g.d) j.i(v); if (j.result()) throw JavaEnd{"image: " + j.error}; return id; }
inline JI read_image(Java& j, int id, int type) { j.b(4); j.i(id); if (j.result()) throw JavaEnd{"read: " + j.error}; JI g; g.type = type; g.w = j.ri(); g.h = j.ri(); g.start = j.ri(); g.stride = j.ri(); g.sub = j.rb(); g.d.resize(j.ri()); for (auto& v : g.d) v = j.ri(); return g; }
#endif

// C37: the native library is found and loaded from the first place that has a usable one.
#include "util.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <poll.h>
#include <dirent.h>
#include <fcntl.h>
const char* mc_property = "C37";
// the places in the order in which they are tried
enum { LIBPATH, BUILD, UPBUILD, JAR, ARM64, ARMV7, PLACES };
static const char* const place_name[] = {"java.library.path", "build/boofcpp-jni", "../build/boofcpp-jni", "/ of the jar", "/arm64-v8a of the jar", "/armeabi-v7a of the jar"};
enum { ABSENT, GOOD, FOREIGN, EMPTY, REFUSED, TEXT };
static const char* const state_name[] = {"absent", "usable", "of another machine", "empty", "refused by the machine", "not a library"};
static std::string slurp(const std::string& p) { std::string s; int fd = open(p.c_str(), O_RDONLY); char b[65536]; ssize_t n; while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, n); if (fd >= 0) close(fd); return s; }
static void dump(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0755); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd); }
static void drop(const std::string& p) { DIR* d = opendir(p.c_str()); if (!d) { unlink(p.c_str()); return; } while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") drop(p + "/" + n); } closedir(d); rmdir(p.c_str()); }
static void tree(const std::string& p, const std::string& at, std::string& out) { DIR* d = opendir(p.c_str()); if (!d) return; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; out += " " + at + n; tree(p + "/" + n, at + n + "/", out); } closedir(d); }
struct Run {
    mc::Ctx& c; std::string base, dir; int files = 0;
    Run(mc::Ctx& c) : c(c) { base = getenv("VERIF_JAVA") ? getenv("VERIF_JAVA") : "."; dir = base + "/run" + std::to_string(getpid()); drop(dir); for (const char* s : {"", "/lp", "/w", "/w/build", "/w/build/boofcpp-jni", "/w/sub", "/w/sub/build", "/w/sub/build/boofcpp-jni", "/jar", "/jar/arm64-v8a", "/jar/armeabi-v7a", "/tmp"}) mkdir((dir + s).c_str(), 0755); }
    ~Run() { drop(dir); }
    void put(int place, const char* name, int state, char id) {
        static const char* const where[] = {"/lp/", "/w/sub/build/boofcpp-jni/", "/w/build/boofcpp-jni/", "/jar/", "/jar/arm64-v8a/", "/jar/armeabi-v7a/"}; std::string p = dir + where[place] + name; if (state == ABSENT) return;
        if (state == EMPTY) { dump(p, ""); return; } if (state == TEXT) { dump(p, std::string(3000, 'x')); return; }
        std::string s = slurp(base + "/load_" + (state == REFUSED ? 'v' : id) + ".so"); if (s.size() < 64) c.fail("harness", "no library %c", id); if (state == FOREIGN) { s[18] = (char)0xb7; s[19] = 0; } dump(p, s);
    }
    // runs the entry class; gives what it printed
    std::string go(const std::vector<std::string>& args, bool tmp_exists) {
        int p[2]; if (pipe(p)) abort(); std::string lp = "-Djava.library.path=" + dir + "/lp", tmp = "-Djava.io.tmpdir=" + dir + (tmp_exists ? "/tmp" : "/none"), cp = base + "/classes:" + dir + "/jar", cwd = dir + "/w/sub", err = dir + "/err"; pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(cwd.c_str())) _exit(1); dup2(p[1], 1); int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); for (int i = 3; i < 64; i++) close(i);
            std::vector<char*> v; for (const char* s : {"java", "-Xmx64m", "-Xss512k", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-XX:+DisableAttachMechanism", "-Xshare:auto", "-XX:-CreateCoredumpOnCrash"}) v.push_back((char*)s);
            for (auto* s : {&lp, &tmp}) v.push_back((char*)s->c_str()); v.push_back((char*)"-cp"); v.push_back((char*)cp.c_str()); v.push_back((char*)"verif.Load"); for (auto& s : args) v.push_back((char*)s.c_str()); v.push_back(nullptr); execvp("java", v.data()); _exit(127);
        }
        close(p[1]); std::string out; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) != 0) { if (n < 0) { if (errno == EINTR) continue; break; } out.append(b, n); } close(p[0]); int st; waitpid(pid, &st, 0); c.step();
        if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the machine ended with status " + std::to_string(st) + ": " + slurp(err).substr(0, 300); return out;
    }
};
void mc_body(mc::Ctx& c) {
    int fam = c.choose(3, "family"); int st[PLACES] = {0}, names[PLACES][3] = {}; static const char* const file[] = {"libJNIBoofCPP.so", "libJNIBoofCPP.dll", "libJNIBoofCPP.dylib"}; bool tmp = true; int bad = FOREIGN; std::vector<std::string> args = {"l", "i"};
    if (fam == 0) {             // every combination of places
        bad = c.thorough ? c.pick({FOREIGN, EMPTY, REFUSED, TEXT}, "kind of unusable file") : FOREIGN;
        for (int p = 0; p < PLACES; p++) { int s = c.choose(3, place_name[p]); names[p][0] = s == 2 ? bad : s; if (p == 2) c.shard(); }
    } else if (fam == 1) {      // the file names of the other systems in one place
        int p = 1 + c.choose(PLACES - 1, "place"); for (int n = 0; n < 3; n++) names[p][n] = c.choose(3, file[n]); c.shard(); if (c.flag("later place") && p + 1 < PLACES) names[p + 1][0] = GOOD;
    } else {                    // kinds of unusable files; no temporary directory; order of the calls
        int p = c.choose(PLACES, "place"), k = c.pick({FOREIGN, EMPTY, REFUSED, TEXT}, "kind"); c.shard(); names[p][0] = k; int q = c.choose(PLACES, "usable in"); if (q != p) names[q][0] = GOOD; tmp = !c.flag("no temporary directory"); int a = c.choose(2, "calls"); if (a == 1) args = {"i", "i", "l"};
    }
    Run r(c); std::string what; char want = 0;
    for (int p = 0; p < PLACES; p++) for (int n = 0; n < 3; n++) {
        int s = names[p][n]; if (!s) continue; char id = 'a' + p * 3 + n; r.put(p, file[n], s, id); what += std::string(what.empty() ? "" : ", ") + file[n] + " in " + place_name[p] + " " + state_name[s]; if (s == GOOD && !want && (tmp || p < JAR)) want = id;
    }
    if (what.empty()) what = "no library anywhere"; if (!tmp) what += ", no directory for temporary files"; c.describe("%s", what.c_str()); c.state(mc::hash_bytes(what.data(), what.size(), args.size()));
    std::string out = r.go(args, tmp), loaded = "?"; size_t e = out.find("] "); if (out[0] == '[' && e != std::string::npos) loaded = out.substr(1, e - 1); c.s->checks.fetch_add(3, std::memory_order_relaxed);
    if (loaded == "?") c.fail("no-answer", "%s: %s", what.c_str(), out.c_str());
    if (out.substr(e + 2) != "ok\n") c.fail("error", "%s: the class failed: %s", what.c_str(), out.substr(e + 2).c_str());
    std::string w = want ? std::string(1, want) : "";
    if (loaded != w) c.fail(want && loaded.empty() ? "not-loaded" : "wrong-library", "%s: loaded '%s', expected '%s'", what.c_str(), loaded.c_str(), w.c_str());
    std::string left; tree(r.dir + "/tmp", "", left); if (!left.empty()) c.fail("left-over", "%s: files left in the temporary directory:%s", what.c_str(), left.c_str());
}

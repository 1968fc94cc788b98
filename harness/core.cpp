#include "core.hpp"
#include <sse/crypto/utils.hpp>
#include <sodium.h>
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <unistd.h>

namespace pbt {
std::string hex(const void* p, size_t n, size_t max)
{
    static const char* H = "0123456789abcdef";
    const uint8_t* b = static_cast<const uint8_t*>(p);
    std::string s;
    for (size_t i = 0; i < n && i < max; i++) { s += H[b[i] >> 4]; s += H[b[i] & 15]; }
    if (n > max) s += "..(" + std::to_string(n) + "B)";
    return s;
}
Bytes unhex(const std::string& s)
{
    Bytes b;
    int hi = -1;
    for (char ch : s) {
        int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
        if (v < 0) continue;
        if (hi < 0) hi = v; else { b.push_back(uint8_t(hi * 16 + v)); hi = -1; }
    }
    return b;
}
const char* outcome_name(Outcome o)
{
    static const char* n[] = {"ok", "invalid_argument", "out_of_range", "runtime_error", "bad_alloc", "other std::exception", "non-standard exception"};
    return n[o];
}

// ------------------------------------------------------------------ RNG
static thread_local uint64_t g_rng_state = 1;
static thread_local unsigned g_rng_mode = 0;
static thread_local uint64_t g_rng_drawn = 0;
static const char* rng_name() { return "tape"; }
static uint32_t rng_random() { return uint32_t(splitmix(g_rng_state)); }
static void rng_stir() {}
static void rng_buf(void* const buf, const size_t size)
{
    uint8_t* o = static_cast<uint8_t*>(buf);
    g_rng_drawn += size;
    size_t i = 0;
    while (i < size) {
        uint64_t v = splitmix(g_rng_state);
        for (int j = 0; j < 8 && i < size; j++, i++) {
            uint8_t x = uint8_t(v >> (8 * j));
            if (g_rng_mode == 1 && (splitmix(g_rng_state) & 3)) x = 0;
            if (g_rng_mode == 2 && (splitmix(g_rng_state) & 3)) x = 0xff;
            o[i] = x;
        }
    }
}
static int rng_close() { return 0; }
static randombytes_implementation g_impl = {rng_name, rng_random, rng_stir, nullptr, rng_buf, rng_close};
void rng_install() { randombytes_set_implementation(&g_impl); }
void rng_seed(uint64_t s) { g_rng_state = s; g_rng_mode = 0; g_rng_drawn = 0; }
void rng_bias(unsigned m) { g_rng_mode = m; }
unsigned rng_bias_now() { return g_rng_mode; }
uint64_t rng_bytes_drawn() { return g_rng_drawn; }

__attribute__((weak)) bool prop_directed(uint64_t, Bytes&) { return false; }
__attribute__((weak)) void prop_case_end() {}

// ------------------------------------------------------------------ cases
static uint64_t g_seed = 1;

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}

static uint64_t g_giant = 0, g_long = 0, g_stride = 8; // the first cases of worker 0 are giant ones, those of worker 1 long ones
static Bytes make_tape(uint64_t idx)
{
    Bytes t;
    if (prop_directed(idx, t)) return t;
    uint64_t s = fnv(PROP_ID, strlen(PROP_ID)) ^ (g_seed * 0x9E3779B97F4A7C15ull);
    splitmix(s);
    s ^= idx * 0xD1B54A32D192ED03ull;
    splitmix(s);
    size_t n = prop_tape_len();
    t.resize(n);
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = splitmix(s);
        for (size_t j = 0; j < 8 && i + j < n; j++) t[i + j] = uint8_t(v >> (8 * j));
    }
    if (idx % g_stride == 0 && idx / g_stride < g_giant) for (size_t k = 0; k < 8 && k < n; k++) t[k] = uint8_t(Tape::giant_marker()[k]);
    if (idx % g_stride == 1 && idx / g_stride < g_long) for (size_t k = 0; k < 8 && k < n; k++) t[k] = uint8_t(Tape::long_marker()[k]);
    return t;
}

// returns the number of bytes consumed
static size_t run_tape(const Bytes& tape, Ctx& c)
{
    uint64_t h = fnv(tape.data(), tape.size());
    (void)h;
    // the tape's prefix seeds the RNG, so that truncation keeps it stable
    rng_seed(fnv(tape.data(), std::min<size_t>(tape.size(), 4)));
    // exact-size heap copy is not needed: Tape bounds itself
    Tape t(tape.data(), tape.size());
    prop_case(t, c);
    return std::min(t.pos(), tape.size());
}

struct Shared {
    volatile uint64_t cur;
    volatile uint64_t done;
    volatile int failed;   // 1: Failure thrown
    volatile int finished;
    char msg[4096];
};

static void on_timer(int)
{
    const char m[] = "pbt: CPU time limit for one case exceeded\n";
    ssize_t r = write(2, m, sizeof(m) - 1);
    (void)r;
    _exit(77);
}
static int g_case_cpu = 100;
static void arm(const Bytes* tape = nullptr)
{
    struct itimerval tv;
    memset(&tv, 0, sizeof(tv));
    tv.it_value.tv_sec = g_case_cpu;
    if (tape) { Tape t(tape->data(), tape->size()); if (t.giant() || t.longrun()) tv.it_value.tv_sec = 10 * g_case_cpu; }
    setitimer(ITIMER_PROF, &tv, nullptr);
}
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o;
}

// Runs one tape in a fresh child. Returns true when it fails; msg explains.
static std::string g_tmp;
static bool fails_child(const std::function<void(Shared*)>& body, std::string& msg, bool verbose)
{
    std::string ef = g_tmp + ".child";
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(sh, 0, sizeof *sh);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (!verbose) {
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); dup2(fd, 1);
        }
        signal(SIGPROF, on_timer);
        arm();
        int code = 0;
        try { prop_setup(); body(sh); }
        catch (const Failure& f) { strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1); sh->failed = 1; code = 3; }
        catch (const std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what()); sh->failed = 1; code = 3; }
        catch (...) { strcpy(sh->msg, "unexpected non-standard exception"); sh->failed = 1; code = 3; }
        sh->finished = 1;
        _exit(code);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    bool bad = sh->failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    // an out-of-memory kill is not evidence
    if (!sh->failed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) bad = false;
    if (bad) {
        if (sh->failed) msg = sh->msg;
        else {
            msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit code " + std::to_string(WEXITSTATUS(st));
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) msg = "one case used more than " + std::to_string(g_case_cpu) + " s of CPU time (does not terminate)";
            std::ifstream in(ef);
            std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            size_t k = all.find("ERROR: ");
            if (k == std::string::npos) k = all.find("runtime error");
            if (k == std::string::npos) k = all.find("WARNING: ThreadSanitizer");
            if (k != std::string::npos && k > 100) all = all.substr(k - 100);
            msg += ": " + all.substr(0, 1200);
        }
    }
    munmap(sh, sizeof *sh);
    unlink(ef.c_str());
    return bad;
}

static bool fails_in_child(const Bytes& tape, std::string& msg, bool verbose = false)
{
    return fails_child([&](Shared*) { arm(&tape); Ctx c; c.verbose = verbose; run_tape(tape, c); }, msg, verbose);
}
// The cases start, start+stride, ..., end in one process: for failures that
// need the history built up by earlier cases.
static bool fails_sequence(uint64_t start, uint64_t stride, uint64_t end, std::string& msg, bool verbose = false)
{
    return fails_child([&](Shared*) {
        for (uint64_t i = start; i <= end; i += stride) { Bytes t = make_tape(i); arm(&t); Ctx c; c.verbose = verbose && i == end; run_tape(t, c); }
    }, msg, verbose);
}

static Bytes shrink(Bytes t, std::string& msg, double budget, unsigned& attempts)
{
    double t0 = now();
    attempts = 0;
    auto ok = [&](const Bytes& cand) {
        if (now() - t0 > budget || attempts > 3000) return false;
        attempts++;
        std::string m;
        if (fails_in_child(cand, m)) { msg = m; t = cand; return true; }
        return false;
    };
    // trailing truncation
    for (size_t cut = t.size() / 2; cut >= 1; cut /= 2) {
        while (t.size() >= cut && t.size() > 0) {
            Bytes c(t.begin(), t.end() - cut);
            if (!ok(c)) break;
        }
    }
    bool improved = true;
    int rounds = 0;
    while (improved && rounds++ < 4 && now() - t0 < budget) {
        improved = false;
        for (size_t w : {16, 8, 4, 2, 1})
            for (size_t i = 0; i + w <= t.size();) {
                Bytes c = t;
                c.erase(c.begin() + i, c.begin() + i + w);
                if (ok(c)) improved = true; else i += w;
                if (now() - t0 > budget) break;
            }
        for (size_t w : {8, 4, 2, 1})
            for (size_t i = 0; i + w <= t.size(); i += w) {
                bool z = true;
                for (size_t j = 0; j < w; j++) z = z && t[i + j] == 0;
                if (z) continue;
                Bytes c = t;
                for (size_t j = 0; j < w; j++) c[i + j] = 0;
                if (ok(c)) improved = true;
            }
        for (size_t i = 0; i < t.size(); i++) {
            for (int d : {2, 1}) {
                while (t[i] > 0) {
                    Bytes c = t;
                    c[i] = d == 2 ? uint8_t(c[i] / 2) : uint8_t(c[i] - 1);
                    if (!ok(c)) break;
                    improved = true;
                }
            }
        }
        while (!t.empty() && t.back() == 0) { Bytes c(t.begin(), t.end() - 1); if (!ok(c)) break; }
    }
    return t;
}

static void write_replay(const std::string& path, const std::string& config, const Bytes& t, const std::string& msg, uint64_t idx, const std::string& kind)
{
    std::ofstream o(path);
    o << "{\"property\": \"" << PROP_ID << "\", \"config\": \"" << jesc(config) << "\", \"seed\": " << g_seed << ", \"case\": " << idx << ", \"kind\": \"" << kind
      << "\",\n \"tape\": \"" << hex(t.data(), t.size(), SIZE_MAX) << "\",\n \"message\": \"" << jesc(msg) << "\"}\n";
}
}

using namespace pbt;

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int*, char***) { prop_setup(); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    Bytes t(d, d + n);
    Ctx c;
    try { run_tape(t, c); }
    catch (const Failure& f) { fprintf(stderr, "PBT-FAILURE: %s\n", f.msg.c_str()); __builtin_trap(); }
    return 0;
}
#else
int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "--serve" && prop_serve) return prop_serve();
    std::string out = "result.json", replay, replay_out = "replay.json", config = "?";
    uint64_t cases = 1000;
    int workers = 8;
    double budget = 300, shrink_budget = 60;
    bool verbose = false, seq = false;
    uint64_t q0 = 0, q1 = 1, q2 = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--shrink-budget") shrink_budget = atof(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--config") config = val();
        else if (a == "--giant") g_giant = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--long") g_long = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--case-cpu") g_case_cpu = atoi(val().c_str());
        else if (a == "--verbose") verbose = true;
        else if (a == "--sequence") { seq = true; q0 = strtoull(val().c_str(), nullptr, 10); q1 = strtoull(val().c_str(), nullptr, 10); q2 = strtoull(val().c_str(), nullptr, 10); }
    }
    g_tmp = out + ".tmp";
    g_stride = uint64_t(workers);
    if (!replay.empty()) { // a file holding the hex tape
        std::ifstream in(replay);
        std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        std::string msg;
        bool bad = false;
        for (int r = 0; r < (getenv("PBT_SCHED") ? 200 : 1) && !bad; r++) bad = fails_in_child(unhex(all), msg, verbose);
        printf("%s %s\n", bad ? "FAILS" : "PASSES", msg.c_str());
        return bad ? 1 : 0;
    }
    if (seq) {
        std::string msg;
        bool bad = fails_sequence(q0, q1, q2, msg, verbose);
        printf("%s %s\n", bad ? "FAILS" : "PASSES", msg.c_str());
        return bad ? 1 : 0;
    }
    double t0 = now();
    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(sh, 0, sizeof(Shared) * workers);
    volatile int* stop = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(workers);
    for (int w = 0; w < workers; w++) {
        pids[w] = fork();
        if (pids[w] == 0) {
            std::string wf = g_tmp + ".w" + std::to_string(w);
            int fd = open((wf + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); dup2(fd, 1);
            signal(SIGPROF, on_timer);
            std::unordered_set<uint64_t> seen;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            uint64_t evals = 0, nontriv = 0;
            int code = 0;
            try {
                sh[w].cur = w;
                prop_setup();
                for (uint64_t i = w; i < cases; i += workers) {
                    if (*stop || now() - t0 > budget) break;
                    sh[w].cur = i;
                    Bytes t = make_tape(i);
                    arm(&t);
                    Ctx c;
                    size_t used = run_tape(t, c);
                    evals++;
                    for (auto& l : c.case_labels) labels[l]++;
                    if (c.nontriv) {
                        nontriv++;
                        seen.insert(fnv(t.data(), used));
                        uint64_t h = i * 2654435761u;
                        if (samples.size() < 3 || (h % 97) == 0) {
                            if (samples.size() < 3) samples.push_back(c.desc);
                            else samples[h / 97 % 3] = c.desc;
                        }
                    }
                    sh[w].done = evals;
                }
                sh[w].finished = 1;
            }
            catch (const Failure& f) { strncpy(sh[w].msg, f.msg.c_str(), sizeof(sh[w].msg) - 1); sh[w].failed = 1; code = 3; }
            catch (const std::exception& e) { snprintf(sh[w].msg, sizeof sh[w].msg, "unexpected exception: %s", e.what()); sh[w].failed = 1; code = 3; }
            catch (...) { strcpy(sh[w].msg, "unexpected non-standard exception"); sh[w].failed = 1; code = 3; }
            {
                std::ofstream o(wf);
                o << evals << " " << nontriv << " " << seen.size() << "\n";
                for (uint64_t h : seen) o << h << "\n";
                o << labels.size() << "\n";
                for (auto& l : labels) o << l.second << " " << l.first << "\n";
                o << samples.size() << "\n";
                for (auto& s : samples) o << jesc(s) << "\n";
            }
            fflush(nullptr);
            _exit(code);
        }
    }
    std::vector<uint64_t> failing;
    std::vector<std::string> failing_msg;
    for (int k = 0; k < workers; k++) {
        int st = 0;
        pid_t p;
        while ((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
        int w = int(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if (w >= workers) continue;
        if (sh[w].failed || !sh[w].finished || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            *stop = 1;
            failing.push_back(uint64_t(sh[w].cur));
            std::string m = sh[w].failed ? sh[w].msg : (WIFSIGNALED(st) ? "worker killed by signal " + std::to_string(WTERMSIG(st)) : "worker exit code " + std::to_string(WEXITSTATUS(st)));
            if (!sh[w].failed) {
                std::ifstream in(g_tmp + ".w" + std::to_string(w) + ".err");
                std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                m += ": " + all.substr(0, 1500);
            }
            failing_msg.push_back(m);
        }
    }
    // merge
    uint64_t evals = 0, nontriv = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    for (int w = 0; w < workers; w++) {
        std::string wf = g_tmp + ".w" + std::to_string(w);
        std::ifstream in(wf);
        uint64_t e = 0, n = 0, s = 0;
        if (in >> e >> n >> s) {
            evals += e; nontriv += n;
            for (uint64_t i = 0; i < s; i++) { uint64_t h; in >> h; seen.insert(h); }
            size_t L = 0; in >> L;
            for (size_t i = 0; i < L; i++) { uint64_t v; std::string name; in >> v; in.get(); std::getline(in, name); labels[name] += v; }
            in >> L; in.get();
            for (size_t i = 0; i < L; i++) { std::string x; std::getline(in, x); if (samples.size() < 12) samples.push_back(x); }
        } else evals += sh[w].done;
        unlink(wf.c_str());
        unlink((wf + ".err").c_str());
    }
    std::string status = "ok", vmsg;
    uint64_t fidx = 0;
    if (!failing.empty()) {
        // Confirm from the tape in fresh processes; prefer the first that reproduces.
        status = "unreproduced";
        vmsg = failing_msg[0];
        fidx = failing[0];
        for (size_t k = 0; k < failing.size() && status != "violation"; k++) {
            Bytes t = make_tape(failing[k]);
            std::string msg;
            int bad = 0;
            for (int r = 0; r < 5 && bad == 0; r++) bad += fails_in_child(t, msg) ? 1 : 0;
            if (!bad) continue;
            unsigned attempts = 0;
            std::string smsg = msg;
            Bytes m = shrink(t, smsg, shrink_budget, attempts);
            int again = 0;
            for (int r = 0; r < 3; r++) { std::string x; if (fails_in_child(m, x)) { again++; smsg = x; } }
            if (again == 0) { m = t; again = 0; for (int r = 0; r < 3; r++) { std::string x; if (fails_in_child(m, x)) { again++; smsg = x; } } }
            if (again == 0) continue;
            write_replay(replay_out, config, m, smsg, failing[k], "tape");
            status = "violation";
            vmsg = smsg + " [case " + std::to_string(failing[k]) + ", shrunk from " + std::to_string(t.size()) + " to " + std::to_string(m.size()) + " tape bytes in "
                   + std::to_string(attempts) + " attempts, reproduced " + std::to_string(again) + "/3]";
            fidx = failing[k];
        }
        for (size_t k = 0; k < failing.size() && status != "violation"; k++) {
            uint64_t W = uint64_t(workers), end = failing[k], start = end % W;
            std::string msg;
            if (!fails_sequence(start, W, end, msg)) continue;
            double s0 = now();
            uint64_t n = (end - start) / W; // number of preceding cases kept
            while (n > 0 && now() - s0 < shrink_budget) {
                std::string x;
                if (fails_sequence(end - (n / 2) * W, W, end, x)) { n /= 2; msg = x; } else break;
            }
            start = end - n * W;
            int again = 0;
            for (int r = 0; r < 3; r++) { std::string x; if (fails_sequence(start, W, end, x)) { again++; msg = x; } }
            if (again == 0) continue;
            std::ofstream ro(replay_out);
            ro << "{\"property\": \"" << PROP_ID << "\", \"config\": \"" << jesc(config) << "\", \"seed\": " << g_seed << ", \"kind\": \"sequence\", \"start\": " << start
               << ", \"stride\": " << W << ", \"end\": " << end << ",\n \"message\": \"" << jesc(msg) << "\"}\n";
            status = "violation";
            fidx = end;
            vmsg = msg + " [needs the history of cases " + std::to_string(start) + ".." + std::to_string(end) + " step " + std::to_string(W) + ", reproduced " + std::to_string(again) + "/3]";
        }
        // What depends on the schedule may need many attempts to be seen again. A wrong result or a data race seen once was
        // still seen: neither the load of the machine nor a lack of memory produces one.
        bool sched = getenv("PBT_SCHED") != nullptr;
        for (size_t k = 0; sched && k < failing.size() && status != "violation"; k++) {
            Bytes t = make_tape(failing[k]);
            std::string msg = failing_msg[k];
            bool wrong = false;
            for (const char* w : {"a result differs", "handed out twice", "data race", "the same key pair", "does not invert", "does not survive"}) wrong = wrong || msg.find(w) != std::string::npos;
            int tries = 0, again = 0;
            for (double s0 = now(); tries < 60 && now() - s0 < 30 && again == 0; tries++) { std::string x; if (fails_in_child(t, x)) { again++; msg = x; } }
            if (!wrong && again == 0) continue;
            write_replay(replay_out, config, t, msg, failing[k], "tape");
            status = "violation";
            fidx = failing[k];
            vmsg = msg + " [case " + std::to_string(failing[k]) + ", depends on the schedule: seen again " + std::to_string(again) + " time(s) in " + std::to_string(tries) + " attempts]";
        }
    }
    std::ofstream o(out);
    o << "{\"status\": \"" << status << "\", \"message\": \"" << jesc(vmsg) << "\", \"case\": " << fidx << ", \"evaluations\": " << evals << ", \"nontrivial\": " << nontriv
      << ", \"distinct_nontrivial\": " << seen.size() << ", \"rule\": \"" << jesc(PROP_RULE) << "\", \"wall_s\": " << (now() - t0) << ", \"complete\": " << (evals >= cases ? "true" : "false")
      << ", \"labels\": {";
    bool first = true;
    for (auto& l : labels) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    o << "}, \"samples\": [";
    first = true;
    for (auto& s : samples) { o << (first ? "" : ", ") << "\"" << s << "\""; first = false; }
    o << "]}\n";
    return status == "violation" ? 1 : 0;
}
#endif

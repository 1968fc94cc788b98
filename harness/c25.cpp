// Several threads, each running its own generated program on its own objects,
// against the same programs run alone; built once with ThreadSanitizer.
#include "lib.hpp"
#include "prog.hpp"
#include <sse/crypto/tdp.hpp>
#include <atomic>
#include <map>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pbt;
const char* pbt::PROP_ID = "C25";
const char* pbt::PROP_RULE = "at least two threads whose programs each made at least two different kinds of call";
size_t pbt::prop_tape_len() { return 500; }
bool pbt::prop_directed(uint64_t, Bytes&) { return false; }
static bool g_ready = false;
void pbt::prop_setup() { warm_up(); }
static void ready() { if (!g_ready) { lib_init_real_rng(); g_ready = true; } }

struct Job { Bytes tape; unsigned rounds; std::vector<Program> runs; std::string err; };
static Program alone(const Bytes& tape)
{
    Tape t(tape.data(), tape.size());
    Program p;
    p.light = true;
    p.collect_randoms = true;
    run_program(t, p);
    return p;
}
static void work(Job& j, std::atomic<unsigned>& gate, unsigned n)
{
    gate++;
    while (gate < n) std::this_thread::yield();
    try { for (unsigned i = 0; i < j.rounds; i++) j.runs.push_back(alone(j.tape)); }
    catch (const Failure& f) { j.err = f.msg; }
    catch (const std::exception& e) { j.err = std::string("unexpected exception: ") + e.what(); }
    catch (...) { j.err = "unexpected non-standard exception"; }
}
static std::string difference(const std::string& a, const std::string& b)
{
    std::istringstream x(a), y(b);
    std::string p, q;
    for (;;) {
        bool m = bool(std::getline(x, p)), n = bool(std::getline(y, q));
        if (!m || !n) return "length";
        if (p != q) return p.substr(0, 200) + "  |  " + q.substr(0, 200);
    }
}
// returns what went wrong, or an empty string
static std::string go(std::vector<Job>& jobs)
{
    ready();
    size_t before = track::live_count();
    std::atomic<unsigned> gate(0);
    std::vector<std::thread> th;
    for (auto& j : jobs) th.emplace_back(work, std::ref(j), std::ref(gate), unsigned(jobs.size()));
    for (auto& t : th) t.join();
    std::map<std::string, std::string> seen;
    for (size_t i = 0; i < jobs.size(); i++) {
        Job& j = jobs[i];
        if (!j.err.empty()) return "thread " + std::to_string(i) + ": " + j.err;
        Program ref = alone(j.tape);
        j.runs.push_back(ref);
        for (size_t k = 0; k < j.runs.size(); k++) {
            if (j.runs[k].transcript != ref.transcript)
                return "thread " + std::to_string(i) + " of " + std::to_string(jobs.size()) + ", round " + std::to_string(k) + ": a result differs from the same program run alone: " + difference(j.runs[k].transcript, ref.transcript);
            for (size_t m = 0; m < j.runs[k].randoms.size(); m++) {
                std::string where = "thread " + std::to_string(i) + " round " + std::to_string(k) + " value " + std::to_string(m);
                auto r = seen.emplace(j.runs[k].randoms[m].substr(0, 16), where);
                if (!r.second) return "a random value was handed out twice: " + r.first->second + " and " + where + ": " + hex(j.runs[k].randoms[m]);
            }
        }
    }
    if (!track::errors().empty()) return track::errors();
    if (track::live_count() != before) return "secure memory left behind: " + std::to_string(track::live_count()) + " regions against " + std::to_string(before);
    return "";
}
// key pairs generated at the same time
static void keygen_case(Tape& t, Ctx& c)
{
    ready();
    unsigned n = 2 + t.pick(2);
    std::vector<std::string> err(n), pk(n);
    std::atomic<unsigned> gate(0);
    std::vector<std::thread> th;
    for (unsigned i = 0; i < n; i++) th.emplace_back([&, i] {
        gate++;
        while (gate < n) std::this_thread::yield();
        try {
            TdpInverse s;
            std::string x = s.sample();
            if (s.eval(s.invert(x)) != x || s.invert(s.eval(x)) != x) err[i] = "a key generated beside others does not invert its evaluation";
            pk[i] = s.public_key();
            TdpInverse copy(s.private_key());
            if (copy.public_key() != pk[i] || copy.invert(x) != s.invert(x)) err[i] = "a key generated beside others does not survive its export";
        } catch (const std::exception& e) { err[i] = std::string("key generation failed: ") + e.what(); }
    });
    for (auto& x : th) x.join();
    for (auto& e : err) if (!e.empty()) fail(e);
    CHECK(std::set<std::string>(pk.begin(), pk.end()).size() == n, "two threads generated the same key pair");
    c.label("key pairs");
    c.nontrivial(true);
    c.note(n, " threads generate a key pair each");
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    if (t.giant()) return keygen_case(t, c);
    unsigned n = 2 + t.pick(5), rounds = 1 + t.pick(4);
    bool fresh = t.pick(3) == 0, same = t.pick(3) == 0;
    std::vector<Job> jobs(n);
    Bytes first;
    for (unsigned i = 0; i < n; i++) {
        Bytes b;
        if (t.pick(4)) { // expanded from four bytes
            uint64_t s = t.raw(4);
            while (b.size() < 300) { uint64_t v = splitmix(s); for (int k = 0; k < 8; k++) b.push_back(uint8_t(v >> (8 * k))); }
        } else { // literal
            size_t len = 20 + t.pick(80);
            for (size_t k = 0; k < len; k++) b.push_back(t.u8());
        }
        if (i == 0) first = b;
        jobs[i].tape = same ? first : b; // the same program in every thread: the same code at the same time
        jobs[i].rounds = rounds;
    }
    c.note(n, " threads x ", rounds, " rounds", same ? " of one program" : "", fresh ? ", in a fresh process" : "");
    std::string bad;
    if (fresh) {
        // a process in which no library call has been made yet
        int fd[2];
        if (pipe(fd)) fail("pipe");
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            std::string m = go(jobs);
            m.resize(std::min<size_t>(m.size(), 3000));
            ssize_t w = write(fd[1], m.data(), m.size());
            (void)w;
            _exit(m.empty() ? 0 : 1);
        }
        close(fd[1]);
        char buf[4096];
        ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0) bad.append(buf, size_t(k));
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        if (bad.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            bad = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 66 ? "the sanitizer reported an error (data race)" : "exit " + std::to_string(WEXITSTATUS(st));
        c.label("fresh process");
        c.nontrivial(n >= 2);
    } else {
        bad = go(jobs);
        unsigned busy = 0;
        for (auto& j : jobs) if (!j.runs.empty()) {
            std::set<std::string> kinds(j.runs[0].ops.begin(), j.runs[0].ops.end());
            busy += kinds.size() >= 2;
            for (auto& k : kinds) c.label(k);
            std::string l;
            for (auto& o : j.runs[0].ops) if (l.size() < 60) l += o + " ";
            c.note(l);
        }
        c.nontrivial(busy >= 2);
    }
    if (!bad.empty()) fail(bad);
}

// The same generated program in several builds of the library: this executable,
// built in one configuration, runs it here and hands the tape to the others
// (PBT_SERVERS), which run it with --serve; the transcripts have to agree.
#include "lib.hpp"
#include "prog.hpp"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
const char* pbt::PROP_ID = "C23";
const char* pbt::PROP_RULE = "a program with at least two different kinds of call, at least one of which returned data, run to its end in every build";
size_t pbt::prop_tape_len() { return 400; }
bool pbt::prop_directed(uint64_t, Bytes&) { return false; }

static std::string transcript(const uint8_t* d, size_t n, Program* keep = nullptr)
{
    Tape t(d, n);
    Program p;
    rng_seed(12345);
    run_program(t, p);
    std::string s = p.transcript;
    if (keep) *keep = p;
    return s;
}
static bool read_all(int fd, void* p, size_t n, int timeout_ms)
{
    char* c = static_cast<char*>(p);
    while (n) {
        if (timeout_ms) {
            struct pollfd f = {fd, POLLIN, 0};
            int r = poll(&f, 1, timeout_ms);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) return false;
        }
        ssize_t k = read(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k; n -= size_t(k);
    }
    return true;
}
static bool write_all(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k; n -= size_t(k);
    }
    return true;
}
int pbt::prop_serve()
{
    lib_init_tape_rng();
    for (;;) {
        uint32_t n = 0;
        if (!read_all(0, &n, 4, 0)) return 0;
        Bytes t(n);
        if (!read_all(0, t.data(), n, 0)) return 0;
        std::string s = transcript(t.data(), n);
        n = uint32_t(s.size());
        if (!write_all(1, &n, 4) || !write_all(1, s.data(), n)) return 0;
    }
}
struct Server { std::string name, path; pid_t pid = -1; int in = -1, out = -1; };
static std::vector<Server> g_servers;
static void start(Server& s, unsigned idx)
{
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
    s.pid = fork();
    if (s.pid == 0) {
        signal(SIGPROF, SIG_IGN);
        dup2(a[0], 0); dup2(b[1], 1);
        setenv("MALLOC_PERTURB_", std::to_string(37 * (idx + 1) & 255).c_str(), 1);
        execl(s.path.c_str(), s.path.c_str(), "--serve", static_cast<char*>(nullptr));
        _exit(127);
    }
    close(a[0]); close(b[1]);
    s.in = a[1]; s.out = b[0];
}
void pbt::prop_setup()
{
    signal(SIGPIPE, SIG_IGN);
    lib_init_tape_rng();
    std::istringstream in(getenv("PBT_SERVERS") ? getenv("PBT_SERVERS") : "");
    std::string item;
    while (std::getline(in, item, ';')) {
        size_t e = item.find('=');
        if (e == std::string::npos) continue;
        Server s;
        s.name = item.substr(0, e);
        s.path = item.substr(e + 1);
        g_servers.push_back(s);
    }
    if (g_servers.empty()) throw std::runtime_error("no PBT_SERVERS");
    for (unsigned i = 0; i < g_servers.size(); i++) start(g_servers[i], i);
}
static std::string first_difference(const std::string& a, const std::string& b)
{
    std::istringstream x(a), y(b);
    std::string p, q;
    for (unsigned line = 1;; line++) {
        bool m = bool(std::getline(x, p)), n = bool(std::getline(y, q));
        if (!m && !n) return "(no difference)";
        if (!m) p = "(end)";
        if (!n) q = "(end)";
        if (p != q) {
            size_t k = 0;
            while (k < p.size() && k < q.size() && p[k] == q[k]) k++;
            k = k > 60 ? k - 60 : 0;
            return "call " + std::to_string(line) + " (" + p.substr(0, p.find(' ')) + "): \"" + p.substr(k, 160) + "\" against \"" + q.substr(k, 160) + "\"";
        }
    }
}
void pbt::prop_case(Tape& t, Ctx& c)
{
    Bytes tape = t.rest();
    uint32_t n = uint32_t(tape.size());
    for (auto& s : g_servers)
        if (!write_all(s.in, &n, 4) || !write_all(s.in, tape.data(), n)) fail("the build ", s.name, " does not take the program");
    Program p;
    std::string mine = transcript(tape.data(), n, &p);
    std::set<std::string> kinds(p.ops.begin(), p.ops.end());
    bool data = mine.find(':') != std::string::npos;
    for (auto& s : g_servers) {
        uint32_t k = 0;
        std::string theirs;
        if (!read_all(s.out, &k, 4, 120000)) {
            int st = 0;
            pid_t w = waitpid(s.pid, &st, WNOHANG);
            for (int i = 0; i < 100 && w == 0; i++) { usleep(10000); w = waitpid(s.pid, &st, WNOHANG); }
            if (w == 0) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); }
            fail("the program runs to its end in this build, but in the build ", s.name, " it ", w == 0 ? "does not end" : WIFSIGNALED(st) ? "is stopped by signal " + std::to_string(WTERMSIG(st)) : "exits " + std::to_string(WEXITSTATUS(st)), "; calls: ", mine.substr(0, 300));
        }
        theirs.resize(k);
        if (!read_all(s.out, &theirs[0], k, 120000)) fail("the build ", s.name, " stops answering");
        if (theirs != mine) fail("this build and the build ", s.name, " differ in ", first_difference(mine, theirs));
    }
    for (auto& o : p.ops) c.label(o);
    std::string l;
    for (auto& o : p.ops) if (l.size() < 300) l += o + " ";
    c.note(l, "(", mine.size(), " bytes of transcript)");
    c.nontrivial(kinds.size() >= 2 && data);
}

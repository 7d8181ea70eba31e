// algmain: reads calls (JSON lines) from the file named, writes them back with
// the library's answers.  A crash or a hang (20 s) ends the output with a
// record of the call.
#include <csignal>
#include <fstream>
#include <unistd.h>
#include "alg.hpp"

static std::string current = "null";
static void on_crash(int s)
{
    char buf[40];
    int n = snprintf(buf, sizeof buf, "{\"crash\":%d,\"cmd\":", s);
    (void)!write(1, buf, n); (void)!write(1, current.data(), current.size()); (void)!write(1, "}\n", 2);
    _exit(0);
}
int main(int argc, char **argv)
{
    static char stack[1 << 16];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
    {
        struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
    }
    std::ifstream in(argv[1]);
    std::string line, res;
    // what the library prints on its own goes nowhere
    std::ostream null(nullptr); auto *keep = std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        current = line;
        js::Val c = js::parse(line), out = js::Val::obj(), err = js::Val::obj();
        auto h = alg::handlers().find(c.str("k"));
        if (h == alg::handlers().end()) { res = "{\"crash\":0,\"cmd\":" + line + "}\n"; (void)!write(1, res.data(), res.size()); return 1; }
        alarm(20);
        h->second(c, out, err);
        alarm(0);
        c.set("out", out).set("err", err);
        res = c.dump() + "\n";
        for (size_t o = 0; o < res.size(); ) { ssize_t w = write(1, res.data() + o, res.size() - o); if (w <= 0) return 2; o += w; }
    }
    (void)keep;
    return 0;
}

// The same history under the old and under the current names, each in its own process.
#ifndef VERIF_DEPRECATED_CHILD_H
#define VERIF_DEPRECATED_CHILD_H
#include "deprecated.h"
#include <iostream>
#include <fstream>
#include <algorithm>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
using std::string; using std::vector;
namespace dep { static void (*g_child)() = nullptr; }                            // run first in a child
struct Script { vector<int> made; size_t at = 0; int choose(int n, const char*) { int v = at < made.size() ? made[at] : 0; ++at; return v % n; } };
struct Out
{
  vector<string> v; template <typename T> Out& operator<<(const T& t) { v.push_back(dep::repr(t)); return *this; }
  string text() const { string r; for (auto& s : v) r += s + "\n"; return r; }
};
typedef string (*Body)(Script&);
// one body in a child; its transcript, what it printed and how it ended
static string inChild(Body b, const vector<int>& choices)
{
  int p[2]; if (pipe(p)) mc::fail("environment", "pipe");
  pid_t pid = fork(); if (pid < 0) mc::fail("environment", "fork");
  if (!pid)
  {
    close(p[0]); if (chdir(mc::scratch().c_str())) { } for (auto f : { "out", "err", "qd", "log" }) unlink(f);
    int o = open("out", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), e = open("err", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(o, 1); dup2(e, 2);
    if (dep::g_child) dep::g_child(); alarm(20);
    Script s; s.made = choices; string r = dep::outcome([&] { return b(s); }); std::cout.flush(); std::cerr.flush(); fflush(stdout);
    auto slurp = [](const char* f) { std::ifstream i(f); return string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); };
    r += "\nstandard output " + dep::repr(slurp("out")) + "\nstandard error " + dep::repr(slurp("err")) + "\nquick debug " + dep::repr(slurp("qd")) + "\n";
    for (size_t n = 0; n < r.size();) { ssize_t w = write(p[1], r.data() + n, r.size() - n); if (w <= 0) break; n += size_t(w); }
    _exit(0);
  }
  close(p[1]); string r; char buf[4096]; for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) r.append(buf, size_t(n));
  close(p[0]); int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) { r += mc::format("ended by signal %d (%s)\n", WTERMSIG(st), strsignal(WTERMSIG(st))); }
  else if (WEXITSTATUS(st)) r += mc::format("ended with status %d\n", WEXITSTATUS(st));
  return r;
}
static void both(Body a, Body b, const char* key, const std::vector<int>& arities)
{
  vector<int> c; for (int n : arities) c.push_back(mc::choose(n, "choice"));
  string x = inChild(a, c), y = inChild(b, c);
  if (x != y)
  {
    std::istringstream p(x), q(y); string l, k; int n = 0; while (std::getline(p, l), std::getline(q, k), p && q && l == k) ++n;
    size_t d = 0; while (d < k.size() && d < l.size() && k[d] == l[d]) ++d; d = d > 60 ? d - 60 : 0;
    mc::fail(key, "observation %d: the compatibility name yields %.300s, the current name %.300s", n, k.c_str() + d, l.c_str() + d);
  }
  if (mc::tracing()) mc::trace("%s", x.c_str());
  mc::transition(uint64_t(std::count(x.begin(), x.end(), '\n'))); mc::state(mc::hashStr(x));
}
#endif

#include "mc.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <set>
#include <ftw.h>

namespace mc {

static const int MAXDEPTH = 1 << 16;
static const int MAXW = 64;
static const int JOBCAP = 1024;
static const int JOBDEPTH = 4096;
static const uint32_t STATECAP = 1u << 22;

struct Worker
{
  volatile int pid;
  volatile int running;                 // an execution is in progress
  volatile double started;
  volatile int len;                     // choices made so far in this execution
  volatile int prefix;                  // forced prefix length of this execution
  uint16_t chosen[MAXDEPTH];
  uint16_t nalt[MAXDEPTH];
  std::atomic<uint64_t> execs, choices, trans, pruned, maxdepth;
};

struct Job { int len; uint16_t c[JOBDEPTH]; };

struct Shared
{
  pthread_mutex_t mu;
  int njobs;
  int pending;                          // queued + running jobs
  volatile int stop;                    // stop exploring
  volatile int viol;                    // violation recorded
  int viol_worker;
  int viol_len;
  uint16_t viol_choices[MAXDEPTH];
  char viol_key[128];
  char viol_msg[4096];
  volatile int engine_error;
  char engine_msg[512];
  std::atomic<uint64_t> known_hits[64];
  std::atomic<uint64_t> nstates;
  std::atomic<uint64_t> noutcomes;
  Worker w[MAXW];
  Job jobs[JOBCAP];
  std::atomic<uint64_t> states[STATECAP];
  std::atomic<uint64_t> outcomes[1 << 16];
  std::atomic<uint64_t> nvisited;
  std::atomic<uint64_t> visited[STATECAP];
};

static Shared* S;
static Worker* W;                       // this process's worker slot
static int g_nworkers = 8;
static bool g_thorough = false;
static bool g_tracing = false;
static bool g_in_exec = false;
static bool g_replay = false;
static int g_bound = 0;
static FILE* g_trace_out = nullptr;
static std::string g_scratch, g_scratch_root;
static std::vector<std::string> g_known;
static Scenario* g_scn = nullptr;
static double g_deadline = 0;
static bool g_fork_child = false;
void (*escape_hook)() = nullptr;

static double now()
{
  timespec ts; clock_gettime(CLOCK_MONOTONIC_RAW, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

void* sharedAlloc(size_t bytes)
{
  void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

bool thorough() { return g_thorough; }
bool tracing() { return g_tracing; }
int bound() { return g_bound; }
const std::string& scratch() { return g_scratch; }
const std::string& scenarioName() { static std::string none; return g_scn ? g_scn->name : none; }
bool usingFork() { return g_fork_child; }

std::string format(const char* fmt, ...)
{
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}
std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (r.size() > 200) { r += format("...(%zu bytes)", s.size()); break; }
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) r += format("\\x%02x", c);
    else r += char(c);
  }
  return r + "\"";
}

static void engineError(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void engineError(const char* fmt, ...)
{
  char buf[400]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!S->engine_error) { S->engine_error = 1; strncpy(S->engine_msg, buf, sizeof(S->engine_msg) - 1); }
  S->stop = 1;
  if (g_trace_out) { fprintf(g_trace_out, "ENGINE ERROR: %s\n", buf); fflush(g_trace_out); }
  _exit(3);
}

int choose(int n, const char* label)
{
  if (!g_in_exec) engineError("choose() outside an execution");
  if (n <= 0 || n > 65535) engineError("choose(%d) at %s", n, label ? label : "?");
  if (n == 1) return 0;
  int i = W->len;
  if (i >= MAXDEPTH) engineError("execution too deep");
  int c;
  if (i < W->prefix)
  {
    c = W->chosen[i];
    if (W->nalt[i] != 0xffff && W->nalt[i] != n && !g_replay)
      engineError("divergence at choice %d (%s): %d alternatives, expected %d [scenario %s]", i,
                  label ? label : "?", n, int(W->nalt[i]), scenarioName().c_str());
    if (c >= n)
    {
      engineError("divergence at choice %d (%s): choice %d of %d [scenario %s]", i, label ? label : "?",
                  c, n, scenarioName().c_str());
    }
    if (W->nalt[i] == 0xffff) W->nalt[i] = uint16_t(n);
  }
  else
  {
    c = 0;
    W->chosen[i] = 0;
    W->nalt[i] = uint16_t(n);
  }
  W->len = i + 1;
  return c;
}

void trace(const char* fmt, ...)
{
  if (!g_tracing || !g_trace_out) return;
  va_list ap; va_start(ap, fmt); vfprintf(g_trace_out, fmt, ap); va_end(ap);
  fputc('\n', g_trace_out); fflush(g_trace_out);
}

bool replaying() { return !g_replay && W && W->len < W->prefix; }
void transition(uint64_t n) { if (W) W->trans += n; }

static bool hashInsert(std::atomic<uint64_t>* tab, uint32_t cap, std::atomic<uint64_t>& cnt, uint64_t h)
{
  if (h == 0) h = 1;
  if (cnt > uint64_t(cap) * 3 / 4) return false;
  uint32_t i = uint32_t(h * 0x9e3779b97f4a7c15ull >> 32) & (cap - 1);
  for (;;)
  {
    uint64_t v = tab[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0)
    {
      uint64_t e = 0;
      if (tab[i].compare_exchange_strong(e, h)) { cnt++; return true; }
      if (e == h) return false;
    }
    i = (i + 1) & (cap - 1);
  }
}
void state(uint64_t h) { hashInsert(S->states, STATECAP, S->nstates, h); }
void dedup(uint64_t h, int remaining)
{
  state(h);
  if (g_replay || W->len < W->prefix) return;
  uint64_t before = S->nvisited;
  if (before > uint64_t(STATECAP) / 2) return;
  if (!hashInsert(S->visited, STATECAP, S->nvisited, mix(h, uint64_t(remaining) + 77))) prune();
}
void outcome(const std::string& s)
{
  hashInsert(S->outcomes, 1 << 16, S->noutcomes, hashStr(s));
  trace("OUTCOME %s", s.c_str());
}

static int knownIndex(const char* key)
{
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i] == key) return int(i);
  return -1;
}

static void recordViolation(const char* key, const char* msg, Worker* w)
{
  pthread_mutex_lock(&S->mu);
  if (!S->viol)
  {
    S->viol_worker = int(w - S->w);
    S->viol_len = w->len;
    for (int i = 0; i < w->len; ++i) S->viol_choices[i] = w->chosen[i];
    snprintf(S->viol_key, sizeof S->viol_key, "%s", key);
    snprintf(S->viol_msg, sizeof S->viol_msg, "%s", msg);
    S->viol = 1;
    S->stop = 1;
  }
  pthread_mutex_unlock(&S->mu);
}

void fail(const char* key, const char* fmt, ...)
{
  char buf[3500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (g_replay)
  {
    if (g_trace_out) { fprintf(g_trace_out, "VIOLATED %s: %s\n", key, buf); fflush(g_trace_out); }
    if (!S->viol) recordViolation(key, buf, W);
    _exit(1);
  }
  int k = knownIndex(key);
  if (k < 0)
  {
    recordViolation(key, buf, W);
    _exit(0);
  }
  S->known_hits[k]++;
  if (g_fork_child) { _exit(0); }
  if (escape_hook) escape_hook();
  throw Violation();
}

void prune()
{
  W->pruned++;
  if (g_replay || g_fork_child) _exit(0);
  if (escape_hook) escape_hook();
  throw Abandon();
}

static int rmcb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void rmTree(const std::string& d) { if (d.size() > 8) nftw(d.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS); }

static void runBody()
{
  W->len = 0;
  g_in_exec = true;
  try { g_scn->body(); }
  catch (Violation&) { }
  catch (Abandon&) { }
  g_in_exec = false;
}

// One execution, honouring W->chosen[0..prefix)
static void execOnce()
{
  W->started = now();
  W->running = 1;
  if (g_scn->fork_each && !g_replay)
  {
    pid_t p = fork();
    if (p < 0) engineError("fork: %s", strerror(errno));
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      g_fork_child = true;
      runBody();
      _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      if (S->engine_error) _exit(3);
      _exit(77);   // parent treats worker death as a crash of the current execution
    }
    if (S->viol) _exit(0);
  }
  else
  {
    runBody();
  }
  W->running = 0;
  W->execs++;
  W->choices += uint64_t(W->len);
  if (uint64_t(W->len) > W->maxdepth) W->maxdepth = uint64_t(W->len);
}

static bool g_keep_stderr = false;      // while a pass is repeated because a process died

static void workerMain(int idx)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  W = &S->w[idx];
  g_scratch = g_scratch_root + format("/w%d", idx);
  mkdir(g_scratch.c_str(), 0777);
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
  if (g_keep_stderr)
  {
    int ef = open((g_scratch_root + format("/stderr%d", idx)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(ef, 2);
  }
  for (;;)
  {
    static Job j;
    bool got = false;
    pthread_mutex_lock(&S->mu);
    if (S->stop || S->pending == 0) { pthread_mutex_unlock(&S->mu); _exit(0); }
    if (S->njobs > 0) { --S->njobs; j.len = S->jobs[S->njobs].len; memcpy(j.c, S->jobs[S->njobs].c, sizeof(uint16_t) * size_t(j.len)); got = true; }
    pthread_mutex_unlock(&S->mu);
    if (!got) { usleep(500); continue; }
    int base = j.len;
    for (int i = 0; i < base; ++i) { W->chosen[i] = j.c[i]; W->nalt[i] = 0xffff; }
    W->prefix = base;
    for (;;)
    {
      execOnce();
      if (S->stop) _exit(0);
      if (W->len < W->prefix) engineError("divergence: execution ended after %d choices, prefix %d [scenario %s]", W->len, W->prefix, scenarioName().c_str());
      if (now() > g_deadline) { S->stop = 2; _exit(0); }
      // donate work
      if (S->njobs < g_nworkers)
      {
        int i = base;
        while (i < W->len && W->chosen[i] + 1 >= W->nalt[i]) ++i;
        if (i < W->len && i + 1 < JOBDEPTH)
        {
          pthread_mutex_lock(&S->mu);
          // hand out the untried alternatives of the shallowest open choice, deepest last
          while (W->nalt[i] > W->chosen[i] + 1 && S->njobs < JOBCAP)
          {
            Job& q = S->jobs[S->njobs++];
            q.len = i + 1;
            for (int k = 0; k < i; ++k) q.c[k] = W->chosen[k];
            q.c[i] = uint16_t(W->nalt[i] - 1);
            W->nalt[i] = uint16_t(W->nalt[i] - 1);
            ++S->pending;
          }
          pthread_mutex_unlock(&S->mu);
          // positions before i are exhausted for this job; forbid divergence checks on the donated one
          for (int k = base; k <= i; ++k) { }
          // everything at or above i is now exhausted here
          base = i + 1 > base ? i + 1 : base;
          for (int k = 0; k < base; ++k) W->nalt[k] = 0xffff;
          if (W->len < base) base = W->len;
        }
      }
      int i = W->len - 1;
      while (i >= base && W->chosen[i] + 1 >= W->nalt[i]) --i;
      if (i < base) break;
      W->chosen[i]++;
      W->prefix = i + 1;
    }
    pthread_mutex_lock(&S->mu);
    --S->pending;
    pthread_mutex_unlock(&S->mu);
  }
}

struct PassResult { bool complete = false; bool viol = false; uint64_t execs = 0, choices = 0, trans = 0, pruned = 0, maxdepth = 0, states = 0, outcomes = 0; double secs = 0; };

struct ReplayResult { bool violated = false, crashed = false, hung = false; std::string key, msg, trace; };

static std::string slurp(const std::string& f, size_t cap = 200000)
{
  std::string r; FILE* fp = fopen(f.c_str(), "r"); if (!fp) return r;
  char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < cap) r.append(b, n);
  fclose(fp); return r;
}

// Runs one execution with a given choice vector in a fresh process, tracing.
static ReplayResult replay(const std::vector<uint16_t>& ch, int timeout_s)
{
  ReplayResult r;
  std::string tf = g_scratch_root + "/trace", ef = g_scratch_root + "/stderr";
  S->viol = 0; S->stop = 0; S->engine_error = 0;
  Worker* w = &S->w[MAXW - 1];
  w->prefix = int(ch.size());
  for (size_t i = 0; i < ch.size(); ++i) { w->chosen[i] = ch[i]; w->nalt[i] = 0xffff; }
  fflush(stdout);
  pid_t p = fork();
  if (p == 0)
  {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    W = w;
    g_replay = true; g_tracing = true;
    g_trace_out = fopen(tf.c_str(), "w");
    static char tbuf[1 << 16]; if (g_trace_out) setvbuf(g_trace_out, tbuf, _IOFBF, sizeof tbuf);
    g_scratch = g_scratch_root + "/replay";
    rmTree(g_scratch);
    mkdir(g_scratch.c_str(), 0777);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
    int ff = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(ff, 2);
    rlimit rl; rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
    execOnce();
    fflush(g_trace_out);
    _exit(0);
  }
  double t0 = now(); int st = 0; bool done = false;
  while (now() - t0 < timeout_s)
  {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) { done = true; break; }
    usleep(2000);
  }
  if (!done) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); r.hung = true; }
  r.trace = slurp(tf);
  std::string err = slurp(ef, 20000);
  if (r.hung) { r.violated = true; r.key = "hang"; r.msg = "execution did not terminate"; }
  else if (S->viol) { r.violated = true; r.key = S->viol_key; r.msg = S->viol_msg; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.key = "engine"; r.msg = S->engine_msg; }
  else if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0)))
  {
    r.violated = true; r.crashed = true; r.key = "crash";
    r.msg = WIFSIGNALED(st) ? format("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                            : format("process ended with status %d", WEXITSTATUS(st));
    // keep the informative sanitizer lines
    size_t pos = err.find("ERROR: "); if (pos == std::string::npos) pos = err.find("runtime error");
    if (pos != std::string::npos) r.msg += "; " + err.substr(pos, 600);
  }
  if (!err.empty()) r.trace += "--- stderr ---\n" + err;
  S->viol = 0; S->stop = 0;
  return r;
}

struct Report { std::string key, msg, trace; std::vector<uint16_t> choices; bool reproduced; };

static void clearCounters()
{
  for (int i = 0; i < MAXW; ++i)
  {
    Worker& w = S->w[i];
    w.pid = 0; w.running = 0; w.len = 0; w.prefix = 0;
    w.execs = 0; w.choices = 0; w.trans = 0; w.pruned = 0; w.maxdepth = 0;
  }
}

// One exhaustive pass over a scenario. Returns true when finished without violation.
static PassResult pass(Scenario& s, double seconds, std::vector<Report>& reports, bool retry = true)
{
  PassResult pr;
  double t0 = now();
  g_deadline = t0 + seconds;
  clearCounters();
  S->njobs = 1; S->jobs[0].len = 0; S->pending = 1; S->stop = 0; S->viol = 0; S->engine_error = 0;
  memset((void*)S->states, 0, sizeof S->states); S->nstates = 0;
  memset((void*)S->outcomes, 0, sizeof S->outcomes); S->noutcomes = 0;
  memset((void*)S->visited, 0, sizeof S->visited); S->nvisited = 0;
  fflush(stdout);
  int alive = 0;
  for (int i = 0; i < g_nworkers; ++i)
  {
    pid_t p = fork();
    if (p == 0) { setpgid(0, 0); workerMain(i); _exit(0); }
    setpgid(p, p);
    S->w[i].pid = p; ++alive;
  }
  bool crashed = false, hung = false, killing = false; int bad = -1;
  double since = 0;
  while (alive > 0)
  {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0)
    {
      int idx = -1;
      for (int i = 0; i < g_nworkers; ++i) if (S->w[i].pid == p) idx = i;
      if (idx < 0) continue;
      --alive; S->w[idx].pid = 0;
      bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3);
      if (!ok && !killing && !crashed && !hung && !S->viol) { crashed = true; bad = idx; S->stop = 1; }
      continue;
    }
    double t = now();
    for (int i = 0; i < g_nworkers && !hung; ++i)
      if (S->w[i].pid && S->w[i].running && t - S->w[i].started > s.exec_timeout_s)
      {
        hung = true; if (!crashed) bad = i; S->stop = 1;
      }
    if (S->stop)
    {
      // give workers a moment, then end them
      if (since == 0) since = t;
      if (hung || crashed || S->viol || t - since > 3)
      {
        killing = true;
        for (int i = 0; i < g_nworkers; ++i) if (S->w[i].pid) { kill(-S->w[i].pid, SIGKILL); kill(S->w[i].pid, SIGKILL); }
      }
    }
    usleep(1000);
  }
  // a worker killed while holding the mutex: reinitialise it
  {
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&S->mu, &a);
  }
  for (int i = 0; i < g_nworkers; ++i)
  {
    Worker& w = S->w[i];
    pr.execs += w.execs; pr.choices += w.choices; pr.trans += w.trans; pr.pruned += w.pruned;
    if (w.maxdepth > pr.maxdepth) pr.maxdepth = w.maxdepth;
  }
  pr.states = S->nstates; pr.outcomes = S->noutcomes;
  pr.secs = now() - t0;
  if (S->engine_error)
  {
    fprintf(stdout, "ENGINE ERROR: %s\n", S->engine_msg);
    fflush(stdout);
    _exit(3);
  }
  if (S->viol || crashed || hung)
  {
    Report rep; rep.reproduced = false;
    if (S->viol)
    {
      rep.key = S->viol_key; rep.msg = S->viol_msg;
      rep.choices.assign(S->viol_choices, S->viol_choices + S->viol_len);
    }
    else
    {
      Worker& w = S->w[bad];
      rep.key = hung ? "hang" : "crash";
      rep.msg = hung ? "execution did not terminate within the limit" : "process died";
      rep.choices.assign(w.chosen, w.chosen + (w.len > w.prefix ? w.len : w.prefix));
    }
    for (int k = 0; k < 2 && !rep.reproduced; ++k)
    {
      ReplayResult rr = replay(rep.choices, hung ? 2 * s.exec_timeout_s : s.exec_timeout_s);
      if (rr.violated) { rep.reproduced = true; rep.key = rr.key; rep.msg = rr.msg; }
      rep.trace = rr.trace;
    }
    if (!rep.reproduced && g_keep_stderr) rep.trace += "--- stderr ---\n" + slurp(g_scratch_root + format("/stderr%d", bad), 20000);
    if (crashed && !rep.reproduced && retry)
    {
      fprintf(stdout, "note: a process died in scenario %s and the execution alone does not fail; repeating the pass\n", s.name.c_str());
      fflush(stdout);
      g_keep_stderr = true;
      PassResult again = pass(s, seconds, reports, false);
      g_keep_stderr = false;
      return again;
    }
    if (hung && !rep.reproduced)
    {
      // slow, not stuck: the alone run finished. Not a finding; the pass is incomplete.
      fprintf(stdout, "note: a slow execution was cut (scenario %s)\n", s.name.c_str());
      return pr;
    }
    if (rep.key == "crash" || rep.key == "hang")
    {
      int k = knownIndex((rep.key + ":" + s.name).c_str());
      rep.key += ":" + s.name;
      if (k >= 0) { S->known_hits[k]++; return pr; }
    }
    reports.push_back(rep);
    pr.viol = true;
    return pr;
  }
  pr.complete = (S->stop == 0);
  return pr;
}

static std::string jsonStr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += format("\\u%04x", c);
    else r += char(c);
  }
  return r + "\"";
}

int run(int argc, char** argv, std::vector<Scenario> scns)
{
  std::string out, replay_file, only, replay_dir = ".";
  double budget = 0;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--replay") replay_file = next();
    else if (a == "--only") only = next();
    else if (a == "--known") g_known.push_back(next());
    else if (a == "--workers") g_nworkers = atoi(next().c_str());
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--list") { for (auto& s : scns) printf("%s\n", s.name.c_str()); return 0; }
  }
  if (g_nworkers > MAXW - 2) g_nworkers = MAXW - 2;
  if (g_known.size() > 64) g_known.resize(64);
  S = static_cast<Shared*>(sharedAlloc(sizeof(Shared)));
  {
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&S->mu, &a);
  }
  const char* tmp = getenv("TMPDIR");
  std::string tpl = std::string(tmp && *tmp ? tmp : "/tmp") + "/verif-mc-XXXXXX";
  if (!mkdtemp(&tpl[0])) { perror("mkdtemp"); return 3; }
  g_scratch_root = tpl;

  if (!replay_file.empty())
  {
    std::string t = slurp(replay_file); std::string name, aux; std::vector<uint16_t> ch; int bnd = 0;
    size_t p = 0;
    while (p < t.size())
    {
      size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
      std::string l = t.substr(p, e - p); p = e + 1;
      if (l.compare(0, 10, "scenario: ") == 0) name = l.substr(10);
      else if (l.compare(0, 7, "bound: ") == 0) bnd = atoi(l.c_str() + 7);
      else if (l.compare(0, 5, "aux: ") == 0) aux = l.substr(5);
      else if (l.compare(0, 9, "choices: ") == 0)
      {
        const char* c = l.c_str() + 9; char* q;
        for (;;) { long v = strtol(c, &q, 10); if (q == c) break; ch.push_back(uint16_t(v)); c = q; }
      }
    }
    for (auto& s : scns) if (s.name == name)
    {
      g_scn = &s; g_bound = bnd;
      if (s.before) s.before();
      if (s.load) s.load(aux);
      ReplayResult rr = replay(ch, s.exec_timeout_s * 2);
      printf("%s", rr.trace.c_str());
      printf("%s %s %s\n", rr.violated ? "VIOLATED" : "not violated", rr.key.c_str(), rr.msg.c_str());
      rmTree(g_scratch_root);
      return rr.violated ? 1 : 0;
    }
    printf("no scenario %s\n", name.c_str()); rmTree(g_scratch_root); return 2;
  }

  double T0 = now();
  std::string js = "{\"scenarios\":["; bool first = true;
  std::vector<Report> reports; std::string rep_scn, rep_aux; int rep_bound = 0;
  bool all_complete = true;
  uint64_t te = 0, tc = 0, tt = 0, ts = 0, to = 0;
  std::string samples;
  for (auto& s : scns)
  {
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    g_scn = &s;
    if (s.before) s.before();
    std::vector<int> bs = s.bounds.empty() ? std::vector<int>{0} : s.bounds;
    int completed = -1; PassResult last; double spent = 0; bool viol = false; int passes = 0;
    double lim = s.max_seconds > 0 ? s.max_seconds : 1e9;
    for (int b : bs)
    {
      g_bound = b;
      bool again = true; int rounds = 0;
      PassResult pr;
      while (again && rounds < 50)
      {
        double left = lim - spent;
        if (budget > 0 && budget - (now() - T0) < left) left = budget - (now() - T0);
        if (left < 0.05) { pr = PassResult(); break; }
        pr = pass(s, left, reports);
        ++passes; ++rounds;
        spent += pr.secs;
        if (pr.viol) { viol = true; break; }
        again = s.again ? s.again() : false;
        if (!pr.complete && !again) break;
      }
      if (viol) { last = pr; rep_scn = s.name; rep_bound = b; if (s.save) rep_aux = s.save(); break; }
      if (pr.execs >= last.execs) { last = pr; }
      if (pr.complete && !again) { completed = b; last = pr; }
      else break;
    }
    bool complete = completed == bs.back();
    // the bound actually promised is the last one; an uncompleted deeper bound is reported, not hidden
    if (completed < 0) all_complete = false;
    te += last.execs; tc += last.choices; tt += last.trans; ts += last.states; to += last.outcomes;
    js += format("%s{\"name\":%s,\"executions\":%llu,\"choice_points\":%llu,\"operations\":%llu,\"states\":%llu,"
                 "\"outcomes\":%llu,\"max_depth\":%llu,\"pruned\":%llu,\"passes\":%d,\"complete\":%s,\"seconds\":%.2f",
                 first ? "" : ",", jsonStr(s.name).c_str(), (unsigned long long)last.execs,
                 (unsigned long long)last.choices, (unsigned long long)last.trans, (unsigned long long)last.states,
                 (unsigned long long)last.outcomes, (unsigned long long)last.maxdepth, (unsigned long long)last.pruned,
                 passes, complete ? "true" : "false", spent);
    if (!s.bounds.empty()) js += format(",\"bound_completed\":%d,\"bound_wanted\":%d", completed, bs.back());
    js += "}";
    first = false;
    printf("  %-44s execs=%llu choices=%llu ops=%llu states=%llu outcomes=%llu depth=%llu %s%s %.1fs\n", s.name.c_str(),
           (unsigned long long)last.execs, (unsigned long long)last.choices, (unsigned long long)last.trans,
           (unsigned long long)last.states, (unsigned long long)last.outcomes, (unsigned long long)last.maxdepth,
           complete ? "complete" : "PARTIAL", s.bounds.empty() ? "" : format(" bound=%d/%d", completed, bs.back()).c_str(), spent);
    fflush(stdout);
    if (viol) break;
    // determinism: the default execution, twice, must leave the same trace; it is also the sample
    g_bound = 0;
    ReplayResult a = replay({}, s.exec_timeout_s), b = replay({}, s.exec_timeout_s);
    auto strip = [](std::string t) { size_t p = t.find("--- stderr ---"); return p == std::string::npos ? t : t.substr(0, p); };
    if (!a.violated && strip(a.trace) != strip(b.trace))
    {
      printf("ENGINE ERROR: scenario %s is not deterministic\n--1--\n%s\n--2--\n%s\n", s.name.c_str(), a.trace.c_str(), b.trace.c_str());
      rmTree(g_scratch_root);
      return 3;
    }
    std::string t = strip(a.trace); if (t.size() > 700) t = t.substr(0, 700) + "...";
    samples += format("%s{\"scenario\":%s,\"default_execution\":%s}", samples.empty() ? "" : ",", jsonStr(s.name).c_str(), jsonStr(t).c_str());
  }
  js += format("],\"executions\":%llu,\"choice_points\":%llu,\"operations\":%llu,\"states\":%llu,\"outcomes\":%llu,\"exhaustive\":%s,\"seconds\":%.2f",
               (unsigned long long)te, (unsigned long long)tc, (unsigned long long)tt, (unsigned long long)ts, (unsigned long long)to,
               all_complete ? "true" : "false", now() - T0);
  js += ",\"samples\":[" + samples + "],\"known\":[";
  for (size_t i = 0; i < g_known.size(); ++i)
    js += format("%s{\"key\":%s,\"hits\":%llu}", i ? "," : "", jsonStr(g_known[i]).c_str(), (unsigned long long)S->known_hits[i]);
  js += "],\"violations\":[";
  int rc = 0;
  for (size_t i = 0; i < reports.size(); ++i)
  {
    Report& r = reports[i];
    std::string f = replay_dir + format("/replay-%zu.txt", i);
    FILE* fp = fopen(f.c_str(), "w");
    if (fp)
    {
      fprintf(fp, "scenario: %s\nbound: %d\naux: %s\nkey: %s\nmessage: %s\nreproduced: %s\nchoices:", rep_scn.c_str(), rep_bound, rep_aux.c_str(),
              r.key.c_str(), r.msg.c_str(), r.reproduced ? "yes" : "no");
      for (uint16_t c : r.choices) fprintf(fp, " %d", c);
      fprintf(fp, "\ntrace:\n%s\n", r.trace.c_str());
      fclose(fp);
    }
    js += format("%s{\"key\":%s,\"message\":%s,\"scenario\":%s,\"replay\":%s,\"reproduced\":%s}", i ? "," : "",
                 jsonStr(r.key).c_str(), jsonStr(r.msg).c_str(), jsonStr(rep_scn).c_str(), jsonStr(f).c_str(), r.reproduced ? "true" : "false");
    printf("  FAILED %s: %s (scenario %s, %s)\n", r.key.c_str(), r.msg.c_str(), rep_scn.c_str(), r.reproduced ? "reproduced" : "not reproduced alone");
    rc = 1;
  }
  js += "]}";
  if (!out.empty()) { FILE* fp = fopen(out.c_str(), "w"); if (fp) { fputs(js.c_str(), fp); fclose(fp); } }
  fflush(stdout);
  rmTree(g_scratch_root);
  return rc;
}

} // namespace mc

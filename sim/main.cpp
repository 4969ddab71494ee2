// Driver: seeded search over simulated runs in worker processes, determinism
// gate, minimisation, replay files, known findings, evidence.
#include <cerrno>
#include <chrono>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "core.hpp"

vector<Scenario> scenarios;
Run *g_run = nullptr;
string g_bindDir, g_bindRepo, g_bindSim;
bool g_unbound = false;                // no runs on bindings of the generator
u64 g_schemaSlot = 0, g_schemas = 48;   // runs on bindings of the generator share this many schemas
void jsim_prepare(const string &id, u64 slot);
bool jsim_bound(const string &id);
void jsim_scenarios(vector<Scenario> &v);
void lite_scenarios(vector<Scenario> &v);
void buf_scenarios(vector<Scenario> &v);
void desc_scenarios(vector<Scenario> &v);
void chunk_scenarios(vector<Scenario> &v);
const char *op_name(const string &prop, u32 kind);

// -------------------------------------------------- system allocator seam
extern "C" void *sim_malloc(size_t n) { return g_run && g_run->sysOn ? g_run->sys.allocate(n) : malloc(n); }
extern "C" void *sim_calloc(size_t n, size_t m) { if (m && n > SIZE_MAX / m) return nullptr; void *p = sim_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
extern "C" void *sim_realloc(void *p, size_t n) { return g_run && g_run->sysOn ? g_run->sys.resize(p, n) : realloc(p, n); }
extern "C" void sim_free(void *p) { if (g_run && g_run->sysOn) { if (p) g_run->sys.release(p); } else free(p); }

// -------------------------------------------------- sanitizer options
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_odr_violation=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:symbolize=1:detect_stack_use_after_return=0:handle_abort=1:print_legend=0:max_malloc_fill_size=64:quarantine_size_mb=16:malloc_context_size=2"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }

// -------------------------------------------------- helpers
static string verif, buildDir, outDir;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Scenario *find(const string &id) { for (auto &s : scenarios) if (id == s.id) return &s; return nullptr; }

enum { K_SUB = NKNOB - 1 };
static const char *const devSubs[] = { "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P29" };
static const int devSubsN = sizeof devSubs / sizeof *devSubs;
static const char *opName(const Trace &t, u32 k) { return op_name(t.prop == "P30" ? devSubs[t.knob[K_SUB] % devSubsN] : t.prop, k); }
static string writeTrace(const Trace &t, const string &head) {
  std::ostringstream o;
  o << head;
  o << "property " << t.prop << "\nseed " << t.seed << "\n";
  for (int i = 0; i < NKNOB; i++) if (t.knob[i]) o << "knob " << i << " " << t.knob[i] << "\n";
  for (auto &p : t.ops) o << "op " << p.client << " " << p.kind << " " << p.a << " " << p.b << " " << p.c << " " << p.r << " " << p.fmode << " " << p.fk
      << "   # client " << p.client << " " << opName(t, p.kind) << (p.fmode ? string(" fault ") + fault_names[p.fmode % F_MODES] : "") << "\n";
  return o.str();
}
static bool readTrace(std::istream &in, Trace &t) {
  string line; bool any = false;
  while (std::getline(in, line)) {
    size_t h = line.find('#'); if (h != string::npos) line.resize(h);
    std::istringstream s(line); string k; if (!(s >> k)) continue;
    if (k == "property") { s >> t.prop; any = true; }
    else if (k == "seed") s >> t.seed;
    else if (k == "knob") { int i; u64 v; s >> i >> v; if (i >= 0 && i < NKNOB) t.knob[i] = v; }
    else if (k == "op") { Op p; s >> p.client >> p.kind >> p.a >> p.b >> p.c >> p.r >> p.fmode >> p.fk; if (p.fmode >= F_MODES) p.fmode = 0; t.ops.push_back(p); }
    else if (k == "end") break;
  }
  return any;
}

// -------------------------------------------------- known findings
struct Known { string prop, cls, what; Trace trace; };
static vector<Known> known;
static std::map<string, std::unordered_set<string>> knownSets;
static void loadKnown() {
  std::ifstream f(verif + "/known-findings.txt"); string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 8, "finding:") != 0) continue;
    // finding: property=<id> class=<class> trace=<file> <what fails>
    std::istringstream s(line.substr(8)); string a, b, c; s >> a >> b >> c; Known k;
    if (a.compare(0, 9, "property=") || b.compare(0, 6, "class=") || c.compare(0, 6, "trace=")) continue;
    k.prop = a.substr(9); k.cls = b.substr(6); std::getline(s, k.what); if (!k.what.empty()) k.what.erase(0, 1);
    std::ifstream tf(verif + "/" + c.substr(6)); readTrace(tf, k.trace);
    knownSets[k.prop].insert(k.cls);
    known.push_back(std::move(k));
  }
}

// -------------------------------------------------- P30: a development build
// Runs of the other properties, in a build with assertions. Only aborts (and other crashes) count; whatever
// else a run finds belongs to its own property. The event logs are compared with those of a production build.
static void devGen(u64 seed, Trace &t) {
  int k = (int)(mix64(seed ^ 0xdeb) % devSubsN); t.prop = devSubs[k]; g_unbound = true; find(t.prop)->gen(seed, t); g_unbound = false; t.prop = "P30"; t.knob[K_SUB] = k;
}
static void devRun(const Trace &t, Run &r) {
  Trace c = t; c.prop = devSubs[t.knob[K_SUB] % devSubsN]; c.knob[K_SUB] = 0; r.t = &c; r.knownClasses = &knownSets[c.prop];
  r.count("op.run_of_" + c.prop);
  struct Back { Run &r; const Trace &t; ~Back() { r.t = &t; r.plan.disarm(); } } back{ r, t };
  try { find(c.prop)->run(c, r); }
  catch (Violation &v) { r.log("the concern of %s: %s: %s", c.prop.c_str(), v.cls.c_str(), v.detail.c_str()); r.evs(v.cls); r.count("outcome.concern_of_" + c.prop); }
}

// -------------------------------------------------- one run
struct Outcome { string cls, detail; u64 hash = 0, sched = 0; u32 effective = 0, faults = 0; u64 steps = 0; string text; std::map<string, int> known; };
static void onTimer(int) {
  static const char m[] = "\nSIM-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(98);
}
static void armTimer(int sec) {
  struct itimerval it = {}; it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr);
}
static Outcome runTrace(const Trace &t, bool verbose, Stats *st, std::function<void(u64)> onState, bool useKnown = true) {
  Outcome o; Scenario *s = find(t.prop);
  Run r; r.t = &t; r.verbose = verbose; r.stats = st; r.onState = onState; r.plan.disarm();
  if (useKnown) r.knownClasses = &knownSets[t.prop];
  g_run = &r; armTimer(20);
  try { s->run(t, r); }
  catch (Violation &v) { r.plan.disarm(); o.cls = v.cls; o.detail = v.detail; r.log("VIOLATION %s: %s", v.cls.c_str(), v.detail.c_str()); r.evs(v.cls); }
  armTimer(0); g_run = nullptr;
  o.hash = r.hash; o.sched = r.sched; o.effective = r.effective; o.faults = r.faultsFired; o.steps = r.steps; o.text = r.text; o.known = r.known;
  return o;
}
static string slurp(const string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
// class of a crash from the sanitizer's report
static void crashClass(const string &log, int status, string &cls, string &detail) {
  if (log.find("SIM-HANG") != string::npos) { cls = "hang"; detail = "the run does not terminate"; return; }
  string type; size_t p = log.find("AddressSanitizer: ");
  size_t u = log.find("runtime error: ");
  if (p != string::npos) { type = "asan:"; size_t e = log.find_first_of(" \n", p + 18); type += log.substr(p + 18, e - p - 18); }
  else if (u != string::npos) { type = "ubsan:"; size_t e = log.find('\n', u); string m = log.substr(u + 15, e - u - 15); size_t c = m.find_first_of(":0123456789"); if (c != string::npos) m.resize(c); for (char &x : m) if (x == ' ') x = '-'; type += m; }
  else { cls = format("died:%d", status); detail = log.substr(0, 300); return; }
  if (type == "asan:stack-overflow") { cls = type; detail = "the stack overflows"; return; }
  // first frame inside the library
  string fn; std::istringstream s(log.substr(p != string::npos ? p : u)); string line;
  while (std::getline(s, line)) {
    size_t a = line.find(" in "); if (line.find("    #") == string::npos || a == string::npos) continue;
    size_t b = line.find(' ', a + 4); string f = line.substr(a + 4, b == string::npos ? string::npos : b - a - 4);
    if (line.find("/src/core/") != string::npos || line.find("/src/message/") != string::npos || line.find("/src/util/") != string::npos || line.find("/include/protobluff/") != string::npos) { fn = f; break; }
  }
  cls = type + "@" + (fn.empty() ? "simulator" : fn);
  size_t e = log.find("\n\n", p != string::npos ? p : u); detail = log.substr(p != string::npos ? p : u, std::min<size_t>(e == string::npos ? 600 : e - (p != string::npos ? p : u), 900));
}
// run a trace in a child process
static Outcome runChild(const Trace &t, bool verbose, bool useKnown = true) {
  static int serial = 0;
  string errf = buildDir + format("/child-%d-%d.err", getpid(), serial++);
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2);
    // verbose text is streamed, so that it survives a crash
    Outcome o = runTrace(t, verbose, nullptr, nullptr, useKnown);
    std::ostringstream s; s << o.hash << " " << o.sched << " " << o.effective << " " << o.faults << " " << o.steps << " " << o.known.size() << "\n";
    for (auto &k : o.known) s << k.first << " " << k.second << "\n";
    s << o.cls << "\n" << o.detail.size() << "\n" << o.detail << o.text;
    string b = s.str(); size_t w = 0; while (w < b.size()) { ssize_t n = write(fd[1], b.data() + w, b.size() - w); if (n <= 0) break; w += n; }
    _exit(0);
  }
  close(fd[1]); string b; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, n); close(fd[0]);
  int status; waitpid(pid, &status, 0);
  Outcome o;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    std::istringstream s(b); size_t nk = 0, dl = 0; string line; s >> o.hash >> o.sched >> o.effective >> o.faults >> o.steps >> nk; std::getline(s, line);
    for (size_t i = 0; i < nk; i++) { string k; int c; s >> k >> c; std::getline(s, line); o.known[k] = c; }
    std::getline(s, o.cls); s >> dl; std::getline(s, line); o.detail.resize(dl); s.read(&o.detail[0], dl); std::ostringstream rest; rest << s.rdbuf(); o.text = rest.str();
  } else crashClass(slurp(errf), WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status), o.cls, o.detail);
  unlink(errf.c_str());
  return o;
}
static u64 baseSeed = 1;
// the same run in a production build
static string releaseSim() { string d = buildDir; size_t p = d.rfind('/'); return d.substr(0, p) + "/sim"; }
static Outcome runBoth(const Trace &t, bool verbose, bool useKnown = true) {
  Outcome o = runChild(t, verbose, useKnown);
  if (t.prop != "P30" || !o.cls.empty() || getenv("SIM_ALONE")) return o;
  static int serial = 0; string f = buildDir + format("/both-%d-%d.trace", getpid(), serial++);
  { std::ofstream x(f); x << writeTrace(t, "") << "end\n"; }
  string cmd = "SIM_ALONE=1 '" + releaseSim() + "' replay '" + f + "' 2>/dev/null", out; FILE *p = popen(cmd.c_str(), "r"); char b[4096]; size_t n;
  while (p && (n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n);
  if (p) pclose(p); unlink(f.c_str());
  size_t at = out.rfind("no violation, hash ");
  if (at == string::npos || strtoull(out.c_str() + at + 19, nullptr, 16) != o.hash) {
    o.cls = "builds-differ"; o.detail = "the same run takes another course in a build without assertions";
  }
  return o;
}
static Trace makeTrace(Scenario *s, u64 index) { Trace t; t.prop = s->id; g_schemaSlot = mix64(baseSeed * 7919 + index % g_schemas) >> 1; s->gen(mix64(baseSeed * 1000003 + hashstr(s->id)) + index, t); return t; }

// -------------------------------------------------- minimiser
struct Minimizer {
  string cls; Scenario *s; int budget = 3000; double deadline; int evals = 0;
  bool fails(const Trace &t) { if (evals >= budget || now() > deadline) return false; evals++; return runBoth(t, false).cls == cls; }
  void run(Trace &t) {
    // a prefix first: the violation happens at some operation
    size_t lo = 0, hi = t.ops.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; Trace c = t; c.ops.resize(mid); if (fails(c)) hi = mid; else lo = mid + 1; if (evals > budget) break; }
    { Trace c = t; c.ops.resize(std::min(hi, t.ops.size())); if (c.ops.size() < t.ops.size() && fails(c)) t = c; }
    for (int round = 0; round < 3; round++) {
      size_t before = t.ops.size();
      for (size_t chunk = std::max<size_t>(t.ops.size() / 2, 1); chunk; chunk /= 2)
        for (size_t i = 0; i + chunk <= t.ops.size();) { Trace c = t; c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + chunk); if (fails(c)) t = c; else i += chunk; }
      for (int k : s->zeroKnobs) for (u64 v : { (u64)0, (u64)1, t.knob[k] / 2, t.knob[k] - 1 }) if (v < t.knob[k]) { Trace c = t; c.knob[k] = v; if (fails(c)) { t = c; break; } }
      for (auto &op : t.ops) {
        auto tryset = [&](u32 &f, u32 v) { if (f == v) return; u32 old = f; f = v; if (!fails(t)) f = old; };
        tryset(op.fmode, 0); if (op.fmode) tryset(op.fk, 0); tryset(op.client, 0); tryset(op.a, 0); tryset(op.b, 0); tryset(op.c, 0);
        for (u64 v : { 0, 1, 2, 3 }) if (op.r > v) { u64 old = op.r; op.r = v; if (fails(t)) break; op.r = old; }
      }
      if (t.ops.size() == before) break;
    }
  }
};

// -------------------------------------------------- shared state of a batch
enum { BITS = 24, MAXRUNS = 1 << 24 };
struct Shared {
  volatile u64 minViol; volatile u64 cur[64]; volatile u64 done[64];
  volatile u64 effective, faults, steps, knownHits, slowest, slowestRun;
  unsigned char states[1 << (BITS - 3)], scheds[1 << (BITS - 3)];
};
static void setbit(unsigned char *m, u64 h) { h = mix64(h) & ((1u << BITS) - 1); m[h >> 3] |= 1 << (h & 7); }
static u64 countBits(unsigned char *m) { u64 n = 0; for (size_t i = 0; i < 1u << (BITS - 3); i++) n += __builtin_popcount(m[i]); return n; }

static string jsonStr(const string &s) {
  string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

struct Batch { u64 runs = 0; Stats st; u64 distinctRuns = 0, nontrivial = 0, states = 0, scheds = 0, steps = 0, faults = 0, known = 0, compared = 0, slowest = 0, slowestRun = 0; double wall = 0; int64_t viol = -1; string cls, detail; };
static Batch batch(Scenario *s, u64 runs, int workers, double limit) {
  Batch b; double t0 = now();
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u64 *hashes = (u64 *)mmap(nullptr, runs * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->minViol = runs;
  vector<pid_t> pid(workers); vector<u64> from(workers);
  auto path = [&](int w, const char *e) { return buildDir + format("/%s-w%d.%s", s->id, w, e); };
  auto start = [&](int w, u64 first, int gen) {
    fflush(stdout); pid[w] = fork();
    if (pid[w]) return;
    int e = open(path(w, "err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2);
    Stats st; u64 steps = 0, eff = 0, faults = 0, kn = 0;
    for (u64 i = first; i < sh->minViol; i += workers) {
      if (now() - t0 > limit) break;
      sh->cur[w] = i;
      Trace t = makeTrace(s, i);
      double r0 = now(); Outcome o = runTrace(t, false, &st, [&](u64 h) { setbit(sh->states, h); });
      u64 ms = (u64)((now() - r0) * 1000); if (ms > sh->slowest) { sh->slowest = ms; sh->slowestRun = i; }
      setbit(sh->scheds, o.sched); steps += o.steps; eff += o.effective; faults += o.faults;
      for (auto &k : o.known) { kn += k.second; st.add("known." + k.first, k.second); }
      bool nt = o.effective >= 5 && (!s->needsFault || o.faults);
      hashes[i] = nt ? o.hash | 1 : (o.hash | 1) ^ 1; if (!hashes[i]) hashes[i] = 2;
      sh->done[w] = sh->done[w] + 1;
      if (!o.cls.empty()) {
        u64 m = sh->minViol; while (i < m && !__sync_bool_compare_and_swap(&sh->minViol, m, i)) m = sh->minViol;
        break;
      }
    }
    __sync_fetch_and_add(&sh->steps, steps); __sync_fetch_and_add(&sh->effective, eff); __sync_fetch_and_add(&sh->faults, faults); __sync_fetch_and_add(&sh->knownHits, kn);
    std::ofstream f(path(w, format("stat%d", gen).c_str())); for (auto &c : st.c) f << c.first << " " << c.second << "\n"; f.close();
    _exit(0);
  };
  vector<int> gen(workers, 0); int alive = workers;
  for (int w = 0; w < workers; w++) { sh->cur[w] = w; start(w, w, 0); }
  while (alive) {
    int status; pid_t p = wait(&status); if (p < 0) break;
    for (int w = 0; w < workers; w++) if (pid[w] == p) {
      alive--;
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) { // crashed in run cur[w]
        u64 i = sh->cur[w]; hashes[i] = 1; u64 m = sh->minViol; while (i < m && !__sync_bool_compare_and_swap(&sh->minViol, m, i)) m = sh->minViol;
      }
      for (int g = 0; g <= gen[w]; g++) { std::ifstream f(path(w, format("stat%d", g).c_str())); string k; u64 n; while (f >> k >> n) b.st.c[k] += n; unlink(path(w, format("stat%d", g).c_str()).c_str()); }
      unlink(path(w, "err").c_str());
    }
  }
  b.wall = now() - t0;
  { std::unordered_set<u64> d, nt; for (u64 i = 0; i < runs; i++) if (hashes[i]) { b.runs++; d.insert(hashes[i]); if (hashes[i] & 1) nt.insert(hashes[i]); } b.distinctRuns = d.size(); b.nontrivial = nt.size(); }
  b.states = countBits(sh->states); b.scheds = countBits(sh->scheds); b.steps = sh->steps; b.slowest = sh->slowest; b.slowestRun = sh->slowestRun; b.faults = sh->faults; b.known = sh->knownHits;
  if (string(s->id) == "P30" && sh->minViol >= runs && !getenv("SIM_ALONE")) { // the same seeds in a production build
    double t1 = now(); vector<FILE *> ps;
    for (int w = 0; w < workers; w++) ps.push_back(popen(format("VERIF_SEED=%llu SIM_ALONE=1 '%s' hash P30 %d %llu %d 2>/dev/null", (unsigned long long)baseSeed, releaseSim().c_str(), w, (unsigned long long)runs, workers).c_str(), "r"));
    for (int w = 0; w < workers; w++) {
      unsigned long long i, h; u64 seen = 0, want = 0; for (u64 k = w; k < runs; k += workers) want += hashes[k] != 0;
      while (ps[w] && seen < want && now() - t0 < limit * 2 && fscanf(ps[w], "%llu %llx%*[^\n]", &i, &h) == 2) { seen++; if (i < runs && hashes[i]) { b.compared++; if ((hashes[i] | 1) != (h | 1) && (b.viol < 0 || (int64_t)i < b.viol)) b.viol = (int64_t)i; } }
      if (ps[w]) pclose(ps[w]);
    }
    b.wall += now() - t1;
  }
  if (sh->minViol < runs) b.viol = (int64_t)sh->minViol;
  munmap(sh, sizeof(Shared)); munmap(hashes, runs * 8);
  return b;
}

// the bindings of all schemas of the batch are built first
static void prepare(const string &id, const string &tier, int workers) {
  if (!jsim_bound(id)) return;
  g_schemas = id == "P28" ? tier == "thorough" ? 800 : 160 : tier == "thorough" ? 200 : 48;
  if (getenv("SIM_SCHEMAS")) g_schemas = strtoull(getenv("SIM_SCHEMAS"), nullptr, 10);   // development
  fflush(stdout); vector<pid_t> ps;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork(); if (p) { ps.push_back(p); continue; }
    for (u64 i = w; i < g_schemas; i += workers) jsim_prepare(id, mix64(baseSeed * 7919 + i) >> 1);
    _exit(0);
  }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
}
static string stateMeasure(const string &id) {
  string what = id == "P12" ? "contents, validity, memory kind and edit log length of all buffers and journals" : id == "P19" ? "sizes and identities of all blocks of all chunk allocators"
    : id == "P29" ? "the order of registered tables of every message" : id == "P16" || id == "P18" ? "bytes of a message" : id == "P17" ? "output bytes of an encoder" : "stored bytes of a journal, length of its edit log, number of handles";
  return "hash of (" + what + ") after a step, in a 2^24 bitmap";
}
static int check(const string &id, const string &tier, u64 runs, double limit) {
  Scenario *s = find(id); if (!s) { fprintf(stderr, "no such property %s\n", id.c_str()); return 2; }
  double t0 = now();
  int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); if (workers > 8) workers = 8; if (workers < 1) workers = 1;
  if (!runs) runs = tier == "thorough" ? s->thoroughRuns : s->quickRuns;
  if (limit <= 0) limit = tier == "thorough" ? 700 : 150;
  // known findings: the listed histories still fail as listed
  for (auto &k : known) if (k.prop == id) {
    Outcome o = runChild(k.trace, false, false);
    if (o.cls == k.cls) printf("KNOWN-FINDING: property=%s class=%s %s\n", id.c_str(), k.cls.c_str(), k.what.c_str());
    else printf("note: known finding %s of %s does not show up on its recorded history any more (got '%s')\n", k.cls.c_str(), id.c_str(), o.cls.c_str());
  }
  prepare(id, tier, workers);
  // determinism gate: the same seeds, run twice in different processes, give the same event log
  int gate = 24; u64 gateHash = 0;
  vector<u64> first;
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < gate; i++) {
    Outcome o = runChild(makeTrace(s, i), false);
    if (!o.cls.empty()) { first.push_back(0); continue; }
    if (!pass) first.push_back(o.hash); else if ((int)first.size() > i && first[i] && first[i] != o.hash) { fprintf(stderr, "not deterministic: run %d\n", i); return 2; }
    gateHash ^= o.hash;
  }
  Batch b = batch(s, runs, workers, limit);
  int rc = 0; u64 violations = 0; string replayPath;
  if (b.viol >= 0) {
    Trace t = makeTrace(s, b.viol);
    Outcome o = runBoth(t, false), o2 = runBoth(t, false);
    if (o.cls.empty() || o.cls != o2.cls || o.hash != o2.hash) { fprintf(stderr, "run %lld failed in the batch but not reproducibly ('%s', '%s')\n", (long long)b.viol, o.cls.c_str(), o2.cls.c_str()); return 2; }
    size_t ops0 = t.ops.size();
    Minimizer m; m.cls = o.cls; m.s = s; m.deadline = now() + (tier == "thorough" ? 120 : 60); m.run(t);
    Outcome fin = runBoth(t, true);
    string log = fin.text; if (log.empty()) log = "(the run ended in a crash)\n";
    string head = format("# violation of %s\n# class: %s\n# seed %llu, run %lld of base seed %llu; %zu operations reduced to %zu in %d runs\n", id.c_str(), o.cls.c_str(), (unsigned long long)t.seed, (long long)b.viol, (unsigned long long)baseSeed, ops0, t.ops.size(), m.evals);
    { std::istringstream d(fin.detail); string l; while (std::getline(d, l)) head += "# " + l + "\n"; }
    head += "# replay with: bash /verif/replay.sh THIS-FILE\n";
    string body = writeTrace(t, head) + "end\n"; { std::istringstream d(log); string l; while (std::getline(d, l)) body += "# log: " + l + "\n"; }
    mkdir(outDir.c_str(), 0755);
    replayPath = outDir + "/" + id + ".replay"; std::ofstream f(replayPath); f << body; f.close();
    // the replay file must reproduce in a fresh process
    string cmd = "'" + buildDir + "/sim' replay '" + replayPath + "' > '" + buildDir + "/replay-" + id + ".out' 2>&1"; int st = system(cmd.c_str());
    string out = slurp(buildDir + "/replay-" + id + ".out"); unlink((buildDir + "/replay-" + id + ".out").c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1 || out.find("class=" + o.cls + "\n") == string::npos) { fprintf(stderr, "the replay file does not reproduce the violation\n%s\n", out.c_str()); return 2; }
    printf("%s: %s\n%s\n", id.c_str(), o.cls.c_str(), fin.detail.c_str());
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayPath.c_str());
    b.cls = o.cls; violations = 1; rc = 1;
  }
  double wall = now() - t0;
  // evidence
  std::ostringstream e;
  e << "{\n \"property\": " << jsonStr(id) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << baseSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  e << "  \"evaluations\": " << b.runs << ",\n  \"distinct_nontrivial\": " << b.nontrivial << ",\n  \"rule\": " << jsonStr(string("one case is one simulated run from one seed; ") + s->rule) << ",\n";
  e << "  \"runs_and_seeds_per_hour\": " << (u64)(b.wall > 0 ? b.runs / b.wall * 3600 : 0) << ",\n";
  e << "  \"simulated_steps\": " << b.steps << ",\n  \"simulated_time_note\": \"the library has no clocks or timers; simulated time is the number of scheduler steps\",\n";
  e << "  \"distinct_event_logs\": " << b.distinctRuns << ",\n  \"distinct_interleavings\": " << b.scheds << ",\n  \"distinct_interleavings_measure\": \"hash of the sequence of (client, operation) of a run, in a 2^24 bitmap\",\n";
  e << "  \"distinct_states\": " << b.states << ",\n  \"distinct_states_measure\": " << jsonStr(stateMeasure(id)) << ",\n";
  e << "  \"faults_fired\": " << b.faults << ",\n  \"known_finding_hits\": " << b.known << ",\n";
  for (const char *grp : { "fault.", "damage.", "op.", "outcome.", "known." }) {
    e << "  \"" << (grp[0] == 'f' ? "fault_kinds_fired" : grp[0] == 'd' ? "data_damage_kinds" : grp[0] == 'o' && grp[1] == 'p' ? "operations" : grp[0] == 'o' ? "outcomes" : "known_findings") << "\": {"; bool c = false;
    for (auto &x : b.st.c) if (x.first.compare(0, strlen(grp), grp) == 0) { e << (c ? ", " : "") << jsonStr(x.first.substr(strlen(grp))) << ": " << x.second; c = true; }
    e << "},\n";
  }
  e << "  \"slowest_run\": {\"run\": " << b.slowestRun << ", \"ms\": " << b.slowest << "},\n";
  e << "  \"determinism_gate\": \"" << gate << " seeds run twice in separate processes, event logs equal\",\n";
  e << "  \"real_components\": [\"all of src/core, src/message and src/util of /repo, compiled from the working tree (" << (id == "P30" ? "with assertions, and again with -DNDEBUG" : "-DNDEBUG, as shipped") << ") with address and undefined behaviour sanitizers\"" << (jsim_bound(id) ? ", \"all of src/generator of /repo, running on the installed libprotoc, with the same sanitizers\", \"the bindings it writes, compiled with gcc\"" : "") << "],\n";
  if (id == "P30") e << "  \"runs_compared_with_a_production_build\": " << b.compared << ",\n";
  if (jsim_bound(id)) e << "  \"generated_schemas\": " << g_schemas << ",\n";
  e << "  \"stub_components\": [\"memory allocator callbacks (simulated allocator with ledger)\", \"malloc, calloc, realloc and free of the library (same simulated allocator)\"" << (jsim_bound(id) ? ", \"protoc's plugin protocol (the generator is called in process)\"" : "") << (id == "P28" ? "" : jsim_bound(id) ? ", \"message descriptors (made at run time instead of by the generator, except in runs with generated bindings)\"" : ", \"message descriptors (made at run time instead of by the generator)\"") << "],\n";
  e << "  \"samples\": [\n";
  for (int i = 0; i < 2; i++) {
    Outcome o = runChild(makeTrace(s, i), true); string x; std::istringstream d(o.text); string l; int n = 0; e << (i ? ",\n" : "") << "   {\"run\": " << i << ", \"log\": [";
    while (n < 25 && std::getline(d, l)) { e << (n++ ? ", " : "") << jsonStr(l.substr(0, 160)); } e << "]}";
  }
  e << "\n  ]\n },\n \"assumptions\": [\"little-endian host\", \"callers keep the documented contracts: known tags, legal enum values, non-repeated path messages, no source string inside the edited journal\"],\n";
  e << " \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  mkdir((verif + "/evidence").c_str(), 0755);
  std::ofstream f(verif + "/evidence/" + id + ".json"); f << e.str(); f.close();
  if (!rc) printf("%s: held on %llu runs (%llu steps, %llu faults fired, %llu distinct non-trivial) in %.1f s\n", id.c_str(), (unsigned long long)b.runs, (unsigned long long)b.steps, (unsigned long long)b.faults, (unsigned long long)b.nontrivial, wall);
  return rc;
}

int main(int argc, char **argv) {
  struct rlimit st; if (!getrlimit(RLIMIT_STACK, &st) && st.rlim_cur != 8u << 20) { st.rlim_cur = 8u << 20; setrlimit(RLIMIT_STACK, &st); }
  // no address space randomisation: every run sees the same addresses
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); }
  signal(SIGPROF, onTimer);
  struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
  buildDir = self; buildDir.resize(buildDir.rfind('/'));
  verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : buildDir.substr(0, buildDir.rfind('/'));
  outDir = verif + "/out";
  g_bindDir = buildDir + "/bind"; g_bindRepo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo"; g_bindSim = verif + "/sim";
  if (getenv("VERIF_SEED")) baseSeed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  loadKnown();
  jsim_scenarios(scenarios); lite_scenarios(scenarios); buf_scenarios(scenarios); chunk_scenarios(scenarios); desc_scenarios(scenarios);
  scenarios.push_back({ "P30", "a development build: runs of all other simulations with assertions compiled in, next to the same runs in a production build", devGen, devRun, 100000, 1200000,
    "a run counts when at least 5 operations took effect or were checked; distinct by the hash of its event log", false, {} });
  string cmd = argc > 1 ? argv[1] : "";
  auto opt = [&](const char *k, const char *d) { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return string(argv[i + 1]); return string(d); };
  if (cmd == "check" && argc > 2) return check(argv[2], opt("--tier", "quick"), strtoull(opt("--runs", "0").c_str(), nullptr, 10), atof(opt("--seconds", "0").c_str()));
  if (cmd == "replay" && argc > 2) {
    Trace t; std::ifstream f(argv[2]); if (!readTrace(f, t) || !find(t.prop)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    Outcome o = runBoth(t, true, opt("--known", "1") == "1");
    fputs(o.text.c_str(), stdout);
    if (o.cls.empty()) { printf("no violation, hash %016llx\n", (unsigned long long)o.hash); return 0; }
    printf("class=%s\n%s\nVIOLATION property=%s replay=%s\n", o.cls.c_str(), o.detail.c_str(), t.prop.c_str(), argv[2]);
    return 1;
  }
  if (cmd == "one" && argc > 3) { // print a run
    Trace t = makeTrace(find(argv[2]), strtoull(argv[3], nullptr, 10)); fputs(writeTrace(t, "").c_str(), stdout);
    Outcome o = runChild(t, true, false); fputs(o.text.c_str(), stdout); printf("%s %s\n", o.cls.c_str(), o.detail.c_str()); return !o.cls.empty();
  }
  if (cmd == "hash" && argc > 4) { // event log hashes of a range of runs
    u64 i = strtoull(argv[3], nullptr, 10), step = argc > 5 ? strtoull(argv[5], nullptr, 10) : 1, e = argc > 5 ? strtoull(argv[4], nullptr, 10) : i + strtoull(argv[4], nullptr, 10);
    for (; i < e; i += step) { Outcome o = runTrace(makeTrace(find(argv[2]), i), false, nullptr, nullptr); printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)o.hash, o.cls.c_str()); }
    return 0;
  }
  if (cmd == "survey" && argc > 3) { // classes of violations over many runs, each minimised once: for development
    prepare(argv[2], "quick", 8);
    Scenario *s = find(argv[2]); u64 runs = strtoull(argv[3], nullptr, 10); std::map<string, std::pair<int, u64>> c; int workers = 8; vector<pid_t> ps;
    for (int w = 0; w < workers; w++) { pid_t p = fork(); if (!p) { std::ofstream f(buildDir + format("/survey-%d", w)); for (u64 i = w; i < runs; i += workers) { Outcome o = runChild(makeTrace(s, i), false); if (!o.cls.empty()) f << o.cls << " " << i << "\n"; } f.close(); _exit(0); } ps.push_back(p); }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
    for (int w = 0; w < workers; w++) { std::ifstream f(buildDir + format("/survey-%d", w)); string k; u64 i; while (f >> k >> i) { auto &x = c[k]; if (!x.first++ || i < x.second) x.second = i; } unlink((buildDir + format("/survey-%d", w)).c_str()); }
    for (auto &x : c) {
      printf("%-50s %d of %llu, first %llu\n", x.first.c_str(), x.second.first, (unsigned long long)runs, (unsigned long long)x.second.second);
      if (opt("--min", "1") == "1") { Trace t = makeTrace(s, x.second.second); Minimizer m; m.cls = x.first; m.s = s; m.deadline = now() + 20; m.run(t); Outcome o = runChild(t, true);
        printf("%s", o.text.c_str()); printf("  %s: %s\n", o.cls.c_str(), o.detail.c_str()); string f = buildDir + format("/survey-%s-%llu.replay", s->id, (unsigned long long)x.second.second); std::ofstream(f) << writeTrace(t, ""); printf("  (%zu operations) %s\n\n", t.ops.size(), f.c_str()); }
    }
    return 0;
  }
  if (cmd == "list") { for (auto &s : scenarios) printf("%s %llu %llu %s\n", s.id, (unsigned long long)s.quickRuns, (unsigned long long)s.thoroughRuns, s.what); return 0; }
  fprintf(stderr, "usage: sim check|replay|one|hash|survey|list ...\n");
  return 2;
}

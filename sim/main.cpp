// Exploration, minimisation, replay and evidence.
#include "core.h"
#include "slot.h"
#include "seam.h"
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
static const Prop *prop;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:symbolize=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:quarantine_size_mb=16";
}

static double wall() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static void on_asan(const char *rep) {
  const char *p = strstr(rep, "AddressSanitizer: ");
  char type[64] = "error";
  if (p) sscanf(p + 18, "%60s", type);
  snprintf(g_slot->cls, sizeof g_slot->cls, "asan:%s", type);
  std::string one;
  for (const char *q = p ? p : rep; *q && *q != '\n'; q++) one += *q;
  snprintf(g_slot->msg, sizeof g_slot->msg, "%s", one.c_str());
  core_finish(ST_VIOLATION);
  if (g_verbose) { printf("VIOLATED %s: %s\n", g_slot->cls, g_slot->msg); fflush(stdout); }
}
static void on_timer(int) {
  snprintf(g_slot->cls, sizeof g_slot->cls, "hang:cpu");
  snprintf(g_slot->msg, sizeof g_slot->msg, "no progress: the code computes for ever without any I/O");
  core_finish(ST_VIOLATION);
  _exit(3);
}

struct Result { uint32_t status; std::string cls, msg; uint64_t hash, shape; std::vector<uint32_t> ch; };


static void reset_run(Slot *slot) {
  memset(slot, 0, offsetof(Slot, ch));
  slot->hash = slot->shape = 0xcbf29ce484222325ull;
}
static void arm_timer() {
  struct itimerval it = {{0, 0}, {20, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void child_setup(Slot *slot, bool verbose) {
  g_slot = slot;
  g_verbose = verbose;
  if (!verbose) {
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) { dup2(n, 2); close(n); }
  }
  signal(SIGVTALRM, on_timer);
}
static void body() {
  arm_timer();
  g_now = 0;
  g_wall0 = 1700000000LL * SEC;
  world_reset();
  prop->run();
  core_finish(ST_OK);
}
static void died(Slot *slot, int st) {
  if (slot->status == ST_RUNNING || (slot->status == ST_OK && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))) {
    slot->status = ST_VIOLATION;
    if (WIFSIGNALED(st)) {
      snprintf(slot->cls, sizeof slot->cls, "crash:signal-%d", WTERMSIG(st));
      snprintf(slot->msg, sizeof slot->msg, "killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(slot->cls, sizeof slot->cls, "crash:exit-%d", WEXITSTATUS(st));
      snprintf(slot->msg, sizeof slot->msg, "process ended with status %d", WEXITSTATUS(st));
    }
  }
}
// one run in a child process; the slot holds the result
static void run_child(Slot *slot, uint64_t seed, const std::vector<uint32_t> *replay, bool verbose) {
  reset_run(slot);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    child_setup(slot, verbose);
    if (replay) core_replay(*replay); else core_seed(seed);
    body();
    if (verbose) { printf("run completed without violation\n"); fflush(stdout); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  died(slot, st);
}
static Result result(Slot *s) {
  return {s->status, s->cls, s->msg, s->hash, s->shape, std::vector<uint32_t>(s->ch, s->ch + s->nch)};
}
static uint64_t run_seed(uint64_t seed, uint64_t i) {
  uint64_t h = 0xcbf29ce484222325ull;
  h = fnv(h, &seed, 8);
  h = fnv(h, prop->id, strlen(prop->id));
  h = fnv(h, &i, 8);
  return h;
}

static std::vector<uint32_t> shrink(Slot *s, std::vector<uint32_t> best, const std::string &cls, double budget) {
  double t0 = wall();
  auto strip = [](std::vector<uint32_t> &v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
  auto test = [&](std::vector<uint32_t> c) {
    strip(c);
    if (c == best) return false;
    run_child(s, 0, &c, false);
    if (s->status == ST_VIOLATION && cls == s->cls) {
      // keep what was really used
      std::vector<uint32_t> used(s->ch, s->ch + s->nch);
      strip(used);
      best = used.size() <= c.size() ? used : c;
      return true;
    }
    return false;
  };
  strip(best);
  bool go = true;
  while (go && wall() - t0 < budget) {
    go = false;
    for (size_t len = best.size() / 2; len >= 1; len /= 2) {        // cut the tail, drop chunks
      for (size_t i = 0; i + len <= best.size() && wall() - t0 < budget;) {
        std::vector<uint32_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (test(c)) go = true; else i += len;
      }
    }
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {  // zero chunks
      for (size_t i = 0; i + len <= best.size() && wall() - t0 < budget; i += len) {
        std::vector<uint32_t> c = best;
        bool any = false;
        for (size_t k = i; k < i + len; k++) if (c[k]) { c[k] = 0; any = true; }
        if (any && test(c)) go = true;
      }
    }
    for (size_t i = 0; i < best.size() && wall() - t0 < budget; i++) {      // smaller values
      for (uint32_t d : {best[i] / 2, best[i] - 1}) {
        if (i >= best.size() || best[i] == 0 || d >= best[i]) continue;
        std::vector<uint32_t> c = best;
        c[i] = d;
        if (test(c)) go = true;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

static bool load_replay(const char *path, std::string &id, std::string &cls, uint64_t &hash, std::vector<uint32_t> &ch) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> id;
    else if (k == "class") is >> cls;
    else if (k == "hash") is >> std::hex >> hash;
    else if (k == "choices") { uint32_t v; while (is >> v) ch.push_back(v); }
  }
  return true;
}

static const char *arg(int argc, char **argv, const char *name, const char *def) {
  for (int i = argc - 2; i >= 1; i--) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
static bool flag(int argc, char **argv, const char *name) {
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], name)) return true;
  return false;
}
static void select_prop(const char *id) {
  for (auto &p : props()) if (!strcmp(p.id, id)) prop = &p;
  if (!prop) { fprintf(stderr, "no property %s\n", id); exit(2); }
  g_prop = prop->id;
}

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  lib_statics_init();
  __asan_set_error_report_callback(on_asan);
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  if (cmd == "list") { for (auto &p : props()) printf("%s %d %d\n", p.id, p.quick_runs, p.thorough_runs); return 0; }
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (slots == MAP_FAILED) { perror("mmap"); return 2; }

  if (cmd == "replay") {
    std::string id, cls;
    uint64_t hash = 0;
    std::vector<uint32_t> ch;
    if (argc < 3 || !load_replay(argv[2], id, cls, hash, ch)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    select_prop(id.c_str());
    g_thorough = flag(argc, argv, "--thorough");
    run_child(&slots[0], 0, &ch, !flag(argc, argv, "--quiet"));
    Slot &s = slots[0];
    printf("%s %s hash %016llx\n", s.status == ST_VIOLATION ? "violation" : "no violation", s.cls, (unsigned long long)s.hash);
    if (s.status == ST_VIOLATION) {
      printf("%s\n", s.msg);
      if (!cls.empty() && (cls != s.cls || hash != s.hash)) { printf("differs from the recorded violation\n"); return 4; }
      return 1;
    }
    return 0;
  }
  if (cmd == "one") {                                   // sim one PROP --seed S --index I
    select_prop(argv[2]);
    g_thorough = flag(argc, argv, "--thorough");
    run_child(&slots[0], run_seed(strtoull(arg(argc, argv, "--seed", "1"), 0, 10), strtoull(arg(argc, argv, "--index", "0"), 0, 10)), nullptr, true);
    Slot &s = slots[0];
    printf("status %u class %s: %s; %u choices, hash %016llx\n", s.status, s.cls, s.msg, s.nch, (unsigned long long)s.hash);
    return s.status == ST_VIOLATION;
  }
  if (cmd != "explore" || argc < 3) return 2;

  select_prop(argv[2]);
  g_thorough = flag(argc, argv, "--thorough");
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
  int W = atoi(arg(argc, argv, "--workers", "8"));
  if (W > 48) W = 48;
  uint64_t runs = strtoull(arg(argc, argv, "--runs", strf("%d", g_thorough ? prop->thorough_runs : prop->quick_runs).c_str()), 0, 10);
  double cap = atof(arg(argc, argv, "--wall", g_thorough ? "3600" : "60"));
  std::string out = arg(argc, argv, "--out", ""), rdir = arg(argc, argv, "--replays", "replays");
  double t0 = wall();


  constexpr uint32_t NSH = 1u << 20;
  struct Agg {
    uint64_t runs, ok, discarded, overflow, selfcheck, selfcheck_bad, steps;
    double simtime;
    uint64_t faults[N_FAULTS], fault_runs[N_FAULTS];
    uint64_t nontrivial;
    struct { const char *name; uint64_t n; } probes[MAXPROBE];
    int violated;
    uint64_t viol_index;
    uint64_t cur;                                        // run in progress
    uint32_t nshapes;
    uint64_t shapes[NSH];                                // open addressing
    void add(Slot *s) {
      runs++;
      steps += s->steps;
      simtime += s->simtime / 1e9;
      if (s->overflow) overflow++;
      uint64_t tot = 0;
      for (int f = 0; f < N_FAULTS; f++) { faults[f] += s->faults[f]; tot += s->faults[f]; if (s->faults[f]) fault_runs[f]++; }
      for (auto &pr : s->probes) {
        if (!pr.name) break;
        for (auto &q : probes) {
          if (q.name == pr.name) { q.n += pr.n; break; }
          if (!q.name) { q.name = pr.name; q.n = pr.n; break; }
        }
      }
      if (s->status == ST_DISCARD) { discarded++; return; }
      if (s->status == ST_VIOLATION) { violated = 1; viol_index = cur; return; }
      ok++;
      if (!tot) return;
      nontrivial++;
      uint64_t h = s->shape ? s->shape : 1;
      if (nshapes > NSH * 3 / 4) return;
      for (uint32_t k = (uint32_t)(h >> 20) & (NSH - 1);; k = (k + 1) & (NSH - 1)) {
        if (shapes[k] == h) return;
        if (!shapes[k]) { shapes[k] = h; nshapes++; return; }
      }
    }
  };
  Agg *agg = (Agg *)mmap(nullptr, sizeof(Agg) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  struct Shared { volatile int stop; } *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int batch = atoi(arg(argc, argv, "--batch", "100"));
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      Agg &a = agg[w];
      Slot *s = &slots[w];
      uint64_t i = w;
      while (i < runs) {
        if (sh->stop || wall() - t0 > cap) break;
        a.cur = i;
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {                                    // a batch of runs, each from a clean state
          child_setup(s, false);
          for (int k = 0; k < batch && a.cur < runs; k++) {
            if (k && (sh->stop || wall() - t0 > cap)) break;
            if (k) { lib_statics_restore(); heap_drop(); core_clean(); }
            reset_run(s);
            core_seed(run_seed(seed, a.cur));
            body();
            a.add(s);
            a.cur += W;
          }
          s->status = ST_OK;
          _exit(0);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {  // the run at a.cur ended the batch
          died(s, st);
          a.add(s);
          if (s->status == ST_VIOLATION) { sh->stop = 1; break; }
          a.cur += W;
        } else if (a.cur > i && batch > 1) {             // the last run, alone in a fresh process, must do the same
          uint64_t h = s->hash;
          run_child(s, run_seed(seed, a.cur - W), nullptr, false);
          a.selfcheck++;
          if (s->hash != h || s->status == ST_VIOLATION) a.selfcheck_bad++;
        } else if ((i / W) % 16 == 0) {
          uint64_t h = s->hash;
          run_child(s, run_seed(seed, i), nullptr, false);
          a.selfcheck++;
          if (s->hash != h || s->status != ST_OK) a.selfcheck_bad++;
        }
        i = a.cur;
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  bool worker_lost = false;
  for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_lost = true; }
  double t1 = wall();

  uint64_t tot_runs = 0, ok = 0, disc = 0, over = 0, sc = 0, scb = 0, steps = 0, nontriv = 0;
  double simtime = 0;
  std::map<std::string, uint64_t> fc, fr, pr;
  std::unordered_set<uint64_t> shapes;
  int vw = -1;
  for (int w = 0; w < W; w++) {
    Agg &a = agg[w];
    tot_runs += a.runs; ok += a.ok; disc += a.discarded; over += a.overflow; sc += a.selfcheck; scb += a.selfcheck_bad;
    steps += a.steps; simtime += a.simtime; nontriv += a.nontrivial;
    for (int f = 0; f < N_FAULTS; f++) if (a.faults[f]) { fc[fault_names[f]] += a.faults[f]; fr[fault_names[f]] += a.fault_runs[f]; }
    for (auto &q : a.probes) if (q.name) pr[q.name] += q.n;
    if (a.nshapes) for (uint64_t h : a.shapes) if (h) shapes.insert(h);
    if (a.violated && (vw < 0 || a.viol_index < agg[vw].viol_index)) vw = w;
  }
  int rc = 0;
  std::string viol;
  if (worker_lost) { fprintf(stderr, "a worker died\n"); rc = 2; }
  auto alone = [&]() {
    fprintf(stderr, "once more with every run in a process of its own\n");
    std::vector<char *> av(argv, argv + argc);
    av.push_back((char *)"--batch");
    av.push_back((char *)"1");
    av.push_back(nullptr);
    execv("/proc/self/exe", av.data());
    _exit(2);
  };
  if (scb && batch > 1) alone();
  if (scb) { fprintf(stderr, "%llu of %llu repeated runs differed\n", (unsigned long long)scb, (unsigned long long)sc); rc = 2; }
  if (vw >= 0) {
    uint64_t idx = agg[vw].viol_index;
    Slot *s = &slots[vw];
    Result orig = result(s);
    run_child(s, run_seed(seed, idx), nullptr, false);
    if (s->status != ST_VIOLATION || orig.cls != s->cls || orig.hash != s->hash) {
      fprintf(stderr, "violation %s of run %llu did not repeat (%s)\n", orig.cls.c_str(), (unsigned long long)idx, s->cls);
      if (batch > 1) alone();
      return 2;
    }
    std::vector<uint32_t> best = shrink(s, orig.ch, orig.cls, g_thorough ? 60 : 15);
    run_child(s, 0, &best, false);
    Result a = result(s);
    run_child(s, 0, &best, false);
    Result b = result(s);
    if (a.status != ST_VIOLATION || a.cls != orig.cls || a.hash != b.hash || a.cls != b.cls) {
      fprintf(stderr, "minimised violation did not repeat\n");
      return 2;
    }
    mkdir(rdir.c_str(), 0777);
    std::string path = rdir + strf("/%s-%llu-%llu.replay", prop->id, (unsigned long long)seed, (unsigned long long)idx);
    {
      std::ofstream f(path);
      f << "property " << prop->id << "\nclass " << a.cls << "\nmessage " << a.msg << "\nseed " << seed << "\nrun " << idx
        << "\nhash " << strf("%016llx", (unsigned long long)a.hash) << "\nchoices";
      for (auto v : best) f << ' ' << v;
      f << "\ntrace\n";
    }
    // the readable schedule and fault trace, appended by a verbose repetition
    int save = dup(1), fd = open(path.c_str(), O_WRONLY | O_APPEND);
    fflush(stdout);
    dup2(fd, 1);
    run_child(s, 0, &best, true);
    fflush(stdout);
    dup2(save, 1);
    close(save);
    close(fd);
    // fresh process
    pid_t p = fork();
    if (p == 0) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      execl("/proc/self/exe", "sim", "replay", path.c_str(), "--quiet", g_thorough ? "--thorough" : nullptr, nullptr);
      _exit(9);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "replay in a fresh process did not reproduce\n"); return 2; }
    printf("%s: %s\n", a.cls.c_str(), a.msg.c_str());
    printf("run %llu of seed %llu, %zu choices, minimised to %zu\n", (unsigned long long)idx, (unsigned long long)seed, orig.ch.size(), best.size());
    printf("VIOLATION property=%s replay=%s\n", prop->id, path.c_str());
    viol = a.cls + ": " + a.msg;
    rc = 1;
  }
  double t2 = wall();

  if (!out.empty()) {
    // a few actual cases, written out
    std::string samples = "[";
    for (uint64_t i = 0, n = 0; i < 40 && n < 3; i++) {
      Slot *s = &slots[0];
      run_child(s, run_seed(seed, i), nullptr, false);
      if (s->status != ST_OK) continue;
      std::string fl;
      for (int f = 0; f < N_FAULTS; f++) if (s->faults[f]) fl += strf("%s%s x%u", fl.empty() ? "" : ", ", fault_names[f], s->faults[f]);
      if (fl.empty() && i < 30) continue;
      samples += strf("%s{\"run\": %llu, \"run_seed\": \"%016llx\", \"choices\": %u, \"simulated_s\": %.3f, \"calls\": %llu, \"faults\": %s, \"trace_hash\": \"%016llx\"}",
                      n ? ", " : "", (unsigned long long)i, (unsigned long long)run_seed(seed, i), s->nch, s->simtime / 1e9,
                      (unsigned long long)s->steps, jstr(fl).c_str(), (unsigned long long)s->hash);
      n++;
    }
    samples += "]";
    std::ofstream f(out);
    double el = t1 - t0;
    f << "{\"evaluations\": " << tot_runs << ", \"distinct_nontrivial\": " << shapes.size()
      << ", \"rule\": " << jstr(prop->rule) << ", \"samples\": " << samples
      << ", \"runs_with_faults\": " << nontriv << ", \"discarded\": " << disc
      << ", \"choice_overflow\": " << over << ", \"repeat_checked\": " << sc << ", \"repeat_differed\": " << scb
      << strf(", \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"simulated_hours\": %.3f, \"os_calls\": %llu, \"search_s\": %.2f",
              tot_runs / el * 3600, tot_runs / el * 3600, simtime / 3600, (unsigned long long)steps, el);
    f << ", \"faults_fired\": {";
    bool first = true;
    for (auto &x : fc) { f << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; }
    f << "}, \"runs_with_fault\": {";
    first = true;
    for (auto &x : fr) { f << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; }
    f << "}, \"rare_conditions\": {";
    first = true;
    for (auto &x : pr) { f << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; }
    f << "}, \"violation\": " << (viol.empty() ? "null" : jstr(viol)) << strf(", \"total_s\": %.2f}\n", t2 - t0);
  }
  fprintf(stderr, "%s: %llu runs (%llu discarded), %zu distinct with faults, %.1f h simulated, %.1f s\n", prop->id,
          (unsigned long long)tot_runs, (unsigned long long)disc, shapes.size(), simtime / 3600, t1 - t0);
  return rc;
}

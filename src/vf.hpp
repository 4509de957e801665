// Shared machinery of the explorers: parallel exhaustive driver, shared counters and state sets,
// crash/hang attribution, violation artefacts, evidence.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

inline double now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec * 1e-6; }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h, s.size());
}
inline uint64_t hash_d(uint64_t h, double d, double q = 1e-6) { return mix(h, (uint64_t)(int64_t)llround(d / q)); }

struct Opts {
  std::string prop, tier = "quick", verif = ".", scratch, replay;
  int seed = 1, workers = 8; double deadline = 0; bool list = false;
  bool thorough() const { return tier == "thorough"; }
};

struct SharedSet {  // lock-free insert-only set of 64-bit hashes, shared between forked workers
  std::atomic<uint64_t>* t = nullptr; uint64_t mask = 0; std::atomic<uint64_t>* n = nullptr;
  void init(int bits) {
    size_t sz = ((size_t)1 << bits) * 8 + 64;
    void* p = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    n = (std::atomic<uint64_t>*)p; t = n + 8; mask = ((uint64_t)1 << bits) - 1;
  }
  bool insert(uint64_t h) {
    if (!h) h = 1;
    if (n->load(std::memory_order_relaxed) > mask - mask / 8) return false;
    for (uint64_t i = h & mask;; i = (i + 1) & mask) {
      uint64_t c = t[i].load(std::memory_order_relaxed);
      if (c == h) return false;
      if (c == 0) {
        uint64_t z = 0;
        if (t[i].compare_exchange_strong(z, h)) { n->fetch_add(1); return true; }
        if (z == h) return false;
      }
    }
  }
  uint64_t size() const { return n->load(); }
};

const int MAXV = 40, TXT = 24000, NCTR = 48, NSAMP = 6;
struct Viol { char sig[160]; char text[TXT]; char msg[1200]; };
struct Slot { std::atomic<uint64_t> beat; char text[TXT]; char pad[64]; };
struct Shared {
  std::atomic<uint64_t> next_job, ctr[NCTR];
  std::atomic<int> nviol, nsamp, stop;
  std::atomic<int> lock;
  Viol v[MAXV]; char samp[NSAMP][2400];
  Slot slot[64];
};

struct Ctx {
  Opts o; Shared* sh = nullptr; SharedSet states, outcomes, inputs;
  std::vector<std::string> cname; double t0 = now(); int wid = 0; std::string dir;
  std::map<std::string, std::string> bounds; std::vector<std::string> assumptions;
  bool incomplete = false;

  int ctr(const std::string& n) {   // must be registered before run()
    for (size_t i = 0; i < cname.size(); i++) if (cname[i] == n) return (int)i;
    cname.push_back(n); if (cname.size() > NCTR) abort(); return (int)cname.size() - 1;
  }
  void add(int c, uint64_t k = 1) { sh->ctr[c].fetch_add(k, std::memory_order_relaxed); }
  uint64_t get(const std::string& n) { return sh->ctr[ctr(n)].load(); }
  int c_exec, c_trans;

  void init(const Opts& oo) {
    o = oo;
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    states.init(25); outcomes.init(24); inputs.init(24);
    c_exec = ctr("executions"); c_trans = ctr("transitions");
    if (o.scratch.empty()) {
      char b[] = "/dev/shm/vfXXXXXX"; char b2[] = "/tmp/vfXXXXXX";
      char* d = mkdtemp(b); if (!d) d = mkdtemp(b2);
      if (!d) { perror("mkdtemp"); exit(2); }
      o.scratch = d;
    }
    dir = o.scratch;
  }
  void begin(const std::string& text) {   // publish the case about to run (for crash / hang attribution)
    Slot& s = sh->slot[wid]; size_t n = std::min(text.size(), (size_t)TXT - 1);
    memcpy(s.text, text.data(), n); s.text[n] = 0; s.beat.fetch_add(1, std::memory_order_relaxed);
  }
  void sample(const std::string& s) {
    if (sh->nsamp.load(std::memory_order_relaxed) >= NSAMP) return;
    int i = sh->nsamp.fetch_add(1); if (i < NSAMP) snprintf(sh->samp[i], sizeof sh->samp[i], "%s", s.c_str());
  }
  void violation(const std::string& sig, const std::string& msg, const std::string& text) {
    while (sh->lock.exchange(1)) usleep(50);
    int n = std::min(sh->nviol.load(), MAXV); bool dup = false;
    for (int i = 0; i < n; i++) if (sig == sh->v[i].sig) {
      dup = true;   // keep the shortest witness of each kind
      if (text.size() < strlen(sh->v[i].text)) { snprintf(sh->v[i].text, TXT, "%s", text.c_str()); snprintf(sh->v[i].msg, 1200, "%s", msg.c_str()); }
    }
    if (!dup && n < MAXV) {
      snprintf(sh->v[n].sig, 160, "%s", sig.c_str()); snprintf(sh->v[n].msg, 1200, "%s", msg.c_str());
      snprintf(sh->v[n].text, TXT, "%s", text.c_str()); sh->nviol.store(n + 1);
    }
    sh->lock.store(0);
  }
  // Runs fn(job) for every job in [0,total) on forked workers (dynamic distribution).
  void run(uint64_t total, const std::function<void(uint64_t)>& fn) {
    sh->next_job = 0; int W = o.workers; std::vector<pid_t> pid(W); std::vector<double> seen(W, now()); std::vector<uint64_t> beat(W, ~0ull);
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < W; w++) {
      pid[w] = fork();
      if (pid[w] == 0) {
        wid = w; dir = o.scratch + "/w" + std::to_string(w); mkdir(dir.c_str(), 0700);
        int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
        int er = open((dir + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(er, 2);
        for (;;) {
          uint64_t j = sh->next_job.fetch_add(1); if (j >= total || sh->stop.load()) break;
          if (o.deadline > 0 && now() - t0 > o.deadline) { sh->stop = 1; break; }
          fn(j);
        }
        _exit(0);
      }
    }
    int live = W;
    while (live > 0) {
      for (int w = 0; w < W; w++) if (pid[w] > 0) {
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          pid[w] = 0; live--;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            std::string err; { std::ifstream f(o.scratch + "/w" + std::to_string(w) + "/stderr"); std::stringstream s; s << f.rdbuf(); err = s.str(); }
            std::string first; for (const char* k : {"ERROR: ", "runtime error", "Assertion", "terminate called", "what()"}) { size_t p = err.find(k); if (p != std::string::npos) { first = err.substr(p, 300); break; } }
            std::string how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
            violation("crash", "the code under test crashed (" + how + "): " + first, sh->slot[w].text);
          }
        } else {
          uint64_t b = sh->slot[w].beat.load();
          if (b != beat[w]) { beat[w] = b; seen[w] = now(); }
          else if (now() - seen[w] > 100) { violation("hang", "no progress for 100 s on this case", sh->slot[w].text); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; live--; }
        }
      }
      usleep(20000);
    }
    if (sh->stop.load()) incomplete = true;
    wid = 0;
  }
  static std::string js(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
  }
  std::map<std::string, std::string> load_known() {
    std::map<std::string, std::string> k; std::ifstream f(o.verif + "/known_findings.txt"); std::string l;
    while (std::getline(f, l)) {
      std::string pre = "known: property=" + o.prop + " sig="; if (l.rfind(pre, 0) != 0) continue;
      std::string rest = l.substr(pre.size()); size_t sp = rest.find(' '); k[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
    }
    return k;
  }
  int finish(const std::string& rule) {
    auto known = load_known(); int bad = 0; int n = std::min(sh->nviol.load(), MAXV);
    std::string rd = o.verif + "/replays"; mkdir(rd.c_str(), 0755);
    for (int i = 0; i < n; i++) {
      std::string sig = sh->v[i].sig; auto it = known.find(sig);
      std::string path = rd + "/" + o.prop + "-" + std::to_string(i) + ".txt";
      { std::ofstream f(path); f << sh->v[i].text; }
      if (it != known.end()) { printf("KNOWN-FINDING: property=%s %s %s\n", o.prop.c_str(), sig.c_str(), it->second.c_str()); continue; }
      bad++;
      printf("VIOLATION property=%s replay=%s\n  kind: %s\n  %s\n", o.prop.c_str(), path.c_str(), sig.c_str(), sh->v[i].msg);
    }
    mkdir((o.verif + "/evidence").c_str(), 0755);
    std::ofstream e(o.verif + "/evidence/" + o.prop + ".json");
    e << "{\n \"property\": " << js(o.prop) << ",\n \"tier\": " << js(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n";
    e << "  \"states\": " << states.size() << ",\n  \"transitions\": " << sh->ctr[c_trans].load() << ",\n  \"traces_validated_against_impl\": " << sh->ctr[c_exec].load() << ",\n";
    e << "  \"distinct_inputs\": " << inputs.size() << ",\n  \"distinct_outcomes\": " << outcomes.size() << ",\n";
    e << "  \"exhaustive\": " << (incomplete ? "false" : "true") << ",\n  \"rule\": " << js(rule) << ",\n";
    for (size_t i = 2; i < cname.size(); i++) e << "  " << js("n_" + cname[i]) << ": " << sh->ctr[i].load() << ",\n";
    for (auto& b : bounds) e << "  " << js("bound_" + b.first) << ": " << js(b.second) << ",\n";
    e << "  \"samples\": ["; int ns = std::min(sh->nsamp.load(), NSAMP); for (int i = 0; i < ns; i++) e << (i ? ", " : "") << js(sh->samp[i]); e << "]\n },\n";
    e << " \"assumptions\": ["; for (size_t i = 0; i < assumptions.size(); i++) e << (i ? ", " : "") << js(assumptions[i]); e << "],\n";
    e << " \"violations\": " << bad << ",\n \"wall_s\": " << (now() - t0) << "\n}\n"; e.close();
    printf("%s %s: executions=%llu states=%llu transitions=%llu distinct_inputs=%llu distinct_outcomes=%llu %s violations=%d wall=%.1fs\n", o.prop.c_str(), o.tier.c_str(),
      (unsigned long long)sh->ctr[c_exec].load(), (unsigned long long)states.size(), (unsigned long long)sh->ctr[c_trans].load(), (unsigned long long)inputs.size(), (unsigned long long)outcomes.size(), incomplete ? "INCOMPLETE" : "exhaustive", bad, now() - t0);
    for (size_t i = 2; i < cname.size(); i++) printf("  %s=%llu\n", cname[i].c_str(), (unsigned long long)sh->ctr[i].load());
    cleanup();
    return bad ? 1 : 0;
  }
  void cleanup() {
    if (o.scratch.rfind("/dev/shm/vf", 0) == 0 || o.scratch.rfind("/tmp/vf", 0) == 0) {
      std::string c = "rm -rf -- '" + o.scratch + "'"; if (system(c.c_str())) {}
    }
  }
};

inline Opts parse_opts(int argc, char** argv) {
  Opts o; if (const char* s = getenv("VERIF_SEED")) o.seed = atoi(s);
  if (const char* t = getenv("VERIF_TIER")) o.tier = t;
  long nc = sysconf(_SC_NPROCESSORS_ONLN); o.workers = nc < 1 ? 4 : nc > 16 ? 16 : (int)nc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--prop") o.prop = nx(); else if (a == "--tier") o.tier = nx(); else if (a == "--verif") o.verif = nx();
    else if (a == "--replay") o.replay = nx(); else if (a == "--workers") o.workers = atoi(nx().c_str()); else if (a == "--deadline") o.deadline = atof(nx().c_str());
  }
  return o;
}
inline std::string read_file(const std::string& p) {
  std::string r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return r; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r;
}
inline bool write_file(const std::string& p, const std::string& s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return false; size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } close(fd); return o == s.size();
}
}  // namespace vf

// main(): included after the harness.  Options come from environment variables set by run.py.
static uint64_t envu(const char* n, uint64_t d) { const char* s = getenv(n); return s ? strtoull(s, 0, 0) : d; }
static std::string outdir;

struct Summary {
  uint64_t states = 0, transitions = 0, cycles = 0, depth = 0;
  bool complete = true;
  std::string capped, violation, replay;
  uint64_t covers[N_COVERS] = {0}, knowns[16] = {0};
  uint64_t traces = 0, deep = 0;
  void add(const Ctx& c) {
    for (int k = 0; k < N_COVERS; k++) covers[k] += c.covers[k];
    for (int k = 0; k < 16; k++) knowns[k] += c.knowns[k];
    cycles += c.cycles;
  }
  void print() {
    FILE* f = fopen((outdir + "/summary.txt").c_str(), "w");
    fprintf(f, "states %llu\ntransitions %llu\ncycles %llu\ndepth %llu\ncomplete %d\ntraces %llu\n",
            (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)cycles,
            (unsigned long long)depth, (int)complete, (unsigned long long)traces);
    if (deep) fprintf(f, "deep %llu\n", (unsigned long long)deep);
    if (!capped.empty()) fprintf(f, "capped %s\n", capped.c_str());
    if (!violation.empty()) fprintf(f, "violation %s\n", violation.c_str());
    for (int k = 0; k < N_COVERS; k++) if (covers[k]) fprintf(f, "cover %d %llu\n", k, (unsigned long long)covers[k]);
    for (int k = 0; k < 16; k++) if (knowns[k]) fprintf(f, "known %d %llu\n", k, (unsigned long long)knowns[k]);
    fclose(f);
  }
};

static FILE* open_trace(const std::string& name) {
  FILE* f = fopen((outdir + "/" + name).c_str(), "w");
  fprintf(f, "I %s\nO %s\n", IN_NAMES, OUT_NAMES);
  return f;
}

#ifdef SWEEP
int main() {
  outdir = getenv("MC_OUT") ? getenv("MC_OUT") : ".";
  int T = (int)envu("MC_THREADS", 1);
  uint64_t ntr = envu("MC_TRACES", 4);
  Summary S;
  std::atomic<uint64_t> nextc(0);
  std::mutex mu;
  uint64_t badchunk = ~0ull;
  std::string badmsg;
  std::vector<std::thread> th;
  uint64_t N = N_CHUNKS;
  uint64_t inputs = 0;
  for (int t = 0; t < T; t++) th.emplace_back([&]() {
    Ctx c;
    while (true) {
      uint64_t k = nextc++;
      if (k >= N || badchunk != ~0ull) break;
      c.begin();
      chunk(k, c);
      if (c.failed) {
        std::lock_guard<std::mutex> g(mu);
        if (k < badchunk) { badchunk = k; badmsg = c.msg; }
        break;
      }
    }
    std::lock_guard<std::mutex> g(mu);
    S.add(c);
  });
  for (auto& x : th) x.join();
  (void)inputs;
  S.states = S.covers[0];      // cover 0 counts checked inputs in sweep mode
  S.transitions = S.cycles;
  if (badchunk != ~0ull) {
    S.complete = false;
    S.violation = badmsg;
    Ctx c;
    c.trace = open_trace("violation.trace");
    chunk(badchunk, c);
    fclose(c.trace);
  } else {
    for (uint64_t k = 0; k < ntr && k < N; k++) {
      Ctx c;
      c.trace = open_trace("trace" + std::to_string(k) + ".trace");
      c.sample = true;
      uint64_t seed = envu("VERIF_SEED", 1);
      chunk(k == 0 ? 0 : (k * 0x9E3779B97F4A7C15ull + seed * 7919) % N, c);
      fclose(c.trace);
      S.traces++;
    }
  }
  S.print();
  return 0;
}
#else
struct State { Regs r; Mon m; };
static inline void init(State& s, Ctx& c) { start(s.r, s.m, c); }
static inline void step(State& s, Ctx& c) { step(s.r, s.m, c); }

static inline uint64_t hash_bytes(const void* p, size_t n) {
  const unsigned char* b = (const unsigned char*)p;
  uint64_t h = 0x9E3779B97F4A7C15ull ^ n;
  while (n >= 8) {
    uint64_t x; memcpy(&x, b, 8);
    h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    b += 8; n -= 8;
  }
  uint64_t x = 0; memcpy(&x, b, n);
  h = (h ^ x) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}

struct Shard {
  static const size_t CH = 1024;
  std::mutex mu;
  std::vector<std::unique_ptr<State[]>> chunks;
  std::vector<uint64_t> parent;
  std::vector<uint32_t> ord;
  std::vector<uint32_t> table;     // idx+1
  std::vector<uint32_t> tag;
  size_t count = 0;
  State& at(size_t i) { return chunks[i / CH][i % CH]; }
  void grow() {
    size_t ns = table.empty() ? 64 : table.size() * 2;
    std::vector<uint32_t> nt(ns, 0), ng(ns, 0);
    for (size_t k = 0; k < table.size(); k++) if (table[k]) {
      uint64_t h = hash_bytes(&at(table[k] - 1), sizeof(State));
      size_t p = (h >> 8) & (ns - 1);
      while (nt[p]) p = (p + 1) & (ns - 1);
      nt[p] = table[k]; ng[p] = (uint32_t)(h >> 32);
    }
    table.swap(nt); tag.swap(ng);
  }
  // returns index if new, -1 otherwise
  int64_t insert(const State& s, uint64_t h, uint64_t par, uint32_t o) {
    std::lock_guard<std::mutex> g(mu);
    if (count * 2 >= table.size()) grow();
    size_t m = table.size() - 1, p = (h >> 8) & m;
    uint32_t tg = (uint32_t)(h >> 32);
    while (table[p]) {
      if (tag[p] == tg && !memcmp(&at(table[p] - 1), &s, sizeof(State))) return -1;
      p = (p + 1) & m;
    }
    if (count % CH == 0) chunks.emplace_back(new State[CH]);
    memcpy(&at(count), &s, sizeof(State));
    parent.push_back(par); ord.push_back(o);
    table[p] = (uint32_t)count + 1; tag[p] = tg;
    return (int64_t)count++;
  }
};
static const int NSH = 256;
static Shard shards[NSH];
static State& state_of(uint64_t id) { return shards[id >> 40].at(id & ((1ull << 40) - 1)); }
static const uint64_t ROOT = ~0ull;

static void run_ordinal(State& s, bool isinit, uint32_t ord, FILE* trace, Ctx* keep = nullptr) {
  Ctx c;
  State base = s;
  for (uint32_t k = 0;; k++) {
    c.begin();
    State t;
    memcpy(&t, &base, sizeof t);
    if (k == ord) c.trace = trace;
    if (isinit) init(t, c); else step(t, c);
    if (k == ord) { memcpy(&s, &t, sizeof t); if (keep) *keep = c; return; }
    c.failed = false;
    if (!c.next()) { fprintf(stderr, "engine: ordinal out of range\n"); abort(); }
  }
}

static void write_path(uint64_t id, int64_t lastord, const std::string& name) {
  std::vector<uint32_t> path;
  for (uint64_t x = id; x != ROOT;) {
    Shard& sh = shards[x >> 40];
    size_t i = x & ((1ull << 40) - 1);
    path.push_back(sh.ord[i]);
    x = sh.parent[i];
  }
  std::reverse(path.begin(), path.end());
  if (lastord >= 0) path.push_back((uint32_t)lastord);
  FILE* f = open_trace(name);
  State s;
  memset(&s, 0, sizeof s);
  for (size_t k = 0; k < path.size(); k++) run_ordinal(s, k == 0, path[k], f);
  fclose(f);
}

// Long executions beyond the depth of the search, with the same monitor: a fixed list of schedules (the
// concatenation of all words of 3 and of 7 choices, and decorrelated ones), each `len` clock edges long.
static const int N_DEEP = 6;
static void deep_run(int k, uint64_t len, Ctx& c) {
  if (k < 2) c.wlen = k ? 7 : 3; else c.rng = 0x9E3779B97F4A7C15ull * (2 * k + 1);
  State s, t;
  memset(&s, 0, sizeof s);
  for (int q = 0; q < 100; q++) { c.begin(); memset(&s, 0, sizeof s); init(s, c); if (!c.pruned) break; }
  uint64_t c0 = c.cycles, stuck = 0, same = 0;
  while (c.cycles - c0 < len && !c.failed && !c.pruned && stuck < 200 && same < len) {
    memcpy(&t, &s, sizeof t);
    uint64_t before = c.cycles;
    c.begin();
    long at = c.trace ? ftell(c.trace) : 0;
    step(t, c);
    if (c.pruned && !c.failed) {
      if (c.trace) { fseek(c.trace, at, SEEK_SET); if (ftruncate(fileno(c.trace), at)) {} }
      stuck++; c.pruned = false; c.cycles = before; continue;
    }
    if (c.cycles == before) same++;
    stuck = 0; memcpy(&s, &t, sizeof s);
  }
}

int main() {
  outdir = getenv("MC_OUT") ? getenv("MC_OUT") : ".";
  int T = (int)envu("MC_THREADS", 1);
  uint64_t maxstates = envu("MC_MAX_STATES", 2000000), maxdepth = envu("MC_MAX_DEPTH", 1000000);
  uint64_t ntr = envu("MC_TRACES", 4), walklen = envu("MC_WALK", 60);
  Summary S;
  std::vector<uint64_t> frontier;
  std::mutex mu;
  std::atomic<bool> stop(false);
  uint64_t badid = ROOT; int64_t badord = -1; bool bad = false; std::string badmsg;
  {
    Ctx c;
    uint32_t o = 0;
    do {
      c.begin();
      State s;
      memset(&s, 0, sizeof s);
      init(s, c);
      S.transitions++;
      if (c.failed) { bad = true; badord = o; badmsg = c.msg; break; }
      if (!c.pruned) {
        uint64_t h = hash_bytes(&s, sizeof s);
        int64_t i = shards[h & (NSH - 1)].insert(s, h, ROOT, o);
        if (i >= 0) { frontier.push_back(((h & (NSH - 1)) << 40) | (uint64_t)i); S.states++; }
      }
      o++;
    } while (c.next());
    S.add(c);
  }
  uint64_t depth = 0;
  std::vector<uint64_t> lastlevel = frontier;
  std::vector<Ctx> ctxs(T);
  while (!frontier.empty() && !bad) {
    if (depth >= maxdepth) { S.complete = false; S.capped = "depth"; break; }
    if (S.states >= maxstates) { S.complete = false; S.capped = "states"; break; }
    std::vector<std::vector<uint64_t>> nf(T);
    std::atomic<size_t> nexti(0);
    std::atomic<uint64_t> trans(0), news(0);
    auto work = [&](int t) {
      Ctx& c = ctxs[t];
      uint64_t tr = 0, nw = 0;
      while (!stop) {
        size_t b = nexti.fetch_add(64);
        if (b >= frontier.size()) break;
        for (size_t q = b; q < std::min(b + 64, frontier.size()) && !stop; q++) {
          uint64_t id = frontier[q];
          State base;
          { Shard& sh = shards[id >> 40]; std::lock_guard<std::mutex> g(sh.mu); memcpy(&base, &state_of(id), sizeof base); }
          c.c.clear(); c.n.clear();
          uint32_t o = 0;
          do {
            c.begin();
            State s;
            memcpy(&s, &base, sizeof s);
            step(s, c);
            tr++;
            if (c.failed) {
              std::lock_guard<std::mutex> g(mu);
              if (!bad) { bad = true; badid = id; badord = o; badmsg = c.msg; }
              stop = true;
              c.failed = false;
              break;
            }
            if (!c.pruned) {
              uint64_t h = hash_bytes(&s, sizeof s);
              int64_t i = shards[h & (NSH - 1)].insert(s, h, id, o);
              if (i >= 0) { nf[t].push_back(((h & (NSH - 1)) << 40) | (uint64_t)i); nw++; }
            }
            o++;
          } while (c.next());
        }
      }
      trans += tr; news += nw;
    };
    if (T == 1 || frontier.size() < 256) { work(0); }
    else {
      std::vector<std::thread> th;
      for (int t = 0; t < T; t++) th.emplace_back(work, t);
      for (auto& x : th) x.join();
    }
    S.transitions += trans; S.states += news;
    depth++;
    std::vector<uint64_t> nx;
    for (auto& v : nf) nx.insert(nx.end(), v.begin(), v.end());
    if (!nx.empty()) lastlevel = nx;
    frontier.swap(nx);
  }
  S.depth = depth;
  for (auto& c : ctxs) S.add(c);
  int badrun = -1;
  uint64_t deep = envu("MC_DEEP", 0);
  if (!bad && deep) {
    std::atomic<int> nextk(0);
    std::vector<Ctx> dc(N_DEEP);
    std::vector<std::thread> th;
    for (int t = 0; t < std::min(T, N_DEEP); t++) th.emplace_back([&]() { for (int k; (k = nextk++) < N_DEEP;) deep_run(k, deep, dc[k]); });
    for (auto& x : th) x.join();
    for (int k = 0; k < N_DEEP; k++) {
      S.deep += dc[k].cycles;
      if (dc[k].failed && badrun < 0) { badrun = k; S.violation = dc[k].msg; S.complete = false; }
    }
  }
  if (badrun >= 0) {
    Ctx c;
    c.trace = open_trace("violation.trace");
    deep_run(badrun, deep, c);
    fclose(c.trace);
  } else
  if (bad) {
    S.complete = false;
    S.violation = badmsg;
    if (badid == ROOT) {
      FILE* f = open_trace("violation.trace");
      State s; memset(&s, 0, sizeof s);
      run_ordinal(s, true, (uint32_t)badord, f);
      fclose(f);
    } else write_path(badid, badord, "violation.trace");
  } else {
    // conformance traces: the deepest states found, then seeded walks through the same choices
    uint64_t np = ntr / 2, k = 0;
    for (; k < np && k < lastlevel.size(); k++)
      write_path(lastlevel[(size_t)((__uint128_t)lastlevel.size() * k / np)], -1, "trace" + std::to_string(k) + ".trace");
    for (; k < ntr; k++) {
      Ctx c;
      c.rng = 0x2545F4914F6CDD1Dull * (k + 1 + 1000 * envu("VERIF_SEED", 1));
      c.trace = open_trace("trace" + std::to_string(k) + ".trace");
      State s; memset(&s, 0, sizeof s);
      init(s, c);
      for (uint64_t q = 0; q < walklen && !c.failed && !c.pruned; q++) { c.begin(); step(s, c); }
      fclose(c.trace);
    }
    S.traces = k;
  }
  S.print();
  return 0;
}
#endif

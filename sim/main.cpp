// Seeded search over scenarios, fault sequences and schedules; confirmation, minimisation and
// replay of what it finds.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static bool read_file(const string &p, string &s)
{
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return false;
    char b[65536];
    size_t n;
    s.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return true;
}
static void write_file(const string &p, const string &s)
{
    FILE *f = fopen(p.c_str(), "wb");
    if (!f) return;
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

struct Outcome {
    bool      bad = false;
    Violation v;
    u64       hash = 0;
    string    key() const { return v.cls; }
};
static Outcome judge(const RunResult &r, unsigned mask)
{
    Outcome o;
    o.hash = r.hash;
    for (auto &v : r.v)
        if (v.props & mask) {
            o.bad = true;
            o.v   = v;
            break;
        }
    return o;
}

// The scenario of a given run: variant 0 has no faults, the others are derived from what it did
static Scenario scenario_of(int prop, u64 seed, u64 index, int variant, Stats &st)
{
    Scenario sc = gen_scenario(prop, seed, index);
    if (variant > 0) {
        RunResult base = exec_scenario(sc, st, false);
        Rng       r(Rng::mix(seed * 31 + (u64)prop) ^ Rng::mix(index * 64 + (u64)variant + 5));
        derive_variant(sc, base, prop, r, variant);
    }
    return sc;
}

// ---------------------------------------------------------------- running in a process of its own
// Gives the outcome, a crash included
// Ends the process after so much time of its processors: the clock on the wall says nothing on a busy machine
static void cpu_limit(unsigned seconds)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static Outcome in_child(const std::function<RunResult()> &fn, unsigned mask, const string &tmp, unsigned limit = 25)
{
    int     p[2];
    Outcome o;
    if (pipe(p) != 0) return o;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int e = open((tmp + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(e, 2);
        cpu_limit(limit);
        Outcome q = judge(fn(), mask);
        J       j = J::obj();
        j.set("bad", q.bad).set("cls", q.v.cls).set("msg", q.v.msg).set("props", (int64_t)q.v.props).set("ctx", q.v.ctx).set("op", q.v.op).set("hash", (int64_t)q.hash);
        string s = j.dump();
        size_t k = 0;
        while (k < s.size()) {
            ssize_t w = write(p[1], s.data() + k, s.size() - k);
            if (w <= 0) break;
            k += (size_t)w;
        }
        _exit(0);
    }
    close(p[1]);
    string s;
    char   b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    J j;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && J::load(s, j)) {
        o.bad     = j.num("bad");
        o.v.cls   = j.str("cls");
        o.v.msg   = j.str("msg");
        o.v.props = (unsigned)j.num("props");
        o.v.ctx   = (int)j.num("ctx");
        o.v.op    = (int)j.num("op");
        o.hash    = (u64)j.num("hash");
        return o;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return o; // ended from outside: says nothing
    o.bad     = true;
    o.v.props = PALL;
    string e;
    read_file(tmp + ".err", e);
    size_t at = e.find("SUMMARY: ");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        o.v.cls = "timeout";
        o.v.msg = "the execution does not come to an end";
    } else {
        o.v.cls = "crash";
        string m = at != string::npos ? e.substr(at + 9, e.find('\n', at) - at - 9) : "";
        if (m.empty()) {
            at = e.find("runtime error: ");
            m  = at != string::npos ? e.substr(at, e.find('\n', at) - at) : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        }
        // Which kind of access, not at which address
        string k = m;
        size_t sp = k.find("Sanitizer: ");
        if (sp != string::npos) k = k.substr(sp + 11);
        o.v.cls += ":" + k.substr(0, k.find(' '));
        o.v.msg = m;
    }
    return o;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
    string   tmp, key;
    unsigned mask;
    double   until;
    int      tried = 0;
    J        best;

    bool same(const J &j)
    {
        if (now() > until) return false;
        Scenario sc;
        if (!sc.load(j)) return false;
        tried++;
        Outcome o = in_child([&] { Stats st; return exec_scenario(sc, st, true); }, mask, tmp, 30);
        return o.bad && o.key() == key;
    }
    bool attempt(const J &j)
    {
        if (!same(j)) return false;
        best = j;
        return true;
    }
    typedef vector<std::pair<string, int>> Path; // member, index
    static J *at(J &j, const Path &p)
    {
        J *q = &j;
        for (auto &s : p) {
            if (s.first.size()) {
                J *n = nullptr;
                for (auto &m : q->o) if (m.first == s.first) n = &m.second;
                if (!n) return nullptr;
                q = n;
            }
            if (s.second >= 0) {
                if ((size_t)s.second >= q->a.size()) return nullptr;
                q = &q->a[(size_t)s.second];
            }
        }
        return q;
    }
    void list(const Path &p, std::function<void(J &, size_t, size_t)> fix = nullptr)
    {
        J *l = at(best, p);
        if (!l || l->t != J::ARR) return;
        for (size_t chunk = std::max<size_t>(1, l->a.size() / 2);; chunk /= 2) {
            for (size_t i = at(best, p)->a.size(); i > 0 && now() < until;) {
                size_t n = std::min(chunk, i), from = i - n;
                J      c = best;
                J     *q = at(c, p);
                if (fix) fix(c, from, n);
                q = at(c, p);
                q->a.erase(q->a.begin() + (long)from, q->a.begin() + (long)(from + n));
                attempt(c);
                i = from;
            }
            if (chunk <= 1) break;
        }
    }
    void member(const Path &p, const string &k)
    {
        J  c = best;
        J *q = at(c, p);
        if (!q || !q->get(k.c_str())) return;
        q->o.erase(std::remove_if(q->o.begin(), q->o.end(), [&](auto &m) { return m.first == k; }), q->o.end());
        attempt(c);
    }
    void run()
    {
        for (int round = 0; round < 3 && now() < until; round++) {
            string before = best.dump();
            list({{"faults", -1}});
            list({{"pre", -1}});
            member({}, "yield");
            for (size_t t = 0; t < best.list("tasks").size(); t++)
                list({{"tasks", (int)t}}, [&](J &c, size_t from, size_t n) {
                    // operations are numbered per context: the faults of later ones move up
                    J *ops = at(c, {{"tasks", (int)t}});
                    for (size_t i = from + n; i > from; i--) {
                        const J &o = ops->a[i - 1];
                        if (!o.get("c")) continue;
                        int64_t ctx = o.num("c"), pos = 0;
                        for (size_t k = 0; k + 1 < i; k++) if (ops->a[k].get("c") && ops->a[k].num("c") == ctx) pos++;
                        for (auto &m : c.o)
                            if (m.first == "faults")
                                for (auto &f : m.second.a)
                                    if (f.num("x") == ctx && f.num("j") > pos) f.set("j", f.num("j") - 1);
                    }
                });
            list({{"env", -1}});
            for (size_t t = 0; t < best.list("tasks").size(); t++)
                for (size_t i = 0; i < best.list("tasks")[t].a.size(); i++) list({{"tasks", (int)t}, {"", (int)i}, {"args", -1}});
            for (size_t x = 0; x < best.list("ctxs").size(); x++) {
                for (auto k : {"cfg", "prefix", "desc", "ver", "dbg"}) member({{"ctxs", (int)x}}, k);
                for (size_t t = 0; t < best.list("ctxs")[x].list("tables").size(); t++) {
                    Path pt = {{"ctxs", (int)x}, {"tables", (int)t}};
                    list(pt);
                    for (size_t o = 0; o < at(best, pt)->a.size(); o++) {
                        Path po = pt;
                        po.push_back({"", (int)o});
                        for (auto k : {"v", "req", "con", "e", "d", "hint", "nested", "hk"}) member(po, k);
                        Path pv = po;
                        pv.push_back({"v", -1});
                        list(pv);
                    }
                }
            }
            // Earlier faults are easier to read
            for (size_t i = 0; i < best.list("faults").size(); i++)
                for (int64_t n = 0; n < best.list("faults")[i].num("n") && n < 40; n++) {
                    J c = best;
                    at(c, {{"faults", (int)i}})->set("n", n);
                    if (attempt(c)) break;
                }
            if (best.dump() == before) break;
        }
    }
};

// ---------------------------------------------------------------- the search
struct Slot { volatile u64 index; volatile int variant; volatile int busy; };
struct Shared { volatile u64 next, stop_at; Slot slot[64]; };

struct Found { u64 index; int variant; string cls; bool varies = false; };

static void add(Stats &a, const Stats &b)
{
    a.ops += b.ops, a.parses += b.parses, a.parse_ok += b.parse_ok, a.parse_err += b.parse_err, a.parse_exit += b.parse_exit;
    a.allocs += b.allocs, a.writes += b.writes, a.callbacks += b.callbacks, a.steps += b.steps, a.switches += b.switches;
    a.nested += b.nested, a.observed += b.observed, a.solo += b.solo, a.runs += b.runs;
    for (int i = 0; i < FC_N; i++) a.fired[i] += b.fired[i];
    for (auto &p : b.probes) a.probes[p.first] += p.second;
}
static J stats_json(const Stats &s)
{
    J j = J::obj();
    j.set("ops", s.ops).set("parses", s.parses).set("parse_ok", s.parse_ok).set("parse_err", s.parse_err).set("parse_exit", s.parse_exit);
    j.set("allocs", s.allocs).set("writes", s.writes).set("callbacks", s.callbacks).set("steps", s.steps).set("switches", s.switches);
    j.set("nested", s.nested).set("observed", s.observed).set("solo", s.solo).set("runs", s.runs);
    J f = J::obj();
    for (int i = 0; i < FC_N; i++) f.set(FCNAMES[i], s.fired[i]);
    j.set("fired", f);
    J p = J::obj();
    for (auto &q : s.probes) p.set(q.first.c_str(), q.second);
    j.set("probes", p);
    return j;
}

static void work(int w, Shared *sh, int prop, u64 seed, double until, u64 max_index, const string &dir)
{
    string base = dir + "/w" + std::to_string(w);
    int    e    = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
    unsigned         mask = PB(prop);
    Stats            total;
    std::set<u64>    hashes, scheds, nontriv;
    u64              runs = 0, seeds = 0, other = 0;
    std::map<string, u64> others;
    string           found;
    string           hashlog;
    bool             log_all = getenv("SIM_LOG_HASHES") != nullptr;
    for (;;) {
        u64 index = __sync_fetch_and_add(&sh->next, 1);
        if (index >= max_index || index > sh->stop_at || now() > until) break;
        Slot &s   = sh->slot[w];
        s.index   = index;
        s.variant = 0;
        s.busy    = 1;
        seeds++;
        Scenario  sc = gen_scenario(prop, seed, index);
        RunResult base_r;
        for (int v = 0; v < variants_of(prop); v++) {
            s.variant = v;
            cpu_limit(25);
            Stats     st;
            Scenario  q = sc;
            if (v > 0) {
                Rng r(Rng::mix(seed * 31 + (u64)prop) ^ Rng::mix(index * 64 + (u64)v + 5));
                derive_variant(q, base_r, prop, r, v);
                if (q.faults.empty() && q.pre.empty() && !q.yield_kinds) continue;
            }
            RunResult r = exec_scenario(q, st, true);
            cpu_limit(0);
            add(total, st);
            runs++;
            if (v == 0) base_r = r;
            u64 h = Rng::mix(r.hash) ^ Rng::mix(r.sched_hash + 1);
            hashes.insert(r.hash);
            if (r.sched_hash != Hash().h) scheds.insert(r.sched_hash);
            if (r.nontrivial) nontriv.insert(h);
            if (log_all) hashlog += std::to_string(index) + "." + std::to_string(v) + " " + std::to_string(r.hash) + " " + std::to_string(r.sched_hash) + "\n";
            Outcome o = judge(r, mask);
            for (auto &x : r.v)
                if (!(x.props & mask)) { other++; others[x.cls]++; }
            if (o.bad) {
                found += std::to_string(index) + " " + std::to_string(v) + " " + o.v.cls + "\n";
                u64 cur;
                while ((cur = sh->stop_at) > index && !__sync_bool_compare_and_swap(&sh->stop_at, cur, index)) {}
                break;
            }
        }
        s.busy = 0;
    }
    J j = stats_json(total);
    j.set("executions", runs).set("seeds", seeds).set("other_violations", other);
    J oj = J::obj();
    for (auto &x : others) oj.set(x.first.c_str(), x.second);
    j.set("others", oj);
    auto dump = [&](const char *ext, const std::set<u64> &v) {
        string b;
        for (u64 x : v) b.append((const char *)&x, 8);
        write_file(base + ext, b);
    };
    std::set<u64> cov;
    coverage_merge(cov);
    dump(".hash", hashes);
    dump(".sched", scheds);
    dump(".non", nontriv);
    dump(".cov", cov);
    write_file(base + ".found", found);
    if (log_all) write_file(base + ".log", hashlog);
    write_file(base + ".json", j.dump());
    _exit(0);
}
static J merge_num(const J &a, const J &b)
{
    if (a.t == J::NUL) return b;
    J r = a;
    if (a.t == J::INT) { r.i += b.i; return r; }
    for (auto &m : b.o) {
        const J *x = a.get(m.first.c_str());
        r.set(m.first.c_str(), x ? merge_num(*x, m.second) : m.second);
    }
    return r;
}

static int batch(int prop, u64 seed, double seconds, int jobs, u64 max_index, const string &dir, double min_seconds)
{
    double t0 = now();
    mkdir(dir.c_str(), 0755);
    unsigned mask = PB(prop);
    char     id[8];
    snprintf(id, sizeof id, "C%02d", prop);
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->stop_at = UINT64_MAX;
    vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < jobs; w++) {
        for (auto ext : {".json", ".hash", ".sched", ".non", ".cov", ".found", ".log"}) unlink((dir + "/w" + std::to_string(w) + ext).c_str());
        pid_t p = fork();
        if (p == 0) work(w, sh, prop, seed, t0 + seconds, max_index, dir);
        pids.push_back(p);
    }
    vector<Found> found;
    for (int w = 0; w < jobs; w++) {
        int st = 0;
        waitpid(pids[(size_t)w], &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && sh->slot[w].busy) {
            found.push_back({sh->slot[w].index, sh->slot[w].variant, "crash"});
            if (sh->slot[w].index < sh->stop_at) sh->stop_at = sh->slot[w].index;
        }
    }
    double        searched = now() - t0;
    J             total;
    std::set<u64> hashes, scheds, non, cov;
    for (int w = 0; w < jobs; w++) {
        string b = dir + "/w" + std::to_string(w), s;
        J      j;
        if (read_file(b + ".json", s) && J::load(s, j)) total = merge_num(total, j);
        auto get = [&](const char *ext, std::set<u64> &v) {
            if (read_file(b + ext, s))
                for (size_t i = 0; i + 8 <= s.size(); i += 8) { u64 x; memcpy(&x, s.data() + i, 8); v.insert(x); }
        };
        get(".hash", hashes);
        get(".sched", scheds);
        get(".non", non);
        get(".cov", cov);
        if (read_file(b + ".found", s)) {
            size_t at = 0;
            while (at < s.size()) {
                size_t e = s.find('\n', at);
                Found  f;
                char   cls[200];
                unsigned long long ix;
                if (sscanf(s.substr(at, e - at).c_str(), "%llu %d %199s", &ix, &f.variant, cls) == 3) {
                    f.index = ix, f.cls = cls;
                    found.push_back(f);
                }
                at = e + 1;
            }
        }
    }
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.index != b.index ? a.index < b.index : a.variant < b.variant; });
    J unconfirmed = J::arr();
    int violations = 0;
    J   vj;
    // First those whose history is the same to the last bit; if there is none, code whose
    // history varies from process to process but which breaks the property in each
    for (int pass = 0; pass < 2 && !violations; pass++)
    for (auto &f : found) {
        if (pass == 1 && !f.varies) continue;
        string tmp = dir + "/gate";
        // Twice in processes of their own: the same violation, to the last bit of the history
        auto again = [&] { return in_child([&] { Stats st; Scenario sc = scenario_of(prop, seed, f.index, f.variant, st); return exec_scenario(sc, st, true); }, mask, tmp); };
        Outcome a = again(), b = again();
        bool same_kind = a.bad && b.bad && a.key() == b.key();
        if (pass == 0 && same_kind && a.hash != b.hash) f.varies = true;
        if (!same_kind || (pass == 0 && a.hash != b.hash)) {
            J u = J::obj();
            u.set("index", f.index).set("variant", f.variant).set("class", f.cls).set("first", a.key()).set("second", b.key());
            if (pass == 0) unconfirmed.push(u);
            continue;
        }
        // The scenario itself; deriving it may run code that crashes, so in a child
        string scf = dir + "/scenario.json";
        unlink(scf.c_str());
        in_child([&] { Stats st; Scenario sc = scenario_of(prop, seed, f.index, f.variant, st); write_file(scf, sc.json().dump()); return RunResult(); }, mask, tmp);
        string s;
        J      sj;
        bool   have = read_file(scf, s) && J::load(s, sj);
        if (!have) { Stats st; Scenario sc = gen_scenario(prop, seed, f.index); sj = sc.json(); }
        Minimiser m;
        m.tmp = dir + "/min", m.mask = mask, m.key = a.key(), m.until = now() + min_seconds, m.best = sj;
        Outcome last = a;
        if (m.same(sj)) m.run();
        Scenario sc;
        sc.load(m.best);
        last = in_child([&] { Stats st; return exec_scenario(sc, st, true); }, mask, tmp);
        J out = J::obj();
        out.set("property", id).set("class", last.v.cls).set("violation", last.v.msg).set("context", last.v.ctx).set("operation", last.v.op);
        out.set("history_hash", std::to_string(last.hash)).set("seed", seed).set("index", f.index).set("variant", f.variant).set("candidates_tried", m.tried);
        out.set("scenario", m.best);
        char   name[64];
        snprintf(name, sizeof name, "/%s-%llu-%d.json", id, (unsigned long long)f.index, f.variant);
        string path = dir + name;
        write_file(path, out.dump(true) + "\n");
        printf("%s: %s (seed %llu, run %llu.%d)\n", last.v.cls.c_str(), last.v.msg.c_str(), (unsigned long long)seed, (unsigned long long)f.index, f.variant);
        printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
        vj = out;
        violations++;
        break;
    }
    if (total.t == J::NUL) total = J::obj();
    total.set("distinct_histories", (int64_t)hashes.size()).set("distinct_schedules", (int64_t)scheds.size()).set("distinct_nontrivial", (int64_t)non.size());
    total.set("blocks_covered", (int64_t)cov.size()).set("search_s", searched).set("wall_s", now() - t0).set("violations", violations).set("unconfirmed", unconfirmed);
    // A few of the executions, written out
    J samples = J::arr();
    if (!violations)
        for (u64 i = 0; i < 2; i++) {
            string scf = dir + "/sample.json", s;
            J      j;
            unlink(scf.c_str());
            in_child([&] { Stats st; Scenario sc = scenario_of(prop, seed, i, 1 + (int)i, st); write_file(scf, sc.json().dump()); return RunResult(); }, mask, dir + "/smp");
            if (read_file(scf, s) && s.size() < 20000 && J::load(s, j)) samples.push(j);
        }
    total.set("samples", samples);
    write_file(dir + "/result.json", total.dump());
    return violations ? 1 : 0;
}

int main(int argc, char **argv)
{
    string mode = argc > 1 ? argv[1] : "";
    std::map<string, string> a;
    vector<string>           rest;
    for (int i = 2; i < argc; i++) {
        string s = argv[i];
        if (s.compare(0, 2, "--") == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i];
        else rest.push_back(s);
    }
    auto num = [&](const char *k, double d) { return a.count(k) ? strtod(a[k].c_str(), nullptr) : d; };
    int  prop = prop_number(a["prop"]);
    u64  seed = (u64)num("seed", 1);
    string dir = a.count("dir") ? a["dir"] : "/tmp/simargus";
    argus_snapshot();
    extern bool tracing;
    tracing = a.count("trace");
    if (mode == "batch")
        return batch(prop, seed, num("seconds", 10), (int)num("jobs", 8), (u64)num("max", 1e15), dir, num("minimise", 60));
    if (mode == "one") {
        Stats    st;
        u64      index = (u64)num("index", 0);
        int      var   = (int)num("variant", 0);
        Scenario sc    = scenario_of(prop, seed, index, var, st);
        if (a.count("dump")) write_file(a["dump"], sc.json().dump(true) + "\n");
        RunResult r = exec_scenario(sc, st, true);
        for (auto &v : r.v) printf("%s props=%x ctx=%d op=%d: %s\n", v.cls.c_str(), v.props, v.ctx, v.op, v.msg.c_str());
        printf("hash %llu sched %llu steps %llu\n%s\n", (unsigned long long)r.hash, (unsigned long long)r.sched_hash, (unsigned long long)r.total_steps, stats_json(st).dump().c_str());
        return r.v.empty() ? 0 : 1;
    }
    if (mode == "exec" && !rest.empty()) {
        string s;
        J      j;
        if (!read_file(rest[0], s) || !J::load(s, j)) { printf("cannot read %s\n", rest[0].c_str()); return 2; }
        const J  *x = j.get("scenario");
        Scenario  sc;
        if (!sc.load(x ? *x : j)) { printf("not a scenario\n"); return 2; }
        unsigned mask = PB(prop_number(sc.prop));
        if (prop) mask = PB(prop);
        mkdir(dir.c_str(), 0755);
        Outcome o = a.count("direct") ? judge([&] { Stats st; RunResult r = exec_scenario(sc, st, true); for (auto &v : r.v) printf("%s props=%x ctx=%d op=%d: %s\n", v.cls.c_str(), v.props, v.ctx, v.op, v.msg.c_str()); return r; }(), mask)
                                      : in_child([&] { Stats st; return exec_scenario(sc, st, true); }, mask, dir + "/exec");
        if (!o.bad) { printf("no violation\n"); return 0; }
        printf("%s: %s (context %d, operation %d, history %llu)\n", o.v.cls.c_str(), o.v.msg.c_str(), o.v.ctx, o.v.op, (unsigned long long)o.hash);
        string want = j.str("history_hash");
        if (want.size() && x) printf("%s\n", j.str("class") == o.v.cls && want == std::to_string(o.hash) ? "reproduced exactly" : "a different violation or history");
        printf("VIOLATION property=%s replay=%s\n", sc.prop.c_str(), rest[0].c_str());
        return 1;
    }
    printf("usage: simargus batch|one|exec\n");
    return 2;
}

// Deterministic simulator for Argus: scenario, world, seams, model.
#pragma once
#include "bridge.h"
#include "json.h"
#include <cstdint>
#include <csetjmp>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>

typedef int64_t i64;
typedef uint64_t u64;
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s[2];
    explicit Rng(u64 seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x9e3779b97f4a7c15ull); }
    static u64 mix(u64 z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 next()
    {
        u64 a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    u64    below(u64 n) { return n ? next() % n : 0; }
    i64    range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool   chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
    u64 geometric(u64 mean) { u64 k = 1; while (mean > 1 && below(mean) != 0 && k < mean * 8) k++; return k; }
};

struct Hash {
    u64  h = 1469598103934665603ull;
    void add(const void *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; }
    void add(const string &s) { add(s.data(), s.size()); add(u64(s.size())); }
    void add(u64 v) { add(&v, sizeof v); }
};

// ---------------------------------------------------------------- scenario
enum { OP_INIT, OP_PARSE, OP_FREE, OP_OBSERVE, OP_HELP, OP_USAGE, OP_VERSION, OP_EXEC, OP_SETENV, OP_UNSETENV, OP_CONFIG, OP_N };
extern const char *OPNAMES[];

struct Op {
    int            kind = 0, c = 0;
    vector<string> args;    // parse: arguments; observe: extra paths
    string         k, v;    // setenv
    i64            n = 0;   // init: validate; exec: data
};

struct VSpec {
    int            kind = 0, id = 0;
    i64            a = 0, b = 0;
    vector<string> strs;
    vector<i64>    ints;
    vector<double> floats;
    string         re, hint;
    bool           has_hint = false, post = false;
    int            failn = 0; // custom: fails at its n-th invocation in an operation, -1 at each
    string         bad;       // custom: fails on a value that contains this text
    int            print = 0; // custom: bytes printed on standard error at each invocation
    int            code = 0;  // custom: code returned on failure
    vector<Op>     nested;
};

struct OSpec {
    int            k = K_OPT, t = T_STR, f = 0, hk = 0, fm = 0, act = 0, sub = -1;
    char           s = 0;
    string         l, n, h, hint, e;
    bool           has_hint = false, has_env = false, has_flags = false, std_help = false, std_version = false;
    bool           noname = false; // group end
    bool           has_def = false;
    i64            di = 0;
    double         df = 0;
    string         ds;
    vector<VSpec>  v;
    vector<string> req, con;
    vector<Op>     nested; // run by the handler or the action
    string key() const { return k == K_OPT ? (std_help ? "help" : std_version ? "version" : l.size() ? l : string(1, s)) : n; }
};
typedef vector<OSpec> Table;

struct CSpec {
    string        prog, ver, desc, prefix;
    bool          has_ver = false, has_desc = false, has_prefix = false, has_cfg = false, dbg = false, spaces = true;
    size_t        cfg[4] = {0, 0, 0, 0};
    vector<Table> tables;
};

enum { FC_MEM, FC_OUT, FC_ERR, FC_CB, FC_PIPE, FC_DUP, FC_DUP2, FC_FCNTL, FC_READ, FC_CLOSE, FC_N };
extern const char *FCNAMES[];
// kinds: MEM 0 once, 1 from here on, 2 every other from here; OUT/ERR 0 fails and is lost, 1 reports success and is lost,
// 2 half written and fails, 3 fails from here on; CB 0 fails before acting, 1 after acting; descriptor calls: errno by m
struct Fault { int cls = 0, x = 0, j = 0, n = 0, m = 0; };
struct Pre { u64 after; int task; };

enum { SK_MEM = 1, SK_ENV = 2, SK_OUT = 4, SK_CB = 8, SK_FMT = 16, SK_SITE = 32, SK_STATIC = 64 };
struct Scenario {
    string                            prop;
    vector<std::pair<string, string>> env;
    vector<CSpec>                     ctxs;
    vector<vector<Op>>                tasks;
    vector<Fault>                     faults;
    vector<Pre>                       pre;
    int                               yield_kinds = 0, yield_pct = 0; // switch tasks at the calls that leave the library
    u64                               yield_seed = 0;
    int                               site_mod = 0; // and at one basic block of the library in so many
    int                               closed = 0; // standard descriptors the process starts without, as bits
    int                               fdlimit = 0; // additional descriptors the process may open; 0: plenty
    J    json() const;
    bool load(const J &j);
};

// ---------------------------------------------------------------- properties
enum { P01 = 1, P02 = 2, P03 = 3, P04 = 4, P05 = 5, P06 = 6, P07 = 7, P08 = 8, P09 = 9, P10 = 10, P11 = 11,
       P12 = 12, P13 = 13, P14 = 14, P15 = 15, P16 = 16, P17 = 17 };
#define PB(n) (1u << (n))
const unsigned PALL = 0x3fffe;
int prop_number(const string &p);

struct Violation {
    string   cls, msg;
    unsigned props = 0;
    int      ctx = -1, op = -1;
};

// ---------------------------------------------------------------- reference model
struct Elem {
    string key, s;
    i64    i = 0;
    double f = 0;
    bool   b = false;
};
struct OState {
    bool         is_set = false, custom = false;
    size_t       count = 0;
    i64          i = 0;       // scalar int / bool / flag
    double       f = 0;
    string       s;           // scalar string, or custom text
    bool         s_null = true;
    vector<Elem> el;
    int          src = 0;     // 0 nothing/default, 1 command line, 2 environment
};
struct Ev {
    char   type; // 'p' pre-validator, 'h' handler, 'q' post-validator, 'a' action
    int    t, o; // table and option (pre-validators: -1)
    int    id;
    string val;
    bool operator==(const Ev &e) const { return type == e.type && t == e.t && o == e.o && id == e.id && val == e.val; }
};
enum { ST_OK, ST_ARGS, ST_ELEM, ST_COMMAND, ST_ENV, ST_CONSTRAINT, ST_CALLBACK, ST_DEPTH };
struct MResult {
    int                           status = 0, stage = ST_OK; // stage of an error
    bool                          exited = false;
    vector<Ev>                    events;
    vector<std::pair<int, int>>   chain; // active commands (table, option)
    std::set<string>              envnames; // consulted on the way
    bool                          env_used = false, env_any = false;
    int                           exit_opt_t = -1, exit_opt_o = -1;
    bool                          args_stage = false; // failed or ended while reading arguments
};
struct Model {
    const CSpec           *cs;
    int                    ctx;
    vector<vector<OState>> st;
    vector<std::pair<int, int>> chain;
    void    reset();
    void    init(const CSpec *c, int idx);
    MResult parse(const vector<string> &args, const std::map<string, string> &env, const vector<Fault> &cbf);
    const Table &active() const;
    int          active_table() const;
    bool         find(const string &path, int &t, int &o) const;
    int          find_name(int t, const string &n) const;
    string       envname(const OSpec &o) const;
    bool         verdict(vector<std::pair<int, int>> *failed) const; // of the structure check on a well-formed table
    bool         default_accepted(const OSpec &o, const VSpec &v, std::map<int, int> &calls) const;
};
bool is_array(int t);
bool is_map(int t);
bool is_variadic(int t);
bool is_coll(int t);
bool model_bool(const string &s, bool &v);
bool model_regex(const string &re, const string &v);
string strip_ws(const string &s);

// ---------------------------------------------------------------- world
struct Block { size_t size; int ctx, op; int custom; u64 serial; }; // custom: 1 a callback's value, 2 to be released by its callback

struct Frame {
    int     ctx = -1, seq = -1, kind = -1;
    u64     cnt[FC_N] = {0}, fired[FC_N] = {0};
    std::map<int, int> vinv; // invocations of each validator
    string  out, err;
    vector<Ev> events;
    vector<string> envreads;
    jmp_buf *jb = nullptr;
    int     exit_code = 0;
    bool    exited = false, hung = false, ended = false, captured = false; // ended: a callback failed or an option ended the program
    u64     steps = 0;
    u64     user_printed = 0;
    vector<string> said;       // printed by validators that then refused the value
    bool    read_broken = false;
    i64     data = 0;
};

struct LogE { string core, io, err; bool captured = false; };
struct CtxRT {
    int                 id = 0;
    const CSpec        *cs = nullptr;
    vector<vector<char>> tabs;      // real option tables
    vector<vector<char>> decl;      // as declared
    vector<std::pair<char *, string>> guard; // memory given to the library and what it held
    vector<char>        ctx;        // argus_t
    char               *prog = nullptr, *ver = nullptr, *desc = nullptr, *pre = nullptr;
    Model               model;
    int                 seq = 0;    // operations so far
    int                 state = 0;  // 0 nothing, 1 fresh, 2 parsed, 3 failed/exited/freed, 4 dead, 5 initialised again or unknown: may only parse
    bool                parsed_before = false, busy = false, spoiled = false;
    vector<LogE>        log;
    vector<Op>          executed;
    std::map<string, string> helps; // help text by active commands
    std::map<void *, void *> tokens; // custom values that are no memory, and have to be released
    void *slot(int t, int o) { return tabs[(size_t)t].data() + (size_t)o * (tabs[(size_t)t].size() / (cs->tables[(size_t)t].size() + 1)); }
};

struct Task {
    vector<Frame *> frames;
    size_t          next = 0;
    bool            done = false;
};

struct Stats {
    u64 ops = 0, parses = 0, parse_ok = 0, parse_err = 0, parse_exit = 0, allocs = 0, writes = 0, callbacks = 0,
        steps = 0, switches = 0, nested = 0, fired[FC_N] = {0}, observed = 0, solo = 0, runs = 0;
    std::map<string, u64> probes;
};

struct OpCount { int ctx, seq, kind; u64 cnt[FC_N]; };

struct RunResult {
    vector<Violation> v;
    u64               hash = 0, sched_hash = 0, total_steps = 0, static_writes = 0;
    vector<OpCount>   counts;
    bool              nontrivial = false;
};

struct VRT { int ctx, t, o; const VSpec *v; };
struct World {
    const Scenario          &sc;
    Stats                   &stats;
    unsigned                 prop_mask;
    int                      prop;
    std::map<string, string> env;
    std::map<string, std::unique_ptr<string>> env_store;
    vector<std::unique_ptr<string>> env_old;
    bool                     no_nested = false, quiet = false, stream_error[3] = {false, false, false};
    struct Diff { int ctx; vector<string> args; std::map<string, string> env; string core, err; };
    vector<Diff>             diffs;
    vector<void *>           mem;
    vector<std::unique_ptr<CtxRT>> ctx;
    vector<std::unique_ptr<VRT>> vrts;
    char  *own(CtxRT &c, const string &s);
    void  *own_bytes(CtxRT &c, const void *p, size_t n);
    void   set_env(const string &k, const string *v);
    void   lib_env(const char *k, const char *v);
    Frame *push(int x, int seq, int kind);
    void   pop();
    void   do_init(const Op &op, CtxRT &c, Frame &f);
    void   do_parse(const Op &op, CtxRT &c, Frame &f);
    void   do_print(const Op &op, CtxRT &c, Frame &f);
    void   do_exec(const Op &op, CtxRT &c, Frame &f);
    void   log_op(CtxRT &c, Frame &f, const Op &op, const string &extra);
    vector<std::pair<int, int>> real_chain(CtxRT &c, bool *ok);
    string observe(CtxRT &c, const vector<string> &extra, int seq, unsigned tags);
    void   observe_option(CtxRT &c, const string &path, int t, int o, bool strict, unsigned tags, string &log);
    vector<Task>             tasks;
    int                      cur = 0;
    vector<Violation>        viol;
    bool                     stop = false;
    Hash                     hash, shash;
    u64                      errno_seq = 0;
    void                     stale_errno();
    u64                      nfired = 0, nswitch = 0, io_parses = 0;
    bool                     substance = false;
    vector<OpCount>          counts;
    u64                      steps = 0, step_limit = 30000000;
    size_t                   pre_i = 0;
    u64                      pre_left = 0, yields = 0;
    bool                     watch_static = false;
    u64                      static_sum = 0, static_writes = 0; // of the library's own variables
    void                     seam_point(int kind);
    bool                     threaded = false;
    std::map<const void *, std::pair<int, std::pair<int, int>>> opt_of; // real option -> ctx, table, index

    World(const Scenario &s, Stats &st);
    ~World();
    void  run();
    unsigned also = 0; // further properties the alarms of an operation concern
    void  report(const char *cls, unsigned props, const string &msg);
    Frame *frame() { return tasks[cur].frames.empty() ? nullptr : tasks[cur].frames.back(); }
    void  do_op(const Op &op);
    void  check_inputs(CtxRT &c, const char *when);
    void  check_help(CtxRT &c, Frame &f, const vector<std::pair<int, int>> &chain, bool usage, unsigned tags);
    void  build(int x);
    bool  faulted(Frame &f, int cls, int *mode);
    void  schedule_point();
    void  run_task(int t);
    // callbacks
    int   cb_validator(const VRT *v, void *ctx, void *value);
    int   cb_handler(void *ctx, void *opt, char *value);
    int   cb_action(int id, void *ctx, void *data);
    int   cb_free(void *opt);
    void  cb_entry(Frame &f);
    void  run_nested(const vector<Op> &ops);
};
extern World *W;
void run_threads(World *w);

RunResult exec_scenario(const Scenario &sc, Stats &st, bool differentials = true);

// seams
void  seams_begin(World *w);
void  seams_end();
void *sim_raw_alloc(size_t n, int custom);      // an allocation by a callback; may fail
bool  sim_raw_free(void *p);                      // false: not a live block
const Block *sim_block(const void *p);
size_t sim_live(int ctx);
size_t sim_live_custom(int ctx);
int    custom_token(const OSpec &o, const string &text);
string fd_snapshot();
void  fd_reset(int extra, int closed);
void  argus_snapshot();
void  argus_restore();
size_t coverage_count();
void  coverage_merge(std::set<u64> &out);
void  task_switch_to(int t); // threaded runs

// generator
Scenario gen_scenario(int prop, u64 seed, u64 index);
void     derive_variant(Scenario &sc, const RunResult &base, int prop, Rng &r, int variant);
int      variants_of(int prop);

// Codes with which callbacks fail, and what actions return: nothing in the library may read a meaning into them
inline int callback_code(int n)
{
    const int C[] = {BR_E_INVALID_VALUE, BR_E_NO_VALUE, -1, BR_E_MEMORY, 256, BR_E_MISSING_REQUIRED, 2, BR_E_STACK_OVERFLOW, -2147483647 - 1,
                     BR_E_NO_COMMAND, 1000, BR_E_INVALID_ARGUMENT, 65536, BR_E_INVALID_KEY};
    return C[(unsigned)n % (sizeof C / sizeof *C)];
}
inline int action_code(int id)
{
    const int C[] = {100, 0, 1, -1, 256, BR_E_NO_COMMAND, BR_E_INVALID_HANDLER, 7, -2147483647 - 1};
    return C[(unsigned)id % (sizeof C / sizeof *C)];
}

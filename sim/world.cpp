// One execution: builds the real tables, runs the operations, and checks what happened.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <unistd.h>

bool tracing;
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...)
{
    char    b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static string cut(const string &s, size_t n = 200) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

// Runs fn; false if the program ended or had to be stopped inside
template <class F> static __attribute__((noinline)) bool guarded(Frame &f, F fn)
{
    jmp_buf jb;
    f.jb = &jb;
    if (W)
        W->stale_errno();
    if (setjmp(jb) == 0)
        fn();
    f.jb = nullptr;
    return !f.exited && !f.hung;
}

// ---------------------------------------------------------------- callbacks
extern "C" {
static int dirty(int r)
{
    if (W)
        W->stale_errno();
    return r;
}
int simcb_validator(uintptr_t d, void *ctx, void *value) { return W ? dirty(W->cb_validator((const VRT *)d, ctx, value)) : 0; }
static int simcb_handler(void *ctx, void *opt, char *value) { return W ? dirty(W->cb_handler(ctx, opt, value)) : 0; }
static int simcb_free(void *opt) { return W ? dirty(W->cb_free(opt)) : 0; }
#define ACT(n) static int simcb_act##n(void *c, void *d) { return W ? W->cb_action(n, c, d) : 0; }
ACT(1) ACT(2) ACT(3) ACT(4) ACT(5) ACT(6) ACT(7) ACT(8)
static int (*const ACTS[])(void *, void *) = {nullptr, simcb_act1, simcb_act2, simcb_act3, simcb_act4, simcb_act5, simcb_act6, simcb_act7, simcb_act8};
}

// Whatever earlier calls of anyone left behind in errno
void World::stale_errno()
{
    static const int E[] = {0, ERANGE, EINTR, ERANGE, 0, EAGAIN, ENOMEM, EINVAL};
    errno_seq = errno_seq * 6364136223846793005ull + 1442695040888963407ull;
    errno     = E[errno_seq >> 61];
}

void World::cb_entry(Frame &f)
{
    stats.callbacks++;
    if (f.ended)
        report("callback-after-end", PB(10) | PB(12), "a callback ran after one that failed or an option that ends the program");
    check_inputs(*ctx[f.ctx], "when a callback was called");
    seam_point(SK_CB);
}
void World::run_nested(const vector<Op> &ops)
{
    Frame *f = frame();
    for (auto &o : ops) {
        if (o.kind == OP_SETENV || o.kind == OP_UNSETENV) {
            do_op(o);
            continue;
        }
        if (no_nested || stop || o.c >= (int)ctx.size() || ctx[o.c]->busy || (f && f->ctx == o.c))
            continue;
        stats.nested++;
        do_op(o);
    }
}
int World::cb_validator(const VRT *v, void *, void *value)
{
    Frame *f = frame();
    if (!f)
        return 0;
    cb_entry(*f);
    const VSpec &s = *v->v;
    const OSpec &o = ctx[v->ctx]->cs->tables[v->t][v->o];
    string       text;
    if (s.post) {
        auto i = opt_of.find(value);
        if (v->ctx != f->ctx || i == opt_of.end() || i->second != std::make_pair(v->ctx, std::make_pair(v->t, v->o)))
            report("wrong-option", PB(10), "a post-validator got an option it does not belong to");
        else if (o.t == T_STR) {
            br_val b = br_opt_value(value);
            text     = b.s ? b.s : "";
        } else if (o.t == T_CUSTOM) {
            const char *p = (const char *)br_opt_ptr(value);
            text          = p && sim_block(p) ? p : "";
        }
        f->events.push_back({'q', v->t, v->o, s.id, text});
    } else {
        if (v->ctx != f->ctx)
            report("wrong-option", PB(10), "a validator of another context was called");
        text = value ? (const char *)value : "";
        f->events.push_back({'p', -1, -1, s.id, text});
    }
    string t;
    if (s.print > 0) {
        string line = fmt("validator %d says: 100%% of it, ", s.id);
        while (t.size() < (size_t)s.print)
            t += line + string(40, 'x') + "\n";
        t.resize((size_t)s.print);
        t.back() = '\n';
        f->user_printed += t.size();
        br_print(0, t.c_str());
    }
    run_nested(s.nested);
    int mode, n = ++f->vinv[s.id];
    if (faulted(*f, FC_CB, &mode)) {
        br_error(ctx[f->ctx]->ctx.data(), callback_code(s.id), "refused by a failing validator");
        f->ended = f->kind == OP_PARSE;
        f->said.push_back(t);
        return callback_code(s.id);
    }
    if (s.failn == -1 || (s.failn && n == s.failn) || (s.bad.size() && text.find(s.bad) != string::npos)) {
        int code = s.code ? s.code : BR_E_INVALID_VALUE; // what counts is what a callback returns, not what it reports
        br_error(ctx[f->ctx]->ctx.data(), s.id % 4 == 3 ? BR_E_INVALID_RANGE : code, "refused by the validator");
        f->ended = f->kind == OP_PARSE;
        f->said.push_back(t);
        return s.code ? s.code : BR_E_INVALID_VALUE;
    }
    return 0;
}
int World::cb_handler(void *c, void *opt, char *value)
{
    Frame *f = frame();
    if (!f)
        return 0;
    cb_entry(*f);
    auto i = opt_of.find(opt);
    if (i == opt_of.end() || i->second.first != f->ctx || c != (void *)ctx[f->ctx]->ctx.data()) {
        report("wrong-option", PB(10), "a handler got an option or context it does not belong to");
        return 0;
    }
    int          t = i->second.second.first, oi = i->second.second.second;
    const OSpec &o = ctx[f->ctx]->cs->tables[t][oi];
    f->events.push_back({'h', t, oi, 0, value ? value : ""});
    run_nested(o.nested);
    if ((t + oi) % 3 == 1)
        br_get(c, "no-such-name"); // leaves its error in the context
    int  mode   = -1;
    bool broken = faulted(*f, FC_CB, &mode);
    auto fail   = [&](int code) { f->ended = true; return code; };
    if (broken && mode == 0) {
        br_error(c, callback_code(oi + 1), "refused by a failing handler");
        return fail(callback_code(oi + 1));
    }
    if (o.hk == 1) {
        int r = br_builtin_handler(o.k, o.t, c, opt, value);
        if (r != 0)
            return fail(r);
    } else {
        string text = value ? value : "";
        int    tok  = custom_token(o, text);
        char  *p    = tok < 0 ? (char *)sim_raw_alloc(text.size() + 1, o.fm == 1 ? 2 : 1) : (char *)(intptr_t)tok;
        if (!p && tok < 0) {
            br_error(c, BR_E_MEMORY, "no memory for a custom value");
            return fail(BR_E_MEMORY);
        }
        if (tok < 0)
            memcpy(p, text.c_str(), text.size() + 1);
        if (broken && mode == 2) {
            if (tok < 0)
                sim_raw_free(p);
            br_error(c, callback_code(oi + 1), "refused by a failing handler");
            return fail(callback_code(oi + 1));
        }
        if (br_opt_allocated(opt)) {
            void *old = br_opt_ptr(opt);
            auto &tk  = ctx[f->ctx]->tokens;
            auto  h   = tk.find(opt);
            if (h != tk.end() && h->second == old)
                tk.erase(h);
            else if (!old && o.fm != 1)
                ;
            else if (!sim_block(old))
                report("stale-value", PB(4) | PB(1) | PB(5), "a custom option claims to own a value that was released");
            else
                sim_raw_free(old);
        }
        br_opt_set_ptr(opt, p);
        br_opt_set_allocated(opt, 1);
        if (tok >= 0 && o.fm == 1)
            ctx[f->ctx]->tokens[opt] = p;
    }
    if (broken) {
        br_error(c, callback_code(oi + 1), "refused by a failing handler");
        return fail(callback_code(oi + 1));
    }
    if (o.f & BF_EXIT)
        f->ended = true;
    return 0;
}
int World::cb_action(int id, void *c, void *data)
{
    Frame *f = frame();
    if (!f)
        return 0;
    cb_entry(*f);
    if (c != (void *)ctx[f->ctx]->ctx.data())
        report("wrong-context", PB(10), "an action got another context");
    f->events.push_back({'a', -1, -1, id, fmt("%lld", (long long)(intptr_t)data)});
    if (id & 1)
        br_get(c, "no-such-name"); // leaves its error in the context
    for (auto &t : ctx[f->ctx]->cs->tables)
        for (auto &o : t)
            if (o.k == K_SUB && o.act == id && !o.nested.empty()) {
                run_nested(o.nested);
                return action_code(id);
            }
    return action_code(id);
}
int World::cb_free(void *opt)
{
    stats.probes["custom-released"]++;
    void        *p = br_opt_ptr(opt);
    const Block *b = p ? sim_block(p) : nullptr;
    auto         i = opt_of.find(opt);
    auto         h = i == opt_of.end() ? ctx[0]->tokens.end() : ctx[i->second.first]->tokens.find(opt);
    if (i != opt_of.end() && h != ctx[i->second.first]->tokens.end() && h->second == p) {
        ctx[i->second.first]->tokens.erase(h);
        return i->second.second.second % 3 == 1 ? 5 : 0;
    }
    if (!b || b->custom != 2) {
        report("release-twice", PB(4) | PB(3) | PB(1), "a release callback was called for a value that is not there (any more)");
        return 0;
    }
    sim_raw_free(p);
    return i != opt_of.end() && i->second.second.second % 3 == 1 ? 5 : 0; // what it reports is of no consequence
}

// ---------------------------------------------------------------- building
World::World(const Scenario &s, Stats &st) : sc(s), stats(st)
{
    prop      = prop_number(s.prop);
    prop_mask = prop ? PB(prop) : PALL;
    tasks.resize(s.tasks.size());
    errno_seq = s.env.size() * 31 + s.ctxs.size() * 7 + (s.tasks.empty() ? 0 : s.tasks[0].size());
}
World::~World()
{
    for (auto p : mem)
        free(p);
}
void *World::own_bytes(CtxRT &c, const void *p, size_t n)
{
    char *m = (char *)malloc(n ? n : 1);
    memcpy(m, p, n);
    mem.push_back(m);
    c.guard.emplace_back(m, string((const char *)p, n));
    return m;
}
char *World::own(CtxRT &c, const string &s) { return (char *)own_bytes(c, s.c_str(), s.size() + 1); }

void World::build(int x)
{
    auto p = std::make_unique<CtxRT>();
    CtxRT &c = *p;
    ctx.push_back(std::move(p));
    c.id = x;
    c.cs = &sc.ctxs[x];
    const CSpec &cs = *c.cs;
    size_t       os = br_option_size();
    c.ctx.assign(br_ctx_size(), 0);
    c.tabs.resize(cs.tables.size());
    for (size_t t = 0; t < cs.tables.size(); t++)
        c.tabs[t].assign((cs.tables[t].size() + 1) * os, 0);
    auto list = [&](const vector<string> &v) -> const char ** {
        if (v.empty())
            return nullptr;
        vector<const char *> q;
        for (auto &s : v)
            q.push_back(own(c, s));
        q.push_back(nullptr);
        return (const char **)own_bytes(c, q.data(), q.size() * sizeof(char *));
    };
    for (size_t t = 0; t < cs.tables.size(); t++) {
        for (size_t i = 0; i < cs.tables[t].size(); i++) {
            const OSpec &o = cs.tables[t][i];
            br_ospec     b;
            memset(&b, 0, sizeof b);
            b.kind = o.k, b.type = o.t, b.dbg = cs.dbg, b.std_help = o.std_help, b.std_version = o.std_version;
            b.sname = o.s;
            b.lname = o.l.size() ? own(c, o.l) : nullptr;
            b.name  = o.noname ? nullptr : o.k == K_OPT ? b.lname : own(c, o.n);
            b.help  = own(c, o.h);
            b.hint  = o.has_hint ? own(c, o.hint) : nullptr;
            b.env   = o.has_env ? own(c, o.e) : nullptr;
            b.has_flags = o.has_flags, b.flags = o.f;
            b.has_def = o.has_def, b.def_i = o.di, b.def_f = o.df;
            b.def_s = o.has_def && o.t == T_STR ? own(c, o.ds) : nullptr;
            b.name_buf = own(c, string(1, o.s));
            b.conflict = list(o.con);
            b.require  = list(o.req);
            if (!o.v.empty()) {
                vector<void *> vp;
                for (auto &v : o.v) {
                    br_vspec q;
                    memset(&q, 0, sizeof q);
                    q.kind = v.kind, q.a = v.a, q.b = v.b;
                    q.post = v.post;
                    if (v.kind == V_CSTR_) { q.n = (int)v.strs.size(); q.strs = (char **)list(v.strs); }
                    if (v.kind == V_CINT_) { q.n = (int)v.ints.size(); q.ints = (int64_t *)own_bytes(c, v.ints.data(), v.ints.size() * 8); }
                    if (v.kind == V_CFLOAT_) { q.n = (int)v.floats.size(); q.floats = (double *)own_bytes(c, v.floats.data(), v.floats.size() * 8); }
                    if (v.kind == V_REGEX_) { q.re = own(c, v.re); q.hint = v.has_hint ? own(c, v.hint) : nullptr; }
                    if (v.kind == V_CUSTOM_) {
                        vrts.push_back(std::make_unique<VRT>(VRT{x, (int)t, (int)i, &v}));
                        q.data = (uintptr_t)vrts.back().get();
                    }
                    vector<char> e(br_ventry_size());
                    br_build_validator(e.data(), &q);
                    vp.push_back(own_bytes(c, e.data(), e.size()));
                }
                vp.push_back(nullptr);
                b.validators = (void **)own_bytes(c, vp.data(), vp.size() * sizeof(void *));
            }
            if (o.hk)
                b.handler = (void *)simcb_handler;
            b.free_mode    = o.fm;
            b.free_handler = (void *)simcb_free;
            if (o.act > 0 && o.act < 9)
                b.action = (void *)ACTS[o.act];
            if (o.k == K_SUB)
                b.sub = c.tabs[o.sub].data();
            char *slot = c.tabs[t].data() + i * os;
            br_build_option(slot, &b);
            opt_of[slot] = {x, {(int)t, (int)i}};
        }
        br_ospec e;
        memset(&e, 0, sizeof e);
        e.kind = K_END;
        br_build_option(c.tabs[t].data() + cs.tables[t].size() * os, &e);
    }
    c.decl = c.tabs;
    c.prog = own(c, cs.prog);
    c.ver  = cs.has_ver ? own(c, cs.ver) : nullptr;
    c.desc = cs.has_desc ? own(c, cs.desc) : nullptr;
    c.pre  = cs.has_prefix ? own(c, cs.prefix) : nullptr;
    c.model.init(c.cs, x);
}
void World::check_inputs(CtxRT &c, const char *when)
{
    if (c.spoiled)
        return;
    auto bad = [&](const string &what) {
        c.spoiled = true;
        report("input-modified", PB(16), what + " was modified, seen " + when);
    };
    for (auto &g : c.guard)
        if (memcmp(g.first, g.second.data(), g.second.size()) != 0)
            return bad("memory given to the library (\"" + cut(string(g.second.c_str()), 40) + "\")");
    size_t os = br_option_size();
    for (size_t t = 0; t < c.tabs.size(); t++)
        for (size_t i = 0; i * os < c.tabs[t].size(); i++)
            if (!br_declared_equal(c.tabs[t].data() + i * os, c.decl[t].data() + i * os))
                return bad("the declared part of option '" + (i < c.cs->tables[t].size() ? c.cs->tables[t][i].key() : string("(end)")) + "'");
    for (auto &e : env)
        if (env_store.count(e.first) == 0 || *env_store[e.first] != e.second)
            return bad("environment variable " + e.first);
    for (auto &e : env_store)
        if (!env.count(e.first))
            return bad("environment variable " + e.first);
}
// The library itself changes the environment
void World::lib_env(const char *k, const char *v)
{
    auto i = env_store.find(k);
    if (i != env_store.end()) {
        env_old.push_back(std::move(i->second));
        env_store.erase(i);
    }
    if (v)
        env_store[k] = std::make_unique<string>(v);
}
void World::set_env(const string &k, const string *v)
{
    auto i = env_store.find(k);
    if (i != env_store.end()) {
        env_old.push_back(std::move(i->second));
        env_store.erase(i);
    }
    env.erase(k);
    if (v) {
        env[k]       = *v;
        env_store[k] = std::make_unique<string>(*v);
    }
}

// ---------------------------------------------------------------- bookkeeping
void World::report(const char *cls, unsigned props, const string &msg)
{
    if (stop || quiet || viol.size() >= 16)
        return;
    Violation v;
    v.cls = cls, v.props = props | also, v.msg = msg;
    if (Frame *f = frame()) {
        v.ctx = f->ctx;
        v.op  = f->seq;
    }
    hash.add(v.cls);
    viol.push_back(v);
}
bool World::faulted(Frame &f, int cls, int *mode)
{
    u64 n = f.cnt[cls]++;
    for (auto &x : sc.faults) {
        if (x.cls != cls || x.x != f.ctx || x.j != f.seq)
            continue;
        u64  at  = (u64)x.n;
        bool hit = n == at;
        if (cls == FC_MEM && x.m == 1)
            hit = n >= at;
        if (cls == FC_MEM && x.m == 2)
            hit = n >= at && (n - at) % 2 == 0;
        if ((cls == FC_OUT || cls == FC_ERR) && x.m == 3)
            hit = n >= at;
        if (hit) {
            f.fired[cls]++;
            stats.fired[cls]++;
            *mode = x.m;
            shash.add((u64)cls * 1000 + (u64)x.m);
            return true;
        }
    }
    return false;
}
Frame *World::push(int x, int seq, int kind)
{
    Frame *f = new Frame;
    f->ctx = x, f->seq = seq, f->kind = kind;
    for (auto g : tasks[cur].frames) // the structure check keeps what is written on standard error to itself
        if (g->kind == OP_INIT) f->captured = g->captured = true; // and prints it as part of its own messages
    tasks[cur].frames.push_back(f);
    return f;
}
void World::pop()
{
    Frame *f = frame();
    if (f->seq >= 0) {
        OpCount o;
        o.ctx = f->ctx, o.seq = f->seq, o.kind = f->kind;
        memcpy(o.cnt, f->cnt, sizeof o.cnt);
        counts.push_back(o);
        for (int i = 0; i < FC_N; i++)
            nfired += f->fired[i];
    }
    stats.steps += f->steps;
    tasks[cur].frames.pop_back();
    delete f;
}
void World::schedule_point()
{
    int t = sc.pre[pre_i].task;
    pre_i++;
    pre_left = pre_i < sc.pre.size() ? sc.pre[pre_i].after : 0;
    t %= (int)tasks.size();
    if (t == cur || tasks[t].done)
        return;
    stats.switches++;
    nswitch++;
    shash.add((u64)t);
    task_switch_to(t);
}
void World::seam_point(int kind)
{
    if (!threaded || !(sc.yield_kinds & kind) || Rng::mix(sc.yield_seed + ++yields) % 100 >= (u64)sc.yield_pct)
        return;
    int n = (int)tasks.size(), t = (cur + 1 + (int)(Rng::mix(sc.yield_seed ^ (yields << 20)) % (u64)(n - 1))) % n;
    for (int i = 0; i < n && (t == cur || tasks[t].done); i++)
        t = (t + 1) % n;
    if (t == cur || tasks[t].done)
        return;
    stats.switches++;
    nswitch++;
    shash.add(0x9e00 + (u64)kind * 16 + (u64)t);
    task_switch_to(t);
}
void World::run_task(int t)
{
    for (auto &o : sc.tasks[t]) {
        if (stop)
            break;
        do_op(o);
    }
}
static string ev_text(const Ev &e) { return fmt("%c/%d/%d/%d/", e.type, e.t, e.o, e.id) + e.val; }
static string evs_text(const vector<Ev> &v)
{
    string s;
    for (auto &e : v)
        s += (s.empty() ? "" : " ") + ev_text(e);
    return s;
}
void World::log_op(CtxRT &c, Frame &f, const Op &op, const string &core)
{
    LogE e;
    e.core = string(OPNAMES[op.kind]) + " " + core + " events[" + evs_text(f.events) + "]";
    e.io   = "out<" + f.out + "> env[";
    for (auto &n : f.envreads)
        e.io += n + " ";
    e.io += "]";
    e.err      = " err<" + f.err + ">";
    e.captured = f.captured;
    hash.add(e.core);
    hash.add(e.io);
    hash.add(e.err);
    if (tracing)
        printf("[%d.%d] %s\n    %s%s\n", c.id, f.seq, e.core.c_str(), e.io.c_str(), e.err.c_str());
    c.log.push_back(e);
}

// ---------------------------------------------------------------- reading
static string show(int t, const br_val &v)
{
    switch (t) {
        case T_STR: case T_ASTR: case T_VSTR: case T_MSTR: return v.s ? "\"" + string(v.s) + "\"" : "null";
        case T_FLOAT: case T_AFLOAT: case T_VFLOAT: case T_MFLOAT: return fmt("%.17g", v.f);
        case T_BOOL: case T_FLAG: case T_MBOOL: return v.b ? "true" : "false";
        case T_AINT: return fmt("%d", v.i);
        case T_CUSTOM: return !v.p ? "null" : (uintptr_t)v.p < 4096 ? fmt("handle %d", (int)(intptr_t)v.p) : !sim_block(v.p) ? "released memory" : "\"" + string((const char *)v.p) + "\"";
        default: return fmt("%lld", (long long)v.i64);
    }
}
static string show(int t, const Elem &e)
{
    switch (t) {
        case T_ASTR: case T_VSTR: case T_MSTR: return "\"" + e.s + "\"";
        case T_AFLOAT: case T_VFLOAT: case T_MFLOAT: return fmt("%.17g", e.f);
        case T_MBOOL: return e.b ? "true" : "false";
        default: return fmt("%lld", (long long)e.i);
    }
}
static string show(const OSpec &o, const OState &s)
{
    switch (o.t) {
        case T_STR: return s.s_null ? "null" : "\"" + s.s + "\"";
        case T_FLOAT: return fmt("%.17g", s.f);
        case T_BOOL: case T_FLAG: return s.i ? "true" : "false";
        case T_CUSTOM: {
            int tok = s.custom ? custom_token(o, s.s) : 0;
            return tok < 0 ? "\"" + s.s + "\"" : tok == 0 ? "null" : fmt("handle %d", tok);
        }
        default: return fmt("%lld", (long long)s.i);
    }
}
typedef vector<std::pair<string, string>> KV;
static void canonical(const OSpec &o, KV &v) // equal values have no order among themselves
{
    if (!is_map(o.t) || !(o.f & BF_SORTVAL) || (o.f & BF_SORTKEY))
        return;
    for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && v[j].second == v[i].second)
            j++;
        std::sort(v.begin() + (long)i, v.begin() + (long)j);
        i = j;
    }
}
static string kv_text(const KV &v)
{
    string s = "[";
    for (auto &p : v)
        s += (s.size() > 1 ? ", " : "") + (p.first.empty() ? "" : p.first + "=") + p.second;
    return s + "]";
}
vector<std::pair<int, int>> World::real_chain(CtxRT &c, bool *ok)
{
    vector<std::pair<int, int>> r;
    *ok = true;
    size_t d = br_ctx_depth(c.ctx.data());
    if (d > (size_t)BR_MAX_DEPTH) {
        *ok = false;
        return r;
    }
    for (size_t i = 0; i < d; i++) {
        auto it = opt_of.find(br_ctx_stack(c.ctx.data(), i));
        if (it == opt_of.end() || it->second.first != c.id || c.cs->tables[it->second.second.first][it->second.second.second].k != K_SUB) {
            *ok = false;
            return r;
        }
        r.push_back(it->second.second);
    }
    return r;
}

void World::observe_option(CtxRT &c, const string &path, int t, int oi, bool strict, unsigned tags, string &log)
{
    const OSpec  &o = c.cs->tables[t][oi];
    const OState &s = c.model.st[t][oi];
    void         *a = c.ctx.data();
    const char   *p = path.c_str();
    string        where = "option '" + path + "': ";
    unsigned      read  = PB(5);
    stats.observed++;
    if (is_coll(o.t) && (o.k == K_OPT || o.k == K_POS))
        tags |= PB(17);
    if (strict && s.src == 2)
        tags |= PB(8);
    if (strict && !s.is_set && o.k != K_SUB && c.model.envname(o).size())
        tags |= PB(8);
    if (strict && o.has_def)
        tags |= PB(8);
    auto bad = [&](const char *cls, unsigned tg, const string &m) { report(cls, tg, where + m); };

    bool set = br_is_set(a, p) != 0;
    log += path + (set ? "+" : "-");
    if (strict && set != s.is_set)
        bad("wrong-set", tags, fmt("is %sset, expected %sset", set ? "" : "not ", s.is_set ? "" : "not "));
    if (o.k != K_OPT && o.k != K_POS)
        return;
    size_t n = br_count(a, p);
    br_val g = br_get(a, p);
    int    e = br_ctx_error(a);
    if (e != 0)
        bad("read-error", read, fmt("reading it gives error %d", e));
    if (!is_coll(o.t)) {
        if (strict) {
            string v = show(o.t, g), w = show(o, s);
            log += v;
            if (n != s.count)
                bad("wrong-count", tags, fmt("has count %zu, expected %zu", n, s.count));
            if (v != w)
                bad("wrong-value", tags, "is " + cut(v) + ", expected " + cut(w));
        } else if (o.t == T_CUSTOM && g.p && (o.fm == 1 && (uintptr_t)g.p < 4096 ? !c.tokens.count(c.slot(t, oi)) : !sim_block(g.p)))
            bad("stale-read", read, "still refers to released memory");
        br_val v = br_array_get(a, p, 0);
        if (br_ctx_error(a) != BR_E_INVALID_TYPE || v.i64 != 0)
            bad("wrong-kind", read, "an array read of a scalar is not refused");
        v = br_map_get(a, p, "k1");
        if (br_ctx_error(a) != BR_E_INVALID_TYPE || v.i64 != 0)
            bad("wrong-kind", read, "a map read of a scalar is not refused");
        return;
    }
    // Every way to read a collection
    vector<char> it(br_it_size());
    KV           by_it, again, direct, want;
    bool         map = is_map(o.t);
    br_val       v;
    const char  *key;
    if (map) {
        br_map_it(a, p, it.data());
        while (by_it.size() < 100000 && br_map_next(it.data(), &key, &v))
            by_it.emplace_back(key ? key : "(null)", show(o.t, v));
        br_map_reset(it.data());
        while (again.size() < 100000 && br_map_next(it.data(), &key, &v))
            again.emplace_back(key ? key : "(null)", show(o.t, v));
        for (auto &q : by_it) {
            v = br_map_get(a, p, q.first.c_str());
            direct.emplace_back(q.first, br_ctx_error(a) == 0 ? show(o.t, v) : "error");
        }
        v = br_map_get(a, p, "no such key");
        if (br_ctx_error(a) != BR_E_INVALID_KEY || v.i64 != 0)
            bad("missing-key", read, "a missing key does not give an empty value and its error");
        if (by_it.size()) { // keys that are nearly there
            const string &k = by_it[by_it.size() / 2].first;
            for (const string &x : {k + "x", k.substr(0, k.size() / 2), k + "=", k.size() > 1 ? k.substr(1) : k + " "}) {
                bool there = false;
                for (auto &q : by_it) there |= q.first == x;
                if (there) continue;
                v = br_map_get(a, p, x.c_str());
                if (br_ctx_error(a) != BR_E_INVALID_KEY || v.i64 != 0)
                    bad("missing-key", read, "the missing key '" + cut(x) + "' does not give an empty value and its error");
            }
        }
        v = br_array_get(a, p, 0);
        if (br_ctx_error(a) != BR_E_INVALID_TYPE || v.i64 != 0)
            bad("wrong-kind", read, "an array read of a map is not refused");
        br_array_it(a, p, it.data());
        if (br_array_next(it.data(), &v))
            bad("wrong-kind", read, "an array iterator walks a map");
    } else {
        br_array_it(a, p, it.data());
        while (by_it.size() < 100000 && br_array_next(it.data(), &v))
            by_it.emplace_back("", show(o.t, v));
        br_array_reset(it.data());
        while (again.size() < 100000 && br_array_next(it.data(), &v))
            again.emplace_back("", show(o.t, v));
        for (size_t i = 0; i < by_it.size(); i++) {
            v = br_array_get(a, p, i);
            direct.emplace_back("", br_ctx_error(a) == 0 ? show(o.t, v) : "error");
        }
        for (size_t i : {n, n + 1, n + 7, (size_t)-1, (size_t)1 << 16, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + n / 2, (size_t)1 << 63}) {
            if (i < n) continue;
            v = br_array_get(a, p, i);
            if (br_ctx_error(a) != BR_E_INVALID_INDEX || v.i64 != 0)
                bad("index-out-of-bounds", read, fmt("index %zu of %zu does not give an empty value and its error", i, n));
        }
        v = br_map_get(a, p, "k1");
        if (br_ctx_error(a) != BR_E_INVALID_TYPE || v.i64 != 0)
            bad("wrong-kind", read, "a map read of an array is not refused");
        br_map_it(a, p, it.data());
        if (br_map_next(it.data(), &key, &v))
            bad("wrong-kind", read, "a map iterator walks an array");
    }
    if (by_it != again)
        bad("reads-disagree", read, "iterating again after a reset gives something else");
    if (by_it != direct)
        bad("reads-disagree", read, "iterator and direct reads disagree: " + cut(kv_text(by_it)) + " and " + cut(kv_text(direct)));
    if (n != by_it.size())
        bad("reads-disagree", read, fmt("has count %zu but iterates over %zu elements", n, by_it.size()));
    if ((n > 0 && !g.p) || (!strict && g.p))
        bad("reads-disagree", read, g.p ? "is empty but refers to memory" : "has elements but no memory");
    if (n > 0 && g.p && n == by_it.size()) {
        KV raw;
        for (size_t i = 0; i < n; i++) {
            key = "";
            v   = map ? br_raw_map(g.p, i, &key) : br_raw_array(g.p, i);
            raw.emplace_back(key ? key : "(null)", show(o.t, v));
        }
        if (raw != by_it)
            bad("reads-disagree", read, "its memory holds something else than its iterator gives");
    }
    if (!strict) {
        if (n || !by_it.empty())
            bad("not-empty", read, fmt("holds %zu elements after a failed parse or a cleanup", n));
        return;
    }
    for (auto &x : s.el)
        want.emplace_back(x.key, show(o.t, x));
    KV got = by_it;
    canonical(o, want);
    canonical(o, got);
    log += kv_text(got);
    if (got != want)
        bad("wrong-elements", tags, "holds " + cut(kv_text(got)) + ", expected " + cut(kv_text(want)));
}
string World::observe(CtxRT &c, const vector<string> &extra, int seq, unsigned tags)
{
    bool strict = c.state == 1 || c.state == 2, ok;
    if (c.state == 0 || c.state >= 4 || stop)
        return "";
    auto ch = real_chain(c, &ok);
    if (!ok) {
        report("bad-chain", PB(15) | PB(5) | PB(1), "the stack of active commands is damaged");
        stop = true;
        return "";
    }
    if (!strict)
        c.model.chain = ch;
    string log;
    int    saved = br_ctx_error(c.ctx.data());
    bool   own_b = c.busy;
    c.busy       = true;
    Frame *f     = push(c.id, seq, OP_OBSERVE);
    bool   done  = guarded(*f, [&] {
        string prefix = ".";
        size_t budget = 48;
        for (size_t l = 0; l <= ch.size() && budget; l++) {
            int t = l == 0 ? 0 : c.cs->tables[ch[l - 1].first][ch[l - 1].second].sub;
            if (l > 0)
                prefix = (l == 1 ? "" : prefix) + c.cs->tables[ch[l - 1].first][ch[l - 1].second].n + ".";
            const Table &tb = c.cs->tables[t];
            for (size_t i = 0; i < tb.size() && budget; i++) {
                if (tb[i].k == K_GRP)
                    continue;
                string name = tb[i].key();
                int    t2, o2;
                budget--;
                observe_option(c, prefix + name, t, c.model.find_name(t, name), strict, tags, log);
                if (c.model.find(name, t2, o2))
                    observe_option(c, name, t2, o2, strict, tags | PB(15), log);
            }
        }
        auto unknown = [&](const string &p, unsigned tags) {
            void *a = c.ctx.data();
            vector<char> it(br_it_size());
            br_val v;
            const char *key;
            auto empty = [&](const char *how) {
                if (br_ctx_error(a) != BR_E_NO_VALUE || v.i64 != 0)
                    report("unknown-name", tags, string(how) + " of the unknown name '" + p + "' does not give an empty value and its error");
            };
            v = br_get(a, p.c_str());
            empty("a read");
            v = br_array_get(a, p.c_str(), 0);
            empty("an array read");
            v = br_map_get(a, p.c_str(), "k1");
            empty("a map read");
            bool some = br_is_set(a, p.c_str()) || br_count(a, p.c_str());
            br_array_it(a, p.c_str(), it.data());
            some |= br_array_next(it.data(), &v) != 0;
            br_map_it(a, p.c_str(), it.data());
            some |= br_map_next(it.data(), &key, &v) != 0;
            if (some)
                report("unknown-name", tags, "the unknown name '" + p + "' has a value");
            log += p + "?";
        };
        for (auto &p : extra) {
            int t2, o2;
            if (!c.model.find(p, t2, o2))
                unknown(p, PB(5));
            else if (c.cs->tables[t2][o2].k != K_GRP)
                observe_option(c, p, t2, o2, strict, tags | PB(5), log);
        }
        // paths that are nearly those of the active commands
        for (size_t near = 0; near < ch.size(); near++) {
            const string &command = c.cs->tables[ch[near].first][ch[near].second].n;
            int           last    = c.cs->tables[ch.back().first][ch.back().second].sub;
            string        leaf;
            for (auto &o : c.cs->tables[last])
                if (o.k == K_OPT && leaf.empty())
                    leaf = o.key();
            if (leaf.empty() || command.empty())
                break;
            for (int how = 0; how < 3; how++) {
                string path, wrong = how == 0 ? command.substr(0, command.size() - 1) : how == 1 ? command + "x" : command + "." + command;
                for (size_t l = 0; l < ch.size(); l++)
                    path += (l == near ? wrong : c.cs->tables[ch[l].first][ch[l].second].n) + ".";
                int t2, o2;
                if (!c.model.find(path + leaf, t2, o2))
                    unknown(path + leaf, PB(5) | PB(15));
            }
        }
    });
    if (!done && f->exited)
        report("read-exits", PALL, "reading a value ended the program");
    pop();
    c.busy = own_b;
    br_ctx_set_error(c.ctx.data(), saved); // as if nothing had been read
    return log;
}

// ---------------------------------------------------------------- operations
static bool is_mem(const Frame &f) { return f.fired[FC_MEM] > 0; }
static bool is_io(const Frame &f) { return f.fired[FC_OUT] + f.fired[FC_ERR] > 0; }

void World::do_op(const Op &op)
{
    if (stop)
        return;
    if (op.kind == OP_SETENV || op.kind == OP_UNSETENV) {
        set_env(op.k, op.kind == OP_SETENV ? &op.v : nullptr);
        return;
    }
    if (op.c >= (int)ctx.size() || op.kind == OP_CONFIG)
        return;
    CtxRT &c = *ctx[op.c];
    if (c.busy)
        return;
    bool ok = false;
    switch (op.kind) {
        case OP_INIT: ok = c.state != 4; break;
        case OP_PARSE: ok = c.state != 0 && c.state != 4; break;
        case OP_EXEC: ok = c.state == 2; break;
        default: ok = c.state >= 1 && c.state <= 3;
    }
    if (!ok)
        return;
    stats.ops++;
    int seq = c.seq++;
    c.executed.push_back(op);
    if (op.kind == OP_OBSERVE) {
        string l = observe(c, op.args, seq, PB(5));
        LogE   e;
        e.core = "observe " + l;
        c.log.push_back(e);
        hash.add(l);
        check_inputs(c, "after reading");
        return;
    }
    Frame *f = push(c.id, seq, op.kind);
    c.busy   = true;
    switch (op.kind) {
        case OP_INIT: do_init(op, c, *f); break;
        case OP_PARSE: do_parse(op, c, *f); return; // ends its frame itself
        case OP_EXEC: do_exec(op, c, *f); break;
        case OP_FREE: {
            if (!guarded(*f, [&] { br_free(c.ctx.data()); }) && f->exited)
                report("free-exits", PALL, "cleaning up ended the program");
            c.state = 3;
            if (sim_live(c.id) && !stop)
                report("leak", PB(3) | (sim_live_custom(c.id) ? PB(4) : 0), fmt("%zu blocks of memory survive a cleanup", sim_live(c.id)));
            if (!f->out.empty() || !f->err.empty())
                report("not-silent", PB(11), "cleaning up writes text");
            log_op(c, *f, op, fmt("live %zu", sim_live(c.id)));
            pop();
            c.busy = false;
            observe(c, {}, -1, PB(5));
            check_inputs(c, "after a cleanup");
            return;
        }
        default: do_print(op, c, *f);
    }
    pop();
    c.busy = false;
    check_inputs(c, "after an operation");
    if (op.kind == OP_HELP || op.kind == OP_USAGE || op.kind == OP_VERSION)
        observe(c, {}, -1, PB(13));
}

void World::do_init(const Op &op, CtxRT &c, Frame &f)
{
    // Checking defaults captures the standard error of the whole process: one thread only
    bool captures = false;
    for (auto &t : c.cs->tables)
        for (auto &o : t)
            captures |= o.has_def && !o.v.empty();
    bool   validate = op.n && (c.state == 0 || c.state == 1) && !(threaded && captures);
    string fds      = fd_snapshot();
    size_t live     = sim_live(c.id);
    bool   nested   = tasks[cur].frames.size() > 1;
    bool   back     = guarded(f, [&] { br_init(c.ctx.data(), c.tabs[0].data(), c.prog, c.ver, validate); });
    c.state         = c.state <= 1 ? 1 : 5;
    c.model.reset();
    if (f.hung)
        return;
    if (!back)
        c.state = 4;
    else
        br_ctx_config(c.ctx.data(), c.desc, c.pre, c.cs->has_cfg ? c.cs->cfg : nullptr, c.cs->spaces);
    log_op(c, f, op, back ? "returns" : fmt("exits with %d", f.exit_code));
    if (!validate) {
        if (!back)
            report("init-exits", PALL, "initialising ended the program");
        return;
    }
    stats.probes[back ? "check-accepts" : "check-rejects"]++;
    if (fd_snapshot() != fds)
        report("descriptors-changed", PB(14), "descriptors before the check: " + fds + "after: " + fd_snapshot());
    if (sim_live(c.id) != live)
        report("leak", PB(14) | PB(3), "the check of the option table leaks memory");
    vector<std::pair<int, int>> failed;
    bool want  = c.model.verdict(&failed);
    bool regex = false;
    for (auto &t : c.cs->tables)
        for (auto &o : t)
            for (auto &v : o.v)
                regex |= v.kind == V_REGEX_;
    if (want != back && !(is_mem(f) && regex))
        report("wrong-verdict", PB(14), fmt("the check %s a table it should %s", back ? "accepts" : "rejects", want ? "accept" : "reject"));
    if (!back && f.exit_code == 0)
        report("wrong-verdict", PB(14), "a rejected table ends the program with success");
    if (!nested && f.fired[FC_ERR] == 0) {
        std::map<string, int> need;
        for (auto &p : failed) {
            const OSpec &o = c.cs->tables[p.first][p.second];
            need[o.k == K_POS ? o.n : o.l.size() ? "--" + o.l : string("-") + o.s]++;
        }
        for (auto &n : need) {
            int    k = 0;
            size_t at = 0;
            while ((at = f.err.find(n.first, at)) != string::npos)
                k++, at++;
            if (k < n.second)
                report("message-lost", PB(14), fmt("%d failing defaults of '%s' but %d messages about it", n.second, n.first.c_str(), k));
        }
        // What a failing validator has to say is part of the message
        for (auto &t : f.said)
            if (t.size() < 20000 && !is_mem(f) && !f.read_broken && f.err.find(t) == string::npos)
                report("message-lost", PB(14), "the message of a default's failing validator is not shown whole: " + cut(t));
        if (back && f.user_printed == 0 && !f.err.empty() && want)
            report("check-prints", PB(14) | PB(11), "the check of a good table prints: " + cut(f.err));
    }
}

void World::do_parse(const Op &op, CtxRT &c, Frame &f)
{
    int                  x = c.id;
    vector<char *>       argv;
    vector<Fault>        cbf;
    std::map<string, string> env_before = env;
    argv.push_back(c.prog);
    for (auto &s : op.args)
        argv.push_back(own(c, s));
    int argc = (int)argv.size();
    argv.push_back(nullptr);
    char **av = (char **)own_bytes(c, argv.data(), argv.size() * sizeof(char *));
    for (auto &q : sc.faults)
        if (q.cls == FC_CB && q.x == x && q.j == f.seq)
            cbf.push_back(q);
    MResult m = c.model.parse(op.args, env, cbf);
    bool again = c.parsed_before;
    c.parsed_before = true;
    stats.parses++;
    if (!op.args.empty())
        substance = true;

    int  status = -1;
    bool back   = guarded(f, [&] { status = br_parse(c.ctx.data(), argc, av); });
    if (f.hung) {
        c.state = 4;
        pop();
        c.busy = false;
        return;
    }
    bool   mem = is_mem(f);
    size_t live = sim_live(x), custom = sim_live_custom(x);
    // What a parse does after another chain of commands than the one named, or while output fails, is their affair, too
    struct Also {
        unsigned &a, old;
        Also(unsigned &x) : a(x), old(x) {}
        ~Also() { a = old; }
    } restore_also(also);
    bool same_ok;
    auto reached = real_chain(c, &same_ok);
    if (!same_ok || (reached != m.chain && !mem))
        also |= PB(15);
    if (is_io(f))
        also |= PB(11);
    string got = !back ? fmt("the program ends with %d", f.exit_code) : status == 0 ? "success" : fmt("error %d", status);
    string exp = m.exited ? "end of the program" : m.status == 0 ? "success" : fmt("error %d", m.status);
    auto   ends_clean = [&](const char *when, unsigned extra) {
        if (live)
            report("leak", PB(3) | extra | (custom ? PB(4) : 0) | (is_io(f) ? PB(11) : 0), fmt("%zu blocks of memory (%zu custom values) survive %s", live, custom, when));
    };
    auto same_events = [&](unsigned tags, bool prefix) {
        size_t n = f.events.size();
        if (prefix ? n <= m.events.size() && std::equal(f.events.begin(), f.events.end(), m.events.begin()) : f.events == m.events)
            return;
        auto count = [](const vector<Ev> &v, bool val) { return std::count_if(v.begin(), v.end(), [&](const Ev &e) { return val ? e.type == 'p' || e.type == 'q' : true; }); };
        if (status == 0 && back && count(f.events, true) < count(m.events, true))
            tags |= PB(9);
        report("wrong-callbacks", tags | PB(10), "callbacks ran as [" + cut(evs_text(f.events)) + "], expected [" + cut(evs_text(m.events)) + "]");
    };
    unsigned stage = m.stage == ST_CONSTRAINT ? PB(9) : m.stage == ST_CALLBACK ? PB(9) | PB(10) : m.stage == ST_ENV ? PB(8) :
                     m.stage == ST_ELEM ? PB(17) | PB(2) : m.stage == ST_COMMAND || m.stage == ST_DEPTH ? PB(15) : PB(2);
    unsigned envtag = m.env_used || m.env_any ? PB(8) : 0;
    std::set<string> levels; // names that may be asked for
    auto level_names = [&](int t) {
        for (auto &o : c.cs->tables[t])
            if (o.k == K_OPT || o.k == K_POS)
                levels.insert(c.model.envname(o));
    };
    level_names(0);
    for (auto &l : m.chain)
        level_names(c.cs->tables[l.first][l.second].sub);
    for (auto &n : f.envreads)
        if (!levels.count(n)) {
            report("wrong-variable", PB(8), "environment variable '" + n + "' was consulted, which no active option names");
            break;
        }

    if (!back) {
        stats.parse_exit++;
        c.state = 3;
        ends_clean("the end of the program", PB(12));
        if (!m.exited)
            report("wrong-exit", PB(12) | (m.status ? stage : 0), got + ", expected " + exp);
        else {
            if (f.exit_code != 0)
                report("wrong-exit", PB(12), fmt("the program ends with status %d instead of success", f.exit_code));
            same_events(PB(12), false);
            if (m.args_stage && !f.envreads.empty())
                report("late-exit", PB(12), "the environment was consulted although an option ended the program");
            if (c.cs->tables[m.exit_opt_t][m.exit_opt_o].std_help && f.fired[FC_OUT] == 0)
                check_help(c, f, m.chain, true, PB(12) | PB(13));
            if (c.cs->tables[m.exit_opt_t][m.exit_opt_o].std_version && f.fired[FC_OUT] == 0)
                for (auto &s : {c.cs->prog, c.cs->has_ver ? c.cs->ver : string(), c.cs->has_desc ? c.cs->desc : string()})
                    if (f.out.find(s) == string::npos)
                        report("version-incomplete", PB(12) | PB(13), "the version shown at the end of the program lacks '" + cut(s) + "'");
        }
    } else if (status == 0) {
        stats.parse_ok++;
        c.state = 2;
        if (m.exited)
            report("no-exit", PB(12) | envtag, "success, expected the end of the program");
        else if (m.status != 0) {
            report("accepted", stage, "success, expected " + exp);
        }
        if (m.exited || m.status != 0)
            c.state = 5; // nothing more is known about its values
        else {
            bool ok;
            auto ch = real_chain(c, &ok);
            if (!ok || ch != m.chain) {
                report("wrong-command", PB(15) | PB(2), "the active commands are not the ones named");
                c.state = 5;
            }
            if (br_ctx_error(c.ctx.data()) != 0)
                report("error-code", PB(11), fmt("success with error code %d", br_ctx_error(c.ctx.data())));
            if (!f.user_printed && (!f.out.empty() || !f.err.empty()))
                report("not-silent", PB(11), "a successful parse writes: " + cut(f.out + f.err));
            same_events(0, false);
        }
    } else {
        stats.parse_err++;
        c.state = 3;
        if (m.exited && !mem)
            report("no-exit", PB(12) | envtag, got + ", expected the end of the program");
        else if (m.status == 0 && !mem && !m.exited) {
            unsigned t = PB(2) | PB(9) | envtag;
            if (status == BR_E_AMBIGUOUS || status == BR_E_STACK_OVERFLOW || !m.chain.empty())
                t |= PB(15);
            if (status == BR_E_INVALID_VALUE || status == BR_E_INVALID_FORMAT || status == BR_E_MEMORY)
                t |= PB(17);
            report("refused", t, got + ", expected success; it says: " + cut(f.err));
        } else if (!mem && !m.exited && status != m.status) {
            if (m.status == BR_E_AMBIGUOUS || m.status == BR_E_STACK_OVERFLOW)
                report("wrong-error", PB(15), got + ", expected " + exp);
        }
        if (br_ctx_error(c.ctx.data()) != status)
            report("error-code", PB(11), fmt("a parse that returns %d leaves error code %d", status, br_ctx_error(c.ctx.data())));
        if (f.fired[FC_ERR] == 0 && !f.captured && ("\n" + f.err).find("\n" + c.cs->prog + ": ") == string::npos)
            report("no-message", PB(11), fmt("a parse fails with %d without a message naming the program; it says: ", status) + cut(f.err));
        ends_clean("a failed parse", 0);
        if (!m.exited || !mem)
            same_events(0, mem);
    }
    // Parses that can be repeated on a fresh table
    bool quiet_parse = !mem && !is_io(f) && f.fired[FC_CB] == 0;
    string core = got + fmt(" code %d", back ? br_ctx_error(c.ctx.data()) : 0);
    if (!back && m.exited == false)
        core += "?";
    string evs = evs_text(f.events), err = f.err;
    log_op(c, f, op, core);
    if (is_io(f))
        io_parses++;
    pop();
    c.busy   = false;
    string o = observe(c, {}, -1, PB(2));
    c.log.back().core += " values " + o;
    hash.add(o);
    check_inputs(c, "after a parse");
    if (again && quiet_parse && prop == 6 && diffs.size() < 8)
        diffs.push_back({x, op.args, env_before, c.log.back().core, err});
}

static bool hidden(const OSpec &o) { return (o.k == K_OPT || o.k == K_SUB) && o.f & BF_HIDDEN; }
// Whether the output holds the text, its lines broken anywhere
static bool has_text(const string &out, const string &t)
{
    auto   ws = [](char c) { return isspace((unsigned char)c) != 0; };
    size_t b  = 0;
    while (b < t.size() && ws(t[b]))
        b++;
    if (b == t.size())
        return true;
    for (size_t s = 0; s < out.size(); s++) {
        if (out[s] != t[b])
            continue;
        size_t i = s, k = b;
        while (k < t.size()) {
            if (ws(t[k])) {
                while (k < t.size() && ws(t[k]))
                    k++;
                if (k == t.size())
                    break;
                if (i >= out.size() || !ws(out[i]))
                    break;
                while (i < out.size() && ws(out[i]))
                    i++;
            } else if (i < out.size() && out[i] == '\n')
                while (i < out.size() && ws(out[i]))
                    i++;
            if (i >= out.size() || out[i] != t[k])
                break;
            i++, k++;
        }
        if (k == t.size())
            return true;
    }
    return false;
}

// What the help text says of a validator of the library
static string rule_text(const VSpec &v)
{
    string s;
    auto   add = [&](const string &x) { s += (s.size() ? "|" : "") + x; };
    switch (v.kind) {
        case V_RANGE_: case V_COUNT_: return fmt("%lld-%lld", (long long)v.a, (long long)v.b);
        case V_LEN_: return fmt("%lld-%lld chars", (long long)v.a, (long long)v.b);
        case V_REGEX_: return v.has_hint && v.hint.size() ? v.hint : v.re.size() <= 15 ? v.re : "pattern";
        case V_CSTR_: for (auto &x : v.strs) add(x); return s;
        case V_CINT_: for (auto &x : v.ints) add(std::to_string(x)); return s;
        case V_CFLOAT_: for (auto &x : v.floats) add(fmt("%g", x)); return s;
        default: return "";
    }
}

void World::check_help(CtxRT &c, Frame &f, const vector<std::pair<int, int>> &chain, bool usage, unsigned tags)
{
    int          t  = chain.empty() ? 0 : c.cs->tables[chain.back().first][chain.back().second].sub;
    const Table &tb = c.cs->tables[t];
    string       txt = strip_ws(f.out);
    bool         mem = is_mem(f);
    auto need = [&](const string &s, const string &what) {
        if (s.size() && txt.find(strip_ws(s)) == string::npos)
            report("help-incomplete", tags, "the help text lacks " + what + ": " + cut(s, 80));
    };
    // What visible texts themselves say is no sign of an option
    string said;
    for (auto &o : tb)
        if (!hidden(o)) {
            said += o.h + "\n" + o.hint + "\n" + o.ds + "\n" + o.e + "\n";
            for (auto &v : o.v) {
                said += v.re + "\n" + v.hint + "\n" + v.bad + "\n";
                said += std::to_string(v.a) + "-" + std::to_string(v.b) + "\n";
                for (auto &x : v.strs) said += x + "\n";
            }
        }
    said += c.cs->prog + "\n" + c.cs->ver + "\n" + c.cs->desc;
    said = strip_ws(said);
    if (!mem) {
        if (usage)
            need("Usage: " + c.cs->prog, "the program's name");
        string group;
        for (auto &o : tb) {
            if (o.k == K_GRP) {
                group = o.noname ? "" : o.n;
                continue;
            }
            if (o.k == K_SUB && hidden(o)) {
                if (o.h.size() && said.find(strip_ws(o.h)) == string::npos && txt.find(strip_ws(o.h)) != string::npos)
                    report("hidden-shown", tags, "the help text shows the hidden command '" + o.n + "'");
                continue;
            }
            if (hidden(o)) {
                if (said.find(strip_ws(o.h)) != string::npos || (o.l.size() && said.find("--" + o.l) != string::npos))
                    continue;
                if (txt.find(strip_ws(o.h)) != string::npos || (o.l.size() && (txt.find("--" + o.l + "<") != string::npos || txt.find("--" + o.l + "-") != string::npos)))
                    report("hidden-shown", tags, "the help text shows the hidden option '" + o.key() + "'");
                continue;
            }
            if (o.k == K_OPT && group.size())
                need(group, "the group");
            if (o.k == K_OPT) {
                string w = o.s ? string("-") + o.s : "";
                if (o.l.size())
                    w += (w.size() ? ", --" : "--") + o.l;
                need(w, "option '" + o.key() + "'");
            } else
                need(o.k == K_POS ? (o.f & BF_REQUIRED ? "<" : "[") + o.n : o.n, "'" + o.n + "'");
            if (!has_text(f.out, o.h))
                report("help-incomplete", tags, "the help text lacks the description of '" + o.key() + "': " + cut(o.h, 80));
            if (o.k == K_OPT && o.t != T_FLAG)
                for (auto &v : o.v)
                    need(rule_text(v), "the rule of '" + o.key() + "'");
            if (o.k == K_OPT && o.t != T_FLAG && o.has_hint)
                need("<" + string(is_map(o.t) ? "KEY=" : "") + o.hint + (is_map(o.t) || is_array(o.t) ? ",...>" : ">"), "the hint of '" + o.key() + "'");
            for (auto &q : {std::make_pair(BF_EXIT, "(exit)"), std::make_pair(BF_REQUIRED, "(required)"), std::make_pair(BF_DEPRECATED, "(deprecated)"), std::make_pair(BF_EXPERIMENTAL, "(experimental)")})
                if (o.f & q.first)
                    need(q.second, "the mark of '" + o.key() + "'");
            if (o.k != K_SUB) {
                string e = c.model.envname(o);
                if (e.size())
                    need("env: " + e + ")", "the variable of '" + o.key() + "'");
                if (o.has_def && o.t == T_STR)
                    need("(default: \"" + o.ds + "\"", "the default of '" + o.key() + "'");
                if (o.has_def && o.t == T_INT)
                    need(fmt("(default: %lld", (long long)o.di), "the default of '" + o.key() + "'");
                if (o.has_def && o.t == T_BOOL)
                    need(string("(default: ") + (o.di ? "true" : "false"), "the default of '" + o.key() + "'");
            }
        }
    }
    // Nothing that does not exist, whatever failed
    for (size_t i = 0; i + 2 < f.out.size(); i++) {
        if (f.out[i] != '-' || f.out[i + 1] != '-')
            continue;
        size_t l = i; // options start their line: "  --name" or "  -n, --name"
        if (l >= 4 && f.out[l - 1] == ' ' && f.out[l - 2] == ',' && f.out[l - 4] == '-')
            l -= 4;
        size_t sp = l;
        while (sp && f.out[sp - 1] == ' ')
            sp--;
        if (sp == l || (sp && f.out[sp - 1] != '\n'))
            continue;
        size_t j = i + 2;
        while (j < f.out.size() && (isalnum((unsigned char)f.out[j]) || f.out[j] == '-' || f.out[j] == '_'))
            j++;
        string n = f.out.substr(i + 2, j - i - 2);
        if (n.empty())
            continue;
        bool known = said.find("--" + n) != string::npos;
        for (auto &o : tb)
            known |= o.k == K_OPT && o.l == n && !(o.f & BF_HIDDEN);
        if (!known)
            report("help-invents", tags, "the help text shows an option '--" + n + "' that the table does not have");
        i = j;
    }
    if (!mem && !usage) {
        string key;
        for (auto &p : chain)
            key += fmt("%d.%d ", p.first, p.second);
        auto r = c.helps.emplace(key, f.out);
        if (!r.second && r.first->second != f.out)
            report("help-varies", PB(13), "the same help is not the same text any more");
    }
}

void World::do_print(const Op &op, CtxRT &c, Frame &f)
{
    bool ok;
    auto chain = real_chain(c, &ok);
    if (!ok) {
        report("bad-chain", PB(15) | PB(1), "the stack of active commands is damaged");
        stop = true;
        return;
    }
    size_t live = sim_live(c.id);
    int    code = br_ctx_error(c.ctx.data());
    bool   back = guarded(f, [&] {
        void *a = c.ctx.data();
        op.kind == OP_HELP ? br_help(a) : op.kind == OP_USAGE ? br_usage(a) : br_version(a);
    });
    if (f.hung)
        return;
    log_op(c, f, op, "");
    if (!back)
        report("print-exits", PALL, "printing ended the program");
    if (sim_live(c.id) != live)
        report("leak", PB(3) | PB(13), fmt("printing %s leaks memory", OPNAMES[op.kind]));
    bool   ok2;
    auto   after = real_chain(c, &ok2);
    if (br_ctx_error(c.ctx.data()) != code || !ok2 || after != chain)
        report("print-changes-state", PB(13), "printing changes the error code or the active command");
    if (!f.err.empty())
        report("print-stderr", PB(13), "printing writes to standard error: " + cut(f.err));
    if (f.fired[FC_OUT])
        return;
    auto need = [&](const string &s, const char *what) {
        if (f.out.find(s) == string::npos)
            report("print-incomplete", PB(13), string("the text lacks the ") + what + " '" + s + "': " + cut(f.out));
    };
    if (op.kind == OP_HELP)
        check_help(c, f, chain, false, PB(13));
    else if (op.kind == OP_USAGE) {
        string s = c.cs->prog;
        for (auto &p : chain)
            s += " " + c.cs->tables[p.first][p.second].n;
        need(s, "command");
        for (auto &o : c.cs->tables[chain.empty() ? 0 : c.cs->tables[chain.back().first][chain.back().second].sub])
            if (o.k == K_POS)
                need(o.n, "positional");
    } else {
        need(c.cs->prog, "program's name");
        if (c.cs->has_ver)
            need(c.cs->ver, "version");
        if (c.cs->has_desc)
            need(c.cs->desc, "description");
    }
}

void World::do_exec(const Op &op, CtxRT &c, Frame &f)
{
    auto   chain = c.model.chain;
    size_t live  = sim_live(c.id);
    int    r     = -1;
    bool   back  = guarded(f, [&] { r = br_exec(c.ctx.data(), (void *)(intptr_t)op.n); });
    if (f.hung)
        return;
    log_op(c, f, op, fmt("returns %d", r));
    if (!back) {
        report("exec-exits", PALL, "executing ended the program");
        return;
    }
    if (sim_live(c.id) != live)
        report("leak", PB(3), "executing leaks memory");
    const OSpec *cmd = chain.empty() ? nullptr : &c.cs->tables[chain.back().first][chain.back().second];
    vector<Ev>   want;
    int          expect = !cmd ? BR_E_NO_COMMAND : !cmd->act ? BR_E_INVALID_HANDLER : action_code(cmd->act);
    if (cmd && cmd->act)
        want.push_back({'a', -1, -1, cmd->act, fmt("%lld", (long long)op.n)});
    if (f.events != want)
        report("wrong-action", PB(10), "executing ran [" + evs_text(f.events) + "], expected [" + evs_text(want) + "]");
    if (r != expect)
        report("wrong-result", PB(10), fmt("executing returns %d, expected %d", r, expect));
    if (f.fired[FC_OUT])
        return;
    string txt  = strip_ws(f.out);
    auto   need = [&](const string &path, const OSpec &o) {
        if (txt.find(strip_ws(path + " " + o.n + (o.h.size() ? " - " + o.h : ""))) == string::npos)
            report("commands-incomplete", PB(13), "the list of commands lacks '" + path + " " + o.n + "' or its description");
    };
    string visible; // descriptions end with a number of their own, so one of a hidden command shows
    for (auto &tb : c.cs->tables)
        for (auto &o : tb)
            if (!hidden(o))
                visible += o.h + "\n";
    visible     = strip_ws(visible);
    auto absent = [&](const OSpec &o) {
        string h = strip_ws(o.h);
        if (h.size() && visible.find(h) == string::npos && txt.find(h) != string::npos)
            report("hidden-shown", PB(13), "the list of commands shows the hidden '" + o.n + "'");
    };
    if (cmd && !cmd->act) { // every command below, one level further as long as it can be called
        for (auto &o : c.cs->tables[cmd->sub]) {
            if (o.k != K_SUB)
                continue;
            if (hidden(o)) {
                absent(o);
                continue;
            }
            need(cmd->n, o);
            if (o.sub >= 0 && chain.size() + 1 < 8)
                for (auto &q : c.cs->tables[o.sub])
                    if (q.k == K_SUB && !hidden(q))
                        need(cmd->n + " " + o.n, q);
        }
    } else if (!cmd) { // the commands that run something, of the top and of the families below it
        for (auto &o : c.cs->tables[0]) {
            if (o.k != K_SUB)
                continue;
            if (hidden(o)) {
                absent(o);
                continue;
            }
            if (o.act)
                need(c.cs->prog, o);
            if (o.sub >= 0)
                for (auto &q : c.cs->tables[o.sub])
                    if (q.k == K_SUB && q.act && !hidden(q))
                        need(c.cs->prog + " " + o.n, q);
        }
    } else if (!f.out.empty() && !f.user_printed)
        report("exec-prints", PB(13), "running a command prints text of its own");
}

// ---------------------------------------------------------------- a whole execution
void World::run()
{
    seams_begin(this);
    string fds_at_start = fd_snapshot();
    stats.runs++;
    for (auto &e : sc.env)
        set_env(e.first, &e.second);
    for (size_t i = 0; i < sc.ctxs.size(); i++)
        build((int)i);
    threaded = sc.tasks.size() > 1;
    if (threaded) {
        if (!sc.pre.empty())
            pre_left = sc.pre[0].after;
        run_threads(this);
        threaded = false;
        cur      = 0;
    } else
        run_task(0);
    for (auto &c : ctx) {
        if (stop)
            break;
        Op o;
        o.c = c->id;
        if (c->state == 5) {
            o.kind = OP_PARSE;
            do_op(o);
        }
        o.kind = OP_FREE;
        do_op(o);
    }
    if (!stop && fd_snapshot() != fds_at_start)
        report("descriptors-changed", PB(14), "descriptors at the end: " + fd_snapshot());
    seams_end();
}

RunResult exec_scenario(const Scenario &sc, Stats &st, bool differentials)
{
    RunResult r;
    World     w(sc, st);
    w.run();
    u64 main_steps = w.steps;
    bool seen = false;
    for (auto &v : w.viol)
        seen = seen || v.props & w.prop_mask;
    if (differentials && !w.stop && !seen) {
        auto differ = [&](const char *cls, unsigned props, int x, const string &msg) {
            Violation v;
            v.cls = cls, v.props = props, v.msg = msg, v.ctx = x;
            w.viol.push_back(v);
            w.hash.add(v.cls);
        };
        auto solo = [&](int x, const std::map<string, string> &env, const vector<Op> &ops, vector<LogE> &log) {
            Scenario s;
            s.prop = sc.prop;
            for (auto &e : env)
                s.env.push_back(e);
            s.ctxs   = sc.ctxs; // contexts keep their numbers; the others stay unused
            s.faults = sc.faults;
            s.tasks.push_back(ops);
            World v(s, st);
            v.no_nested = true;
            v.quiet     = true;
            v.run();
            st.solo++;
            log = v.ctx[x]->log;
            return !v.stop;
        };
        if (w.prop == 6) {
            for (auto &d : w.diffs) {
                Scenario s;
                Op       i, p;
                i.kind = OP_INIT, i.c = d.ctx;
                p.kind = OP_PARSE, p.c = d.ctx, p.args = d.args;
                s.prop = sc.prop;
                for (auto &e : d.env)
                    s.env.push_back(e);
                s.ctxs = sc.ctxs;
                s.tasks.push_back({i, p});
                World v(s, st);
                v.no_nested = true;
                v.quiet     = true;
                v.run();
                st.solo++;
                if (v.ctx[d.ctx]->log.size() < 2)
                    continue;
                const string &a = v.ctx[d.ctx]->log[1].core;
                if (a != d.core) {
                    size_t k = 0;
                    while (k < a.size() && k < d.core.size() && a[k] == d.core[k])
                        k++;
                    k = k > 60 ? k - 60 : 0;
                    differ("not-afresh", PB(6), d.ctx, "a parse of an already parsed table gives ..." + cut(d.core.substr(k)) + ", on a fresh table ..." + cut(a.substr(k)));
                    break;
                }
            }
        } else if (w.prop == 7) {
            std::map<string, string> env(sc.env.begin(), sc.env.end());
            for (auto &c : w.ctx) {
                if (c->executed.empty())
                    continue;
                vector<LogE> log;
                if (!solo(c->id, env, c->executed, log))
                    continue;
                size_t n = std::min(log.size(), c->log.size());
                for (size_t i = 0; i <= n; i++) {
                    bool same = i < n ? log[i].core == c->log[i].core && log[i].io == c->log[i].io && (c->log[i].captured || log[i].err == c->log[i].err) : log.size() >= c->log.size();
                    if (same)
                        continue;
                    string a = i < n ? c->log[i].core + " " + c->log[i].io + c->log[i].err : "(end)", b = i < n ? log[i].core + " " + log[i].io + log[i].err : "(end)";
                    size_t k = 0;
                    while (k < a.size() && k < b.size() && a[k] == b[k])
                        k++;
                    k = k > 60 ? k - 60 : 0;
                    differ("disturbed", PB(7), c->id, fmt("context %d gives ", c->id) + "..." + cut(a.substr(std::min(k, a.size()))) + ", alone ..." + cut(b.substr(std::min(k, b.size()))));
                    break;
                }
            }
        } else if (w.prop == 11) {
            bool io = false;
            Scenario s = sc;
            s.faults.clear();
            for (auto &f : sc.faults)
                if (f.cls == FC_OUT || f.cls == FC_ERR)
                    io = true;
                else
                    s.faults.push_back(f);
            if (io) {
                World v(s, st);
                v.quiet = true;
                v.run();
                st.solo++;
                for (size_t x = 0; x < w.ctx.size() && !v.stop; x++) {
                    auto &a = w.ctx[x]->log, &b = v.ctx[x]->log;
                    for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
                        if (i >= a.size() || i >= b.size() || a[i].core != b[i].core) {
                            differ("output-matters", PB(11), (int)x, "with failing output: " + cut(i < a.size() ? a[i].core : "(nothing)") + "; with working output: " + cut(i < b.size() ? b[i].core : "(nothing)"));
                            x = w.ctx.size();
                            break;
                        }
                }
            }
        }
    }
    r.v           = w.viol;
    r.hash        = w.hash.h;
    r.sched_hash  = w.shash.h;
    r.total_steps = main_steps;
    r.static_writes = w.static_writes;
    r.counts      = w.counts;
    r.nontrivial  = w.substance && (sc.faults.empty() && sc.pre.empty() && !sc.yield_kinds ? true : w.nfired + w.nswitch > 0);
    return r;
}

// The scenario: everything one execution depends on, and its replay file form.
#include "sim.h"

const char *OPNAMES[] = {"init", "parse", "free", "observe", "help", "usage", "version", "exec", "setenv", "unsetenv", "config"};
const char *FCNAMES[] = {"mem", "out", "err", "callback", "pipe", "dup", "dup2", "fcntl", "read", "close"};
static const char *KN[] = {"opt", "pos", "group", "sub"};
static const char *TN[] = {"int", "str", "float", "bool", "flag", "astr", "aint", "afloat", "mstr", "mint", "mfloat",
                           "mbool", "vstr", "vint", "vfloat", "custom"};
static const char *VN[] = {"range", "len", "count", "regex", "cstr", "cint", "cfloat", "custom"};

template <size_t N> static int find_name(const char *const (&names)[N], const string &s)
{
    for (size_t i = 0; i < N; i++)
        if (s == names[i])
            return (int)i;
    return -1;
}
int prop_number(const string &p) { return p.size() == 3 && p[0] == 'C' ? atoi(p.c_str() + 1) : 0; }

static J ops_json(const vector<Op> &ops);
static J op_json(const Op &o)
{
    J j = J::obj();
    j.set("op", OPNAMES[o.kind]);
    if (o.kind == OP_SETENV || o.kind == OP_UNSETENV) {
        j.set("k", o.k);
        if (o.kind == OP_SETENV)
            j.set("v", o.v);
        return j;
    }
    j.set("c", o.c);
    if (!o.args.empty() || o.kind == OP_PARSE) {
        J a = J::arr();
        for (auto &s : o.args)
            a.push(s);
        j.set("args", a);
    }
    if (o.kind == OP_CONFIG)
        j.set("k", o.k).set("v", o.v);
    if (o.n)
        j.set("n", o.n);
    return j;
}
static J ops_json(const vector<Op> &ops)
{
    J a = J::arr();
    for (auto &o : ops)
        a.push(op_json(o));
    return a;
}
static J strs_json(const vector<string> &v)
{
    J a = J::arr();
    for (auto &s : v)
        a.push(s);
    return a;
}
static J vspec_json(const VSpec &v)
{
    J j = J::obj();
    j.set("kind", VN[v.kind]);
    if (v.a || v.b) j.set("a", v.a).set("b", v.b);
    if (!v.strs.empty()) j.set("strs", strs_json(v.strs));
    if (!v.ints.empty()) { J a = J::arr(); for (auto x : v.ints) a.push(x); j.set("ints", a); }
    if (!v.floats.empty()) { J a = J::arr(); for (auto x : v.floats) a.push(x); j.set("floats", a); }
    if (v.re.size()) j.set("re", v.re);
    if (v.has_hint) j.set("hint", v.hint);
    if (v.kind == V_CUSTOM_) {
        j.set("id", v.id);
        if (v.post) j.set("post", true);
        if (v.failn) j.set("failn", v.failn);
        if (v.bad.size()) j.set("bad", v.bad);
        if (v.print) j.set("print", v.print);
        if (v.code) j.set("code", v.code);
        if (!v.nested.empty()) j.set("nested", ops_json(v.nested));
    }
    return j;
}
static J ospec_json(const OSpec &o)
{
    J j = J::obj();
    j.set("k", KN[o.k]);
    if (o.std_help) return j.set("std", "help");
    if (o.std_version) return j.set("std", "version");
    if (o.k == K_OPT || o.k == K_POS) j.set("t", TN[o.t]);
    if (o.s) j.set("s", string(1, o.s));
    if (o.l.size()) j.set("l", o.l);
    if (!o.noname && o.k != K_OPT) j.set("n", o.n);
    if (o.k != K_GRP) j.set("h", o.h);
    if (o.has_hint) j.set("hint", o.hint);
    if (o.has_env) j.set("e", o.e);
    if (o.has_flags) j.set("f", o.f);
    if (o.has_def) {
        if (o.t == T_STR) j.set("d", o.ds);
        else if (o.t == T_FLOAT) j.set("d", o.df);
        else j.set("d", o.di);
    }
    if (!o.v.empty()) { J a = J::arr(); for (auto &v : o.v) a.push(vspec_json(v)); j.set("v", a); }
    if (!o.req.empty()) j.set("req", strs_json(o.req));
    if (!o.con.empty()) j.set("con", strs_json(o.con));
    if (o.hk) j.set("hk", o.hk);
    if (o.fm) j.set("fm", o.fm);
    if (o.act) j.set("act", o.act);
    if (o.k == K_SUB) j.set("sub", o.sub);
    if (!o.nested.empty()) j.set("nested", ops_json(o.nested));
    return j;
}
J Scenario::json() const
{
    J j = J::obj();
    j.set("prop", prop);
    J e = J::arr();
    for (auto &p : env) { J a = J::arr(); a.push(p.first); a.push(p.second); e.push(a); }
    j.set("env", e);
    J cs = J::arr();
    for (auto &c : ctxs) {
        J x = J::obj();
        x.set("prog", c.prog);
        if (c.has_ver) x.set("ver", c.ver);
        if (c.has_desc) x.set("desc", c.desc);
        if (c.has_prefix) x.set("prefix", c.prefix);
        if (c.has_cfg) {
            J a = J::arr();
            for (auto v : c.cfg) a.push((int64_t)v);
            x.set("cfg", a);
            x.set("spaces", c.spaces);
        }
        if (c.dbg) x.set("dbg", true);
        J ts = J::arr();
        for (auto &t : c.tables) { J a = J::arr(); for (auto &o : t) a.push(ospec_json(o)); ts.push(a); }
        x.set("tables", ts);
        cs.push(x);
    }
    j.set("ctxs", cs);
    J ts = J::arr();
    for (auto &t : tasks) ts.push(ops_json(t));
    j.set("tasks", ts);
    J fs = J::arr();
    for (auto &f : faults) {
        J x = J::obj();
        x.set("c", FCNAMES[f.cls]).set("x", f.x).set("j", f.j).set("n", f.n);
        if (f.m) x.set("m", f.m);
        fs.push(x);
    }
    j.set("faults", fs);
    J ps = J::arr();
    for (auto &p : pre) { J a = J::arr(); a.push((int64_t)p.after); a.push(p.task); ps.push(a); }
    j.set("pre", ps);
    if (yield_kinds) {
        J y = J::arr();
        y.push(yield_kinds), y.push(yield_pct), y.push((int64_t)yield_seed), y.push(site_mod);
        j.set("yield", y);
    }
    if (fdlimit) j.set("fdlimit", fdlimit);
    if (closed) j.set("closed", closed);
    return j;
}

static bool ops_load(const vector<J> &a, size_t nctx, vector<Op> &out)
{
    for (auto &j : a) {
        Op o;
        o.kind = find_name(OPNAMES, j.str("op"));
        o.c    = (int)j.num("c");
        o.k    = j.str("k");
        o.v    = j.str("v");
        o.n    = j.num("n");
        for (auto &s : j.list("args")) o.args.push_back(s.s);
        if (o.kind < 0 || o.c < 0 || o.c >= (int)nctx) return false;
        out.push_back(o);
    }
    return true;
}
static bool vspec_load(const J &j, size_t nctx, VSpec &v)
{
    v.kind = find_name(VN, j.str("kind"));
    if (v.kind < 0) return false;
    v.a = j.num("a");
    v.b = j.num("b");
    for (auto &s : j.list("strs")) v.strs.push_back(s.s);
    for (auto &s : j.list("ints")) v.ints.push_back(s.i);
    for (auto &s : j.list("floats")) v.floats.push_back(s.t == J::DBL ? s.d : (double)s.i);
    v.re       = j.str("re");
    v.has_hint = j.get("hint") != nullptr;
    v.hint     = j.str("hint");
    v.id       = (int)j.num("id");
    v.post     = j.num("post");
    v.failn    = (int)j.num("failn");
    v.bad      = j.str("bad");
    v.print    = (int)j.num("print");
    v.code     = (int)j.num("code");
    if (v.kind == V_CSTR_ && v.strs.empty()) return false;
    if (v.kind == V_CINT_ && v.ints.empty()) return false;
    if (v.kind == V_CFLOAT_ && v.floats.empty()) return false;
    return ops_load(j.list("nested"), nctx, v.nested);
}
bool Scenario::load(const J &j)
{
    prop = j.str("prop");
    for (auto &e : j.list("env")) {
        if (e.a.size() != 2) return false;
        env.emplace_back(e.a[0].s, e.a[1].s);
    }
    size_t nctx = j.list("ctxs").size();
    for (auto &x : j.list("ctxs")) {
        CSpec c;
        c.prog = x.str("prog");
        c.has_ver = x.get("ver"), c.ver = x.str("ver");
        c.has_desc = x.get("desc"), c.desc = x.str("desc");
        c.has_prefix = x.get("prefix"), c.prefix = x.str("prefix");
        c.has_cfg = x.list("cfg").size() == 4;
        for (size_t i = 0; c.has_cfg && i < 4; i++) c.cfg[i] = (size_t)x.list("cfg")[i].i;
        c.spaces = x.num("spaces", 1);
        c.dbg    = x.num("dbg");
        for (auto &t : x.list("tables")) {
            Table tb;
            for (auto &y : t.a) {
                OSpec o;
                o.k = find_name(KN, y.str("k"));
                if (o.k < 0) return false;
                string std = y.str("std");
                if (std == "help" || std == "version") {
                    (std == "help" ? o.std_help : o.std_version) = true;
                    o.t = T_FLAG, o.s = std == "help" ? 'h' : 'V', o.l = std, o.f = BF_EXIT;
                    o.h = std == "help" ? "Show help message" : "Show version information";
                    tb.push_back(o);
                    continue;
                }
                if (o.k == K_OPT || o.k == K_POS) {
                    o.t = find_name(TN, y.str("t"));
                    if (o.t < 0) return false;
                }
                o.s = y.str("s").empty() ? 0 : y.str("s")[0];
                o.l = y.str("l");
                o.noname = o.k == K_GRP && !y.get("n");
                o.n = y.str("n");
                if (o.k == K_OPT) o.n = o.l.size() ? o.l : string(1, o.s);
                if (o.k == K_OPT && !o.s && o.l.empty()) return false;
                if (o.k != K_GRP && o.k != K_OPT && o.n.empty()) return false;
                o.h = y.str("h");
                o.has_hint = y.get("hint"), o.hint = y.str("hint");
                o.has_env = y.get("e"), o.e = y.str("e");
                o.has_flags = y.get("f"), o.f = (int)y.num("f");
                if (o.k == K_POS && !o.has_flags) o.f = BF_REQUIRED;
                if (const J *d = y.get("d")) {
                    o.has_def = true;
                    o.ds = d->s, o.df = d->t == J::DBL ? d->d : (double)d->i, o.di = d->i;
                    if (is_coll(o.t) || o.t == T_CUSTOM) return false;
                }
                for (auto &v : y.list("v")) {
                    VSpec vs;
                    if (!vspec_load(v, nctx, vs)) return false;
                    o.v.push_back(vs);
                }
                for (auto &s : y.list("req")) o.req.push_back(s.s);
                for (auto &s : y.list("con")) o.con.push_back(s.s);
                o.hk  = (int)y.num("hk");
                o.fm  = (int)y.num("fm");
                o.act = (int)y.num("act");
                o.sub = (int)y.num("sub", -1);
                if (o.t == T_CUSTOM && (o.k == K_OPT || o.k == K_POS) && o.hk != 2) return false;
                if (!ops_load(y.list("nested"), nctx, o.nested)) return false;
                tb.push_back(o);
            }
            c.tables.push_back(tb);
        }
        if (c.tables.empty()) return false;
        for (auto &t : c.tables)
            for (auto &o : t)
                if (o.k == K_SUB && (o.sub < 0 || o.sub >= (int)c.tables.size())) return false;
        ctxs.push_back(c);
    }
    for (auto &t : j.list("tasks")) {
        vector<Op> ops;
        if (!ops_load(t.a, nctx, ops)) return false;
        tasks.push_back(ops);
    }
    for (auto &x : j.list("faults")) {
        Fault f;
        f.cls = find_name(FCNAMES, x.str("c"));
        if (f.cls < 0) return false;
        f.x = (int)x.num("x"), f.j = (int)x.num("j"), f.n = (int)x.num("n"), f.m = (int)x.num("m");
        faults.push_back(f);
    }
    for (auto &p : j.list("pre")) {
        if (p.a.size() != 2) return false;
        pre.push_back({(u64)p.a[0].i, (int)p.a[1].i});
    }
    const auto &y = j.list("yield");
    if (y.size() == 4) yield_kinds = (int)y[0].i, yield_pct = (int)y[1].i, yield_seed = (u64)y[2].i, site_mod = (int)y[3].i;
    fdlimit = (int)j.num("fdlimit");
    closed  = (int)j.num("closed") & 7;
    return !ctxs.empty() && !tasks.empty();
}

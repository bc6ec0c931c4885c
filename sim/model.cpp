// The reference model: what a parse means, written against the documented behaviour and
// knowing nothing of memory, output or earlier parses.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cctype>

bool is_array(int t) { return t == T_ASTR || t == T_AINT || t == T_AFLOAT; }
bool is_map(int t) { return t == T_MSTR || t == T_MINT || t == T_MFLOAT || t == T_MBOOL; }
bool is_variadic(int t) { return t == T_VSTR || t == T_VINT || t == T_VFLOAT; }
bool is_coll(int t) { return is_array(t) || is_map(t) || is_variadic(t); }

string strip_ws(const string &s)
{
    string r;
    for (char c : s)
        if (c != ' ' && c != '\n' && c != '\t')
            r += c;
    return r;
}
bool model_bool(const string &s, bool &v)
{
    static const char *T[] = {"1", "true", "yes", "y", "on", "0x1", "0b1"}, *F[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
    string l;
    for (char c : s)
        l += (char)tolower((unsigned char)c);
    for (auto w : T) if (l == w) { v = true; return true; }
    for (auto w : F) if (l == w) { v = false; return true; }
    return false;
}
bool model_regex(const string &re, const string &v)
{
    auto all = [&](auto p) { return !v.empty() && std::all_of(v.begin(), v.end(), p); };
    if (re == "^[a-z]+$") return all([](char c) { return c >= 'a' && c <= 'z'; });
    if (re == "^[0-9]+$") return all([](char c) { return c >= '0' && c <= '9'; });
    if (re == "^v[0-9]$") return v.size() == 2 && v[0] == 'v' && isdigit((unsigned char)v[1]);
    return true; // ".*"
}

void Model::init(const CSpec *c, int idx) { cs = c; ctx = idx; reset(); }
void Model::reset()
{
    chain.clear();
    st.assign(cs->tables.size(), {});
    for (size_t t = 0; t < st.size(); t++) {
        st[t].resize(cs->tables[t].size());
        for (size_t o = 0; o < st[t].size(); o++) {
            const OSpec &sp = cs->tables[t][o];
            if (sp.has_def) {
                OState &x = st[t][o];
                x.is_set = true;
                x.i = sp.t == T_BOOL ? sp.di != 0 : sp.di;
                x.f = sp.df;
                x.s = sp.ds;
                x.s_null = sp.t != T_STR;
            }
        }
    }
}
// What a custom handler stores instead of memory: 0 a null pointer, else a small handle; -1 memory
int custom_token(const OSpec &o, const string &text)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : o.key() + "/" + text) h = (h ^ c) * 1099511628211ull;
    h = (h >> 20) % 100;
    return h < 12 ? 0 : h < 22 && o.fm == 1 ? (int)h : -1;
}
int          Model::active_table() const { return chain.empty() ? 0 : cs->tables[chain.back().first][chain.back().second].sub; }
const Table &Model::active() const { return cs->tables[active_table()]; }
int Model::find_name(int t, const string &n) const
{
    const Table &tb = cs->tables[t];
    for (size_t i = 0; i < tb.size(); i++)
        if (tb[i].k != K_GRP && tb[i].key() == n)
            return (int)i;
    return -1;
}
bool Model::find(const string &path, int &t, int &o) const
{
    if (path.find('.') == string::npos) {
        for (int i = (int)chain.size(); i >= 0; --i) {
            t = i == 0 ? 0 : cs->tables[chain[i - 1].first][chain[i - 1].second].sub;
            o = find_name(t, path);
            if (o >= 0) return true;
        }
        return false;
    }
    if (path[0] == '.') { t = 0; o = find_name(0, path.substr(1)); return o >= 0; }
    size_t pos = 0, i = 0;
    t = 0;
    if ((size_t)std::count(path.begin(), path.end(), '.') > chain.size()) return false;
    for (;;) {
        size_t dot = path.find('.', pos);
        if (dot == string::npos) break;
        const OSpec &c = cs->tables[chain[i].first][chain[i].second];
        if (path.substr(pos, dot - pos) != c.n) return false;
        t = c.sub;
        i++;
        pos = dot + 1;
    }
    o = find_name(t, path.substr(pos));
    return o >= 0;
}
string Model::envname(const OSpec &o) const
{
    const string &p = cs->prefix;
    bool          pre = cs->has_prefix, us = pre && p.size() && p.back() != '_';
    if (o.has_env) {
        if ((o.f & BF_NOPREFIX) || (pre && o.e.compare(0, p.size(), p) == 0)) return o.e;
        return p + (us ? "_" : "") + o.e;
    }
    if (o.f & BF_AUTOENV) {
        string n = o.key(), r = (o.f & BF_NOPREFIX) ? n : p + (us ? "_" : "") + n;
        for (auto &c : r) c = c == '-' ? '_' : (char)toupper((unsigned char)c);
        return r;
    }
    return "";
}

namespace {
struct Fail { int status, stage; };

struct Run {
    Model                         &m;
    const CSpec                   &cs;
    std::map<string, string>       env; // callbacks may change it
    const vector<Fault>           &cbf;
    MResult                        r;
    std::map<int, int>             vinv;
    int                            cbn = 0;
    int                            src = 1;

    int cb() // the fault planned for this callback, or -1
    {
        int n = cbn++;
        for (auto &f : cbf)
            if (f.cls == FC_CB && f.n == n)
                return f.m;
        return -1;
    }
    void environment(const vector<Op> &ops)
    {
        for (auto &o : ops)
            if (o.kind == OP_SETENV) env[o.k] = o.v;
            else if (o.kind == OP_UNSETENV) env.erase(o.k);
    }
    // Leading blanks, an optional sign, then decimal digits only, within 64 bits
    static bool integer(const string &x, i64 &v)
    {
        size_t i = 0;
        while (i < x.size() && (x[i] == ' ' || (x[i] >= '\t' && x[i] <= '\r'))) i++;
        bool neg = i < x.size() && x[i] == '-';
        i += neg || (i < x.size() && x[i] == '+');
        if (i >= x.size()) return false;
        unsigned __int128 n = 0, lim = ((unsigned __int128)1 << 63) - (neg ? 0 : 1);
        for (; i < x.size(); i++) {
            if (x[i] < '0' || x[i] > '9') return false;
            n = n * 10 + (unsigned)(x[i] - '0');
            if (n > lim) return false;
        }
        v = neg ? (i64)-(__int128)n : (i64)n;
        return true;
    }
    void elements(const OSpec &o, OState &s, const string &v)
    {
        vector<string> parts;
        if (is_variadic(o.t) || v.find(',') == string::npos)
            parts.push_back(v);
        else {
            string cur;
            for (char c : v + ",") {
                if (c != ',') { cur += c; continue; }
                if (cur.size()) parts.push_back(cur);
                cur.clear();
            }
        }
        for (auto &p : parts) {
            Elem e;
            char *end;
            switch (o.t) {
                case T_ASTR: case T_VSTR: e.s = p; break;
                case T_AFLOAT:
                    e.f = strtod(p.c_str(), &end);
                    if (*end || end == p.c_str()) throw Fail{BR_E_INVALID_FORMAT, ST_ELEM};
                    break;
                case T_VINT:
                    if (!integer(p, e.i)) throw Fail{BR_E_INVALID_VALUE, ST_ELEM};
                    break;
                case T_VFLOAT:
                    e.f = strtod(p.c_str(), &end);
                    if (*end || end == p.c_str()) throw Fail{BR_E_INVALID_VALUE, ST_ELEM};
                    break;
                case T_AINT: {
                    size_t sep = string::npos;
                    for (size_t i = 1; i < p.size() && sep == string::npos; i++)
                        if ((p[i] == '-' || p[i] == ':') && isdigit((unsigned char)p[i - 1]) &&
                            i + 1 < p.size() && (isdigit((unsigned char)p[i + 1]) || p[i + 1] == '-'))
                            sep = i;
                    if (sep != string::npos) {
                        i64 a, b;
                        if (!integer(p.substr(0, sep), a) || !integer(p.substr(sep + 1), b) || a != (int)a || b != (int)b) throw Fail{BR_E_INVALID_FORMAT, ST_ELEM};
                        for (i64 x = std::min(a, b);; x++) {
                            Elem y;
                            y.i = x;
                            s.el.push_back(y);
                            if (x == std::max(a, b)) break;
                        }
                        continue;
                    }
                    if (!integer(p, e.i) || e.i != (int)e.i) throw Fail{BR_E_INVALID_FORMAT, ST_ELEM};
                    break;
                }
                default: {
                    size_t eq = p.find('=');
                    if (eq == string::npos) throw Fail{BR_E_INVALID_FORMAT, ST_ELEM};
                    e.key    = p.substr(0, eq);
                    string x = p.substr(eq + 1);
                    if (o.t == T_MSTR) e.s = x;
                    else if (o.t == T_MBOOL) { if (!model_bool(x, e.b)) throw Fail{BR_E_INVALID_VALUE, ST_ELEM}; }
                    else {
                        bool good = o.t == T_MINT ? integer(x, e.i) : (e.f = strtod(x.c_str(), &end), x.size() && !*end);
                        if (!good) throw Fail{BR_E_INVALID_VALUE, ST_ELEM};
                    }
                    auto it = std::find_if(s.el.begin(), s.el.end(), [&](const Elem &q) { return q.key == e.key; });
                    if (it != s.el.end()) { *it = e; continue; }
                }
            }
            s.el.push_back(e);
        }
        auto val_less = [&](const Elem &a, const Elem &b) {
            switch (o.t) {
                case T_ASTR: case T_VSTR: case T_MSTR: return a.s < b.s;
                case T_AFLOAT: case T_VFLOAT: case T_MFLOAT: return a.f < b.f;
                case T_MBOOL: return a.b < b.b;
                default: return a.i < b.i;
            }
        };
        auto same = [&](const Elem &a, const Elem &b) {
            switch (o.t) {
                case T_ASTR: case T_VSTR: case T_MSTR: return a.s == b.s;
                case T_AFLOAT: case T_VFLOAT: case T_MFLOAT: return std::fabs(a.f - b.f) < 0.0000001;
                case T_MBOOL: return a.b == b.b;
                default: return a.i == b.i;
            }
        };
        auto uniq = [&] {
            vector<Elem> u;
            for (auto &e : s.el)
                if (std::none_of(u.begin(), u.end(), [&](const Elem &x) { return same(e, x); })) u.push_back(e);
            s.el.swap(u);
        };
        if (is_map(o.t)) {
            if (o.f & BF_UNIQVAL) uniq();
            if (o.f & BF_SORTKEY) std::stable_sort(s.el.begin(), s.el.end(), [](const Elem &a, const Elem &b) { return a.key < b.key; });
            else if (o.f & BF_SORTVAL) std::stable_sort(s.el.begin(), s.el.end(), val_less);
        } else {
            if (o.f & BF_SORTED) std::stable_sort(s.el.begin(), s.el.end(), val_less);
            if (o.f & BF_UNIQUE) uniq();
        }
        s.count = s.el.size();
    }
    void builtin(const OSpec &o, OState &s, const string *v)
    {
        bool b;
        switch (o.t) {
            case T_INT: if (!integer(*v, s.i)) throw Fail{BR_E_INVALID_FORMAT, ST_ARGS}; break;
            case T_FLOAT: {
                char *end;
                double x = strtod(v->c_str(), &end);
                if (v->empty() || *end) throw Fail{BR_E_INVALID_FORMAT, ST_ARGS};
                s.f = x;
                break;
            }
            case T_STR: s.s = *v; s.s_null = false; break;
            case T_FLAG: case T_BOOL:
                if (!v) { s.i = 1; break; }
                if (!model_bool(*v, b)) throw Fail{BR_E_INVALID_ARGUMENT, ST_ARGS};
                s.i = b;
                break;
            default: elements(o, s, *v);
        }
    }
    void custom_validator(const VSpec &v, int t, int o, const string &val)
    {
        r.events.push_back({v.post ? 'q' : 'p', t, o, v.id, val});
        environment(v.nested);
        int f = cb(), n = ++vinv[v.id];
        if (f >= 0) throw Fail{callback_code(v.id), ST_CALLBACK};
        if (v.failn == -1 || (v.failn && n == v.failn) || (v.bad.size() && val.find(v.bad) != string::npos))
            throw Fail{v.code ? v.code : BR_E_INVALID_VALUE, ST_CALLBACK};
    }
    void apply(int t, int oi, const string *v)
    {
        const OSpec &o = cs.tables[t][oi];
        OState      &s = m.st[t][oi];
        for (auto &x : o.v) {
            if (x.kind == V_REGEX_) {
                if (!model_regex(x.re, v ? *v : "")) throw Fail{BR_E_INVALID_VALUE, ST_CONSTRAINT};
            } else if (x.kind == V_CUSTOM_ && !x.post)
                custom_validator(x, -1, -1, v ? *v : "");
        }
        if (o.std_help || o.std_version)
            s.i = 0; // their handlers set nothing
        else if (o.hk == 0)
            builtin(o, s, v);
        else {
            r.events.push_back({'h', t, oi, 0, v ? *v : ""});
            environment(o.nested);
            int f = cb();
            if (f == 0) throw Fail{callback_code(oi + 1), ST_CALLBACK};
            if (o.hk == 1) builtin(o, s, v);
            else {
                s.custom = true;
                s.s = v ? *v : "";
            }
            if (f >= 1) throw Fail{callback_code(oi + 1), ST_CALLBACK};
        }
        s.is_set = true;
        s.src    = src;
        if (!is_coll(o.t) && s.count == 0) s.count = 1;
        if (o.f & BF_EXIT) {
            r.exit_opt_t = t;
            r.exit_opt_o = oi;
            throw Fail{1, ST_OK};
        }
    }
    int positional(int t, int idx)
    {
        const Table &tb = cs.tables[t];
        int          n  = 0;
        for (size_t i = 0; i < tb.size(); i++)
            if (tb[i].k == K_POS && (is_variadic(tb[i].t) || n++ == idx)) return (int)i;
        return -1;
    }
    void level(int t, const vector<string> &a, size_t from)
    {
        const Table &tb = cs.tables[t];
        int          pos = 0;
        bool         only = false;
        auto take_pos = [&](const string &v) {
            int o = positional(t, pos++);
            if (o < 0) throw Fail{BR_E_INVALID_ARGUMENT, ST_ARGS};
            apply(t, o, &v);
        };
        for (size_t i = from; i < a.size(); i++) {
            const string &s = a[i];
            if (only) { take_pos(s); continue; }
            if (s == "--") { only = true; continue; }
            if (s.compare(0, 2, "--") == 0) {
                size_t eq = s.find('=');
                string n  = s.substr(2, eq == string::npos ? string::npos : eq - 2);
                int    o  = -1;
                for (size_t k = 0; k < tb.size() && o < 0; k++)
                    if (tb[k].k == K_OPT && n.size() && tb[k].l == n) o = (int)k;
                if (o < 0) throw Fail{BR_E_INVALID_ARGUMENT, ST_ARGS};
                if (tb[o].t == T_FLAG && eq != string::npos) throw Fail{BR_E_INVALID_ARGUMENT, ST_ARGS};
                if (tb[o].t == T_FLAG) { apply(t, o, nullptr); continue; }
                string v;
                if (eq != string::npos) v = s.substr(eq + 1);
                else if (i + 1 < a.size()) v = a[++i];
                else throw Fail{BR_E_MISSING_VALUE, ST_ARGS};
                apply(t, o, &v);
                continue;
            }
            if (s.size() > 1 && s[0] == '-') {
                if (isdigit((unsigned char)s[1]) || (s[1] == '.' && s.size() > 2 && isdigit((unsigned char)s[2]))) {
                    int o = positional(t, pos);
                    if (o >= 0 && (tb[o].t == T_INT || tb[o].t == T_FLOAT || tb[o].t == T_VINT || tb[o].t == T_VFLOAT)) { take_pos(s); continue; }
                }
                for (size_t k = 1; k < s.size(); k++) {
                    int o = -1;
                    for (size_t q = 0; q < tb.size() && o < 0; q++)
                        if (tb[q].k == K_OPT && tb[q].s == s[k]) o = (int)q;
                    if (o < 0) throw Fail{BR_E_INVALID_ARGUMENT, ST_ARGS};
                    if (tb[o].t == T_FLAG) { apply(t, o, nullptr); continue; }
                    string v;
                    if (k + 1 < s.size()) { v = s.substr(k + 1); k = s.size(); }
                    else if (i + 1 < a.size()) v = a[++i];
                    else throw Fail{BR_E_MISSING_VALUE, ST_ARGS};
                    apply(t, o, &v);
                }
                continue;
            }
            int sub = -1, n = 0;
            for (size_t k = 0; k < tb.size(); k++)
                if (tb[k].k == K_SUB && tb[k].n == s) { sub = (int)k; n = 1; break; }
            if (sub < 0 && s.size())
                for (size_t k = 0; k < tb.size(); k++)
                    if (tb[k].k == K_SUB && tb[k].n.compare(0, s.size(), s) == 0) { sub = (int)k; n++; }
            if (n > 1) throw Fail{BR_E_AMBIGUOUS, ST_COMMAND};
            if (sub >= 0) {
                if ((int)m.chain.size() >= BR_MAX_DEPTH) throw Fail{BR_E_STACK_OVERFLOW, ST_DEPTH};
                m.st[t][sub].is_set = true;
                m.chain.emplace_back(t, sub);
                level(tb[sub].sub, a, i + 1);
                return;
            }
            take_pos(s);
        }
    }
    void load_env(int t)
    {
        const Table &tb = cs.tables[t];
        for (size_t i = 0; i < tb.size(); i++) {
            const OSpec &o = tb[i];
            if (o.k != K_OPT && o.k != K_POS) continue;
            string n = m.envname(o);
            if (n.empty()) continue;
            OState &s = m.st[t][i];
            bool    only_default = o.has_def && s.count == 0;
            if (s.is_set && !only_default && !(o.f & BF_ENVOVR)) continue;
            r.envnames.insert(n);
            auto e = env.find(n);
            if (e == env.end()) continue;
            r.env_used = true;
            OState fresh;
            if (is_coll(o.t) || o.t == T_CUSTOM) s = fresh;
            src = 2;
            string v = e->second; // a callback may change the environment
            apply(t, (int)i, &v);
        }
    }
    void post_option(int t, int oi)
    {
        const OSpec &o = cs.tables[t][oi];
        OState      &s = m.st[t][oi];
        for (auto &v : o.v) {
            int e = 0;
            switch (v.kind) {
                case V_RANGE_:
                    if (o.t == T_FLOAT ? !(s.f >= (double)v.a && s.f <= (double)v.b) : s.i < v.a || s.i > v.b) e = BR_E_INVALID_RANGE;
                    break;
                case V_LEN_: if ((i64)s.s.size() < v.a || (i64)s.s.size() > v.b) e = BR_E_INVALID_RANGE; break;
                case V_COUNT_: if ((i64)s.count < v.a || (i64)s.count > v.b) e = BR_E_INVALID_RANGE; break;
                case V_CSTR_: if (std::find(v.strs.begin(), v.strs.end(), s.s) == v.strs.end()) e = BR_E_INVALID_CHOICE; break;
                case V_CINT_: if (std::find(v.ints.begin(), v.ints.end(), s.i) == v.ints.end()) e = BR_E_INVALID_CHOICE; break;
                case V_CFLOAT_: if (std::find(v.floats.begin(), v.floats.end(), s.f) == v.floats.end()) e = BR_E_INVALID_CHOICE; break;
                case V_CUSTOM_: if (v.post) custom_validator(v, t, oi, o.t == T_STR || (o.t == T_CUSTOM && s.custom && custom_token(o, s.s) < 0) ? s.s : ""); break;
                default: break;
            }
            if (e) throw Fail{e, ST_CONSTRAINT};
        }
    }
    void post(int t)
    {
        const Table &tb = cs.tables[t];
        bool         excl = false;
        int          first = -1;
        for (size_t i = 0; i < tb.size(); i++) {
            const OSpec &o = tb[i];
            if (o.k == K_GRP) { excl = o.f & BF_EXCLUSIVE; first = -1; continue; }
            OState &s = m.st[t][i];
            if ((o.k == K_OPT || o.k == K_POS) && (o.f & BF_REQUIRED) && !s.is_set) throw Fail{BR_E_MISSING_REQUIRED, ST_CONSTRAINT};
            if (!s.is_set) continue;
            if (excl) {
                if (first >= 0) throw Fail{BR_E_EXCLUSIVE, ST_CONSTRAINT};
                first = (int)i;
            }
            post_option(t, (int)i);
            for (auto &n : o.req) {
                int q = m.find_name(t, n);
                if (q >= 0 && !m.st[t][q].is_set) throw Fail{BR_E_MISSING_REQUIRED, ST_CONSTRAINT};
            }
            for (auto &n : o.con) {
                int q = m.find_name(t, n);
                if (q >= 0 && m.st[t][q].is_set) throw Fail{BR_E_CONFLICT, ST_CONSTRAINT};
            }
        }
    }
    int sub_of(size_t i) { return cs.tables[m.chain[i].first][m.chain[i].second].sub; }
    void go(const vector<string> &args)
    {
        m.reset();
        for (auto &t : cs.tables)
            for (auto &o : t) {
                string n = m.envname(o);
                if (n.size() && env.count(n)) r.env_any = true;
            }
        int stage = 0;
        try {
            level(0, args, 0);
            stage = 1;
            src   = 2;
            load_env(0);
            for (size_t i = 0; i < m.chain.size(); i++) load_env(sub_of(i));
            stage = 2;
            post(0);
            for (size_t i = 0; i < m.chain.size(); i++) post(sub_of(i));
        } catch (Fail &f) {
            r.args_stage = stage == 0;
            if (f.status == 1 && f.stage == ST_OK) r.exited = true;
            else {
                r.status = f.status;
                r.stage  = stage == 1 && f.stage != ST_CALLBACK ? ST_ENV : f.stage;
            }
        }
        r.chain = m.chain;
    }
};
} // namespace

MResult Model::parse(const vector<string> &args, const std::map<string, string> &env, const vector<Fault> &cbf)
{
    Run run{*this, *cs, env, cbf, {}, {}};
    run.go(args);
    return run.r;
}

bool Model::default_accepted(const OSpec &o, const VSpec &v, std::map<int, int> &calls) const
{
    // Pre-validators see text defaults only, post-validators see the option holding its default
    if (v.kind == V_REGEX_) return o.t != T_STR || model_regex(v.re, o.ds);
    i64 i = o.t == T_BOOL ? o.di != 0 : o.di;
    switch (v.kind) {
        case V_RANGE_: return o.t == T_FLOAT ? o.df >= (double)v.a && o.df <= (double)v.b : i >= v.a && i <= v.b;
        case V_LEN_: return (i64)o.ds.size() >= v.a && (i64)o.ds.size() <= v.b;
        case V_COUNT_: return v.a <= 0;
        case V_CSTR_: return std::find(v.strs.begin(), v.strs.end(), o.ds) != v.strs.end();
        case V_CINT_: return std::find(v.ints.begin(), v.ints.end(), i) != v.ints.end();
        case V_CFLOAT_: return std::find(v.floats.begin(), v.floats.end(), o.df) != v.floats.end();
    }
    if (!v.post && o.t != T_STR) return true; // not run
    int n = ++calls[v.id];
    if (v.bad.size() && o.t == T_STR && o.ds.find(v.bad) != string::npos) return false;
    return v.failn == 0 || (v.failn != -1 && n != v.failn);
}
bool Model::verdict(vector<std::pair<int, int>> *failed) const
{
    bool ok = true;
    std::map<int, int> calls; // of each custom validator
    // Every table is checked once for each way that leads to it, to the supported depth
    struct V {
        static void go(const Model &m, int t, int depth, bool &ok, vector<std::pair<int, int>> *failed, std::map<int, int> &calls)
        {
            bool help = false;
            for (size_t i = 0; i < m.cs->tables[t].size(); i++) {
                const OSpec &o = m.cs->tables[t][i];
                if (o.k == K_OPT && o.key() == "help") help = true;
                if (o.has_def && (o.k == K_OPT || o.k == K_POS))
                    for (auto &v : o.v)
                        if (!m.default_accepted(o, v, calls)) {
                            ok = false;
                            if (failed) failed->emplace_back(t, (int)i);
                        }
            }
            if (!help) ok = false;
            for (auto &o : m.cs->tables[t])
                if (o.k == K_SUB) {
                    if (depth >= BR_MAX_DEPTH) { ok = false; continue; }
                    go(m, o.sub, depth + 1, ok, failed, calls);
                }
        }
    };
    V::go(*this, 0, 0, ok, failed, calls);
    return ok;
}

// Seeded scenarios: option tables, environments, command lines, operation sequences, faults and
// preemptions. Everything is drawn from one seed; the model is used to steer the share of
// scenarios that succeed, fail and end the program, never to judge.
#include "sim.h"
#include <climits>
#include <algorithm>

namespace {
struct Profile {
    int ctxs = 1, tables = 4, depth = 2, opts = 6, parses = 2;
    int sub = 45, pos = 55, custom = 8, coll = 35, env = 25, autoenv = 12, def = 20, val = 30, cval = 15, rel = 12, grp = 15,
        exit = 6, req = 12, hidden = 6, help = 85, hk1 = 8, act = 60, self = 0, flags = 35, prefix = 50, cfg = 20, dbg = 15;
    int pairs = 0;           // of these, by options that have to do with each other
    int alter = 8;            // of these, changed at one place
    int sorted = 0;           // collections whose elements get ordered
    int big = 4;              // large collections and long texts
    int good = 70;            // command lines drawn until one succeeds
    int exitline = 4;         // ... or until one ends the program
    int observe = 35, print = 15, exec = 12, free = 20, reinit = 8, setenv = 8;
    int nested = 0, nested_env = 0, print_val = 0;
    bool validate = false;
};

const char *const WORDS[] = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu",
                             "nu", "xi", "omi", "pi", "rho", "sigma", "tau", "phi", "chi", "psi", "omega", "long-name", "dry-run",
                             "out", "output", "in", "input", "level", "le", "max-count", "a-b-c", "color", "x1", "verbose", "quiet"};
const char *const CMDS[]  = {"run", "remote", "remove", "rem", "add", "addall", "commit", "co", "status", "stash", "push", "pull",
                             "build", "b", "deploy", "dep", "init", "list", "ls", "show"};
const char *const TEXT[]  = {"value", "a", "hello world", "file.txt", "x=y", "v1", "abc", "42", "UPPER", "with:colon", "tab\there",
                             "true", "zz", "b-b", "v7", "/usr/lib/thing", "k1=v1", "99", "=lead", "==", "a==b", "quote\"s", "per%cent %s %n", "back\\slash"};
const char *const HWORDS[] = {"Sets", "the", "number", "of", "times", "something", "is", "done", "before", "giving", "up", "and",
                              "returning", "an-unusually-long-word-that-cannot-be-split-anywhere-at-all", "to", "caller", "(see manual)",
                              "100%", "%s", "path/to/file", "default", "value,", "extraordinarily", "it."};

const char *const LONGS[] = {"production", "production-eu", "prod", "development", "documentation", "documents", "sixteen-letters-", "thirty-two-characters-in-one-word", "Mixed.Case", "two words"};

struct Gen {
    Rng      r;
    int      p;
    Profile  f;
    Scenario sc;
    int      tag = 0, vid = 0;
    bool     wide = false; // many different keys
    bool     threaded = false;

    Gen(u64 seed, int prop) : r(seed), p(prop) {}

    // A text next to a given one
    string near(string s)
    {
        if (s.empty()) return "x";
        size_t k = r.below(s.size());
        switch (r.below(10)) {
            case 0: return s + (r.chance(50) ? string(1, s.back()) : "x");
            case 1: if (s.size() > 1) s.pop_back(); return s;
            case 2: for (auto &c : s) c = (char)toupper((unsigned char)c); return s;
            case 3: s[k] = (char)(islower((unsigned char)s[k]) ? toupper(s[k]) : tolower((unsigned char)s[k])); return s;
            case 4: return s.substr(0, std::min<size_t>(s.size(), 8)) + "q";
            case 5: if (s.size() > 1) s.erase(0, 1); return s;
            case 6: return s + " ";
            case 7: return " " + s;
            case 8: s[s.size() - 1] = s.back() == 'z' ? 'y' : (char)(s.back() + 1); return s;
            default: s.insert(k, 1, s[k]); return s;
        }
    }
    string word_text(size_t min, size_t max)
    {
        string s;
        size_t n = (size_t)r.range((i64)min, (i64)max);
        while (s.size() < n) {
            if (s.size()) s += ' ';
            s += r.pick(HWORDS);
        }
        return s;
    }
    string help_text()
    {
        string s = r.chance(12) ? word_text(80, 400) : word_text(4, 50);
        if (r.chance(8)) // lines, and columns of blanks
            for (size_t i = 1; i < s.size(); i++)
                if (s[i] == ' ' && s[i - 1] != ' ' && r.chance(20)) {
                    if (r.chance(70)) s[i] = '\n';
                    else s.insert(i, (size_t)r.range(1, 3), ' ');
                }
        string id = "[tag" + std::to_string(tag++) + "]";
        if (r.chance(25)) { // the end of a text matters, too
            static const char *const END[] = {"(see there)", "a", "I", "q.", "-", "ok", "x", "end", "1"};
            return id + " " + s + (r.chance(10) ? "\n" : " ") + r.pick(END);
        }
        if (r.chance(3)) { // blanks around it
            static const char *const E[] = {"\n", " ", "\n\n", "  ", "\n "};
            return (r.chance(30) ? r.pick(E) : "") + id + " " + s + r.pick(E);
        }
        return s + " " + id + ".";
    }
    string some_text(const OSpec &o, bool bare)
    {
        if (!bare && r.chance(3)) return "";
        if (r.chance(f.big)) {
            static const int N[] = {4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 65535, 65536, 70000};
            return string(r.chance(8) ? (size_t)r.pick(N) : (size_t)r.range(60, 3000), (char)('a' + r.below(26)));
        }
        if (!bare && r.chance(1)) return r.chance(60) ? "--" : "-";
        if ((o.t == T_ASTR || o.t == T_VSTR) && r.chance(wide ? 80 : 15)) { // many different short texts
            string s;
            for (int i = (int)r.range(1, 5); i > 0; i--) s += (char)((r.chance(70) ? 'a' : 'A') + (char)r.below(26));
            return s;
        }
        for (;;) {
            string s = r.chance(70) ? r.pick(TEXT) : r.pick(WORDS);
            if (r.chance(12)) {
                static const char A[] = "==-:%./ab01 {}~#\x80\xc3\xff@\"'$;";
                s.clear();
                for (int i = (int)r.range(1, 7); i > 0; i--) s += A[r.below(sizeof A - 1)];
                if ((bare && s[0] == '-')) s[0] = '=';
            }
            if (o.t == T_ASTR || o.t == T_MSTR)
                s.erase(std::remove(s.begin(), s.end(), ','), s.end());
            if (s.size()) return s;
        }
    }
    string int_text(bool small)
    {
        if (!small && r.chance(12)) {
            static const i64 E[] = {2147483647, -2147483647 - 1, 2147483648ll, -2147483649ll, INT64_MAX, INT64_MIN, 4294967296ll, 9007199254740993ll};
            return std::to_string(r.pick(E));
        }
        if (!small && r.chance(4)) { static const char *const S[] = {"+7", " 7", "007", "-0", "\t-3"}; return r.pick(S); }
        return std::to_string(r.chance(f.sorted) ? r.range(-100, 100) : r.range(-20, 120));
    }
    string float_text()
    {
        static const char *const F[] = {"0", "1", "-1", "0.5", "1.25", "-2.75", "3.14", "100.125", "1e3", "12.5e-1", "7", "65536.5", "-0.25", "0.1", "0.3", "3.14159265358979", "1e-5", "16777217", "1e300"};
        if (r.chance(50)) return r.pick(F);
        if (r.chance(6)) return std::to_string(r.range(16777210, 16777222)); // alike but for the last digit
        if (r.chance(4)) return "0.00000" + std::to_string(r.range(1, 5));
        return std::to_string(r.range(-400, 400)) + (r.chance(50) ? ".5" : ".25");
    }
    string bool_text(bool good)
    {
        static const char *const B[] = {"true", "false", "yes", "no", "on", "off", "1", "0", "y", "n", "TRUE", "No"}, *const X[] = {"maybe", "2", "tru", "yess", "-1", "enabled", "falsey", "true1", "disabled", "truefalse", "00", "onoff"};
        return good ? r.pick(B) : r.pick(X);
    }
    // One element of a collection
    string element(const OSpec &o, bool good)
    {
        switch (o.t) {
            case T_ASTR: return some_text(o, true);
            case T_VSTR: return some_text(o, true);
            case T_AINT:
                if (!good) { static const char *const X[] = {"x", "1x", "5-x", "--3", "1.5", "9223372036854775808", "2147483648", "-2147483649", "1-4294967299", "1x2-5", "1-5x", "1-2-3"}; return r.pick(X); }
                if (r.chance(15)) {
                    i64 a = r.range(0, 60), b = a + r.range(-8, r.chance(10) ? 200 : 8);
                    return std::to_string(a) + (r.chance(70) ? "-" : ":") + std::to_string(std::max<i64>(0, b));
                }
                return r.chance(5) ? string(r.chance(50) ? "2147483647" : "-2147483648") : int_text(!r.chance(2));
            case T_VINT: {
                static const char *const X[] = {"1x", "9223372036854775808", "x", "", "12abc", "-9223372036854775809", "99999999999999999999", "1.5", "7 "};
                return good ? int_text(false) : string(r.pick(X));
            }
            case T_AFLOAT: return good ? float_text() : string(r.chance(50) ? "1.5x" : "x");
            case T_VFLOAT: {
                static const char *const X[] = {"1.5x", "x", "", "1,5", "1.5.2", "12abc"};
                return good ? float_text() : string(r.pick(X));
            }
            default: {
                static const char *const ODD[] = {"", "a.b", "K1", "k 1", "k", "\xc3\xa9", "k01", "1", "-"};
                string k = r.chance(f.big) ? string((size_t)r.range(20, 300), 'k') : r.chance(4) ? string(r.pick(ODD)) : "k" + std::to_string(r.range(1, wide ? 1000 : r.chance(20) ? 60 : 6));
                if (!good && (o.t == T_MSTR || r.chance(50))) return k; // no '='
                string v;
                switch (o.t) {
                    case T_MSTR: do v = some_text(o, true); while (v.find(',') != string::npos); if (r.chance(5)) v = ""; break;
                    case T_MINT: v = good ? int_text(false) : r.chance(30) ? "" : r.chance(50) ? "1x" : "-9223372036854775809"; break;
                    case T_MFLOAT: v = good ? float_text() : r.chance(50) ? "" : "x.5"; break;
                    default: v = bool_text(good);
                }
                return k + "=" + v;
            }
        }
    }
    long wrong_at = -1, values = 0; // which value of the line is to be a wrong one
    string value(const OSpec &o, bool good, bool bare = false)
    {
        if (wrong_at < 0 || values++ != wrong_at) return any_value(o, good, bare);
        any_value(o, good, bare);
        Rng after = r; // the rest of the line stays what it was
        r         = Rng(Rng::mix(r.next()) + (u64)values);
        string v  = any_value(o, false, bare);
        r         = after;
        return v;
    }
    string any_value(const OSpec &o, bool good, bool bare = false)
    {
        const VSpec *v = nullptr;
        for (auto &x : o.v) if (x.kind != V_CUSTOM_ || x.bad.size()) { v = &x; break; }
        if (v && v->kind == V_CUSTOM_ && !good && r.chance(60)) {
            if (o.t == T_STR || o.t == T_CUSTOM) return "a" + v->bad + "z";
        }
        switch (o.t) {
            case T_INT:
                if (v && v->kind == V_CINT_ && (good || r.chance(50))) return std::to_string(r.pick(v->ints));
                if (v && v->kind == V_RANGE_) {
                    if (good) return std::to_string(r.chance(30) ? v->a : r.chance(40) ? v->b : r.range(v->a, v->b));
                    return std::to_string(r.chance(50) ? (v->a > INT64_MIN ? v->a - 1 : v->a) : (v->b < INT64_MAX ? v->b + 1 : v->b));
                }
                if (!good && (!v || r.chance(30))) {
                    static const char *const X[] = {"x", "1x", "x1", "9223372036854775808", "99999999999999999999", "0x10", "1.5", "1e3", "12,3", "7 "};
                    return r.chance(10) && !bare ? string("") : string(r.pick(X));
                }
                return int_text(false);
            case T_FLOAT:
                if (!good && (!v || r.chance(30))) {
                    static const char *const X[] = {"x", "1.5x", "x.5", "1.5.2", "1,5", "2.5 ", "e3"};
                    return r.chance(10) && !bare ? string("") : string(r.pick(X));
                }
                if (v && v->kind == V_CFLOAT_ && good) { char b[40]; snprintf(b, sizeof b, "%.17g", r.pick(v->floats)); return b; }
                if (v && v->kind == V_RANGE_ && good) return std::to_string(r.range(v->a, v->b)) ;
                if (r.chance(5)) { static const char *const S[] = {"inf", "-inf", "nan", "0x1p4", "+2.5", " 3", "-0.0", "1e-320", "1e999"}; return r.pick(S); }
                return float_text();
            case T_BOOL: return bool_text(good);
            case T_STR: case T_CUSTOM:
                if (v && v->kind == V_CSTR_ && (good || r.chance(30))) return r.pick(v->strs);
                if (v && v->kind == V_CSTR_ && r.chance(85)) {
                    string s = near(r.pick(v->strs));
                    if (s.size() && !(bare && s[0] == '-')) return s;
                }
                if (v && v->kind == V_LEN_ && v->b < 4000) {
                    i64 n = good ? r.range(v->a, v->b) : r.chance(50) ? v->b + 1 : std::max<i64>(0, v->a - 1);
                    if (!good && r.chance(22) && v->b < v->a + 250) n = v->a + (r.chance(50) ? 256 : 65536); // right in the lowest bits only
                    if (n || !bare) return string((size_t)n, 'm');
                }
                if (v && v->kind == V_REGEX_ && good)
                    return v->re == "^[0-9]+$" ? "123" : v->re == "^v[0-9]$" ? "v3" : v->re == "^[a-z]+$" ? "abc" : "any";
                return some_text(o, bare);
            case T_FLAG: return bool_text(good);
            default: break;
        }
        size_t n = is_variadic(o.t) ? 1 : r.chance(50) ? 1 : (size_t)r.range(2, 5);
        if (!is_variadic(o.t) && r.chance(f.big)) {
            static const int G[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 129, 300};
            n = (size_t)r.pick(G);
            if (r.chance(6)) { static const int H[] = {500, 511, 512, 513, 600, 1023, 1024, 1025, 1100}; n = (size_t)r.pick(H); }
        }
        bool fits = true;
        if (!is_variadic(o.t) && v && v->kind == V_COUNT_ && v->b < 1000) {
            if (good && r.chance(60)) n = (size_t)r.range(std::max<i64>(1, v->a), std::max<i64>(1, v->b));
            else if (!good && r.chance(45)) fits = false, n = (size_t)(r.chance(35) ? std::max<i64>(1, v->a) + 256 : v->b + r.range(1, 3));
        }
        if (!is_variadic(o.t) && !bare && fits && r.chance(!good ? 25 : o.t == T_ASTR ? 3 : 0)) return "";
        if (!is_variadic(o.t) && r.chance(2)) return string(r.chance(70) ? "," : ",,,"); // no element at all
        size_t bad = good || !fits ? n : r.below(n);
        wide = n > 60;
        string s;
        for (size_t i = 0; i < n; i++) {
            if (i) s += ',';
            if (n > 1 && r.chance(2)) s += ',';
            s += element(o, i != bad);
        }
        wide = false;
        return s;
    }

    // ------------------------------------------------------------ tables
    VSpec custom_validator(const OSpec &o, bool nested_ok)
    {
        VSpec v;
        v.kind = V_CUSTOM_;
        v.id   = ++vid;
        v.post = r.chance(50);
        if (r.chance(12)) v.failn = r.chance(30) ? -1 : (int)r.range(1, 3);
        if ((o.t == T_STR || o.t == T_CUSTOM) && r.chance(25)) v.bad = r.chance(50) ? "bad" : "zz";
        if (r.chance(50)) v.code = r.chance(30) ? (int)r.range(2, 200) : callback_code((int)r.below(14));
        if (r.chance(f.print_val)) v.print = r.chance(25) ? (int)r.range(60000, 140000) : (int)r.range(1, 6000);
        if (nested_ok) nested(v.nested);
        return v;
    }
    void nested(vector<Op> &ops)
    {
        if (r.chance(f.nested_env) && f.ctxs == 1) {
            Op o;
            o.kind = r.chance(65) ? OP_SETENV : OP_UNSETENV;
            ops.push_back(o); // name and value are filled in when the environment is known
        }
        if (r.chance(f.nested) && f.ctxs > 1) {
            int c = (int)r.below((u64)f.ctxs);
            Op o;
            o.c = c;
            size_t n = (size_t)r.range(1, 3);
            for (size_t i = 0; i < n; i++) {
                static const int K[] = {OP_PARSE, OP_PARSE, OP_PARSE, OP_OBSERVE, OP_HELP, OP_USAGE, OP_VERSION, OP_EXEC, OP_FREE};
                o.kind = r.pick(K);
                o.n    = o.kind == OP_EXEC ? r.range(1, 99) : 0;
                ops.push_back(o); // arguments are filled in when all tables are known
            }
        }
    }
    void validators(OSpec &o)
    {
        if (r.chance(f.val)) {
            VSpec v;
            bool  ok = true;
            switch (o.t) {
                case T_INT:
                    if (r.chance(60)) {
                        v.kind = V_RANGE_;
                        static const i64 A[] = {INT64_MIN, -2147483648ll, -10, 0, 1, 5, 100, 3000000000ll};
                        v.a = r.pick(A);
                        v.b = r.chance(30) ? INT64_MAX : r.chance(20) ? std::max<i64>(v.a, 2147483647) : v.a == INT64_MIN ? 0 : v.a + r.range(0, 50);
                    } else {
                        v.kind = V_CINT_;
                        for (int i = (int)r.range(1, r.chance(15) ? 14 : 3); i > 0; i--) v.ints.push_back(r.chance(15) ? (i64)4294967296ll + r.range(0, 3) : r.range(-3, 12));
                    }
                    break;
                case T_FLOAT:
                    if (r.chance(60)) { v.kind = V_RANGE_; v.a = r.range(-5, 3); v.b = v.a + r.range(0, 60); }
                    else { v.kind = V_CFLOAT_; for (int i = (int)r.range(1, r.chance(15) ? 14 : 3); i > 0; i--) v.floats.push_back(r.chance(10) ? -1e300 : (double)r.range(-6, 9) / 4); }
                    break;
                case T_STR: {
                    int k = (int)r.below(3);
                    if (k == 0) { v.kind = V_LEN_; v.a = r.range(0, 4); v.b = v.a + r.range(0, 8); }
                    else if (k == 1) {
                        v.kind = V_CSTR_;
                        for (int i = (int)r.range(1, r.chance(15) ? 14 : 3); i > 0; i--) v.strs.push_back(r.chance(30) ? string(r.pick(LONGS)) : string(r.pick(WORDS)));
                    } else {
                        v.kind = V_REGEX_;
                        static const char *const RE[] = {"^[a-z]+$", "^[0-9]+$", "^v[0-9]$", ".*"};
                        v.re = r.pick(RE);
                        if (r.chance(60)) { v.has_hint = true; v.hint = "must be like that"; }
                    }
                    break;
                }
                case T_BOOL: case T_FLAG: case T_CUSTOM: ok = false; break;
                default: v.kind = V_COUNT_; v.a = r.range(0, 2); v.b = v.a + r.range(0, 12); if (r.chance(20)) v.b = 2147483647;
            }
            if (ok) o.v.push_back(v);
        }
        size_t most = r.chance(4) ? 20 : 4;
        while (r.chance(most > 4 ? 90 : f.cval) && o.v.size() < most)
            o.v.push_back(custom_validator(o, true));
    }
    void default_of(OSpec &o)
    {
        if (!r.chance(f.def)) return;
        bool fits = f.validate ? r.chance(80) : r.chance(92);
        switch (o.t) {
            case T_INT: o.di = strtoll(value(o, fits).c_str(), nullptr, 10); break;
            case T_FLOAT: o.df = strtod(value(o, fits).c_str(), nullptr); break;
            case T_BOOL: o.di = r.chance(50); break;
            case T_STR: do o.ds = value(o, fits); while (o.ds.size() > 600 || o.ds.find("--") != string::npos || o.ds.find_first_of("\t\"\\") != string::npos); break;
            default: return;
        }
        o.has_def = true;
    }
    void environment_of(OSpec &o)
    {
        if (r.chance(f.env)) {
            o.has_env = true;
            static const char *const E[] = {"PORT", "HOST_NAME", "VERB", "OUT", "OUT_DIR", "lower_name", "APP_PORT", "XAPP", "LEVEL", "APP"};
            o.e = r.chance(60) ? string(r.pick(E)) : "E" + std::to_string(r.range(1, 12));
            if (r.chance(3)) { // names of any length, and pairs of them that differ late
                static const int N[] = {31, 32, 63, 64, 100, 120, 126, 127, 128, 129, 200, 254, 255, 256, 300, 600};
                o.e = string((size_t)r.pick(N), 'E') + (char)('0' + r.below(3));
            }
            if (r.chance(f.prefix / 3) && sc.ctxs.back().has_prefix && sc.ctxs.back().prefix.size()) o.e = sc.ctxs.back().prefix + (r.chance(50) ? "_" : "") + o.e;
            if (r.chance(f.prefix / 5) && sc.ctxs.back().has_prefix && sc.ctxs.back().prefix.size()) { // its letters, but not the prefix
                string p = sc.ctxs.back().prefix;
                for (char &ch : p) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch));
                o.e = r.chance(50) ? p + "_name" : p + "name";
            }
        } else if (r.chance(f.autoenv)) { o.f |= BF_AUTOENV; o.has_flags = true; }
        else return;
        if (r.chance(25)) { o.f |= BF_NOPREFIX; o.has_flags = true; }
        if (r.chance(35)) { o.f |= BF_ENVOVR; o.has_flags = true; }
    }
    int make_table(CSpec &c, int depth)
    {
        int idx = (int)c.tables.size();
        c.tables.emplace_back();
        Table            t;
        std::set<string> names;
        std::set<char>   shorts;
        auto fresh = [&](auto &pool) -> string {
            for (int i = 0; i < 60; i++) {
                string w = r.pick(pool);
                if (names.insert(w).second) return w;
            }
            string w = "w" + std::to_string(tag++);
            names.insert(w);
            return w;
        };
        if (r.chance(f.help) || f.validate) {
            OSpec o;
            o.std_help = true, o.t = T_FLAG, o.s = 'h', o.l = "help", o.f = BF_EXIT, o.h = "Show help message", o.n = "help";
            if (!f.validate || !r.chance(4)) {
                t.push_back(o);
                names.insert("help");
                shorts.insert('h');
            }
        }
        if (r.chance(25)) {
            OSpec o;
            o.std_version = true, o.t = T_FLAG, o.s = 'V', o.l = "version", o.f = BF_EXIT, o.h = "Show version information", o.n = "version";
            t.push_back(o);
            names.insert("version");
            shorts.insert('V');
        }
        int  n     = (int)r.range(0, r.chance(10) ? f.opts * 3 : f.opts);
        if (f.pairs && r.chance(40)) n = (int)r.range(10, 24);
        if (p != 16 && r.chance(1)) n = (int)r.range(33, 80);
        bool group = false;
        for (int i = 0; i < n; i++) {
            if (r.chance(f.grp)) {
                OSpec g;
                g.k = K_GRP;
                if (group && r.chance(40)) { g.noname = true; group = false; }
                else { g.n = (r.chance(8) ? "A group of options with a rather long title: " : "Group ") + fresh(WORDS); group = true; if (r.chance(40)) { g.f = BF_EXCLUSIVE; g.has_flags = true; } }
                t.push_back(g);
            }
            OSpec o;
            o.k = K_OPT;
            if (r.chance(f.custom)) { o.t = T_CUSTOM; o.hk = 2; o.fm = r.chance(60) ? 1 : 0; }
            else if (r.chance(f.coll)) { static const int C[] = {T_ASTR, T_AINT, T_AFLOAT, T_MSTR, T_MINT, T_MFLOAT, T_MBOOL}; o.t = r.pick(C); if (r.chance(f.sorted)) o.t = r.chance(50) ? T_MINT : T_MFLOAT; }
            else { static const int C[] = {T_INT, T_STR, T_FLOAT, T_BOOL, T_FLAG, T_FLAG, T_STR}; o.t = r.pick(C); }
            bool lng = r.chance(85), sht = !lng || r.chance(55);
            if (lng) o.l = fresh(WORDS);
            if (lng && r.chance(3)) { // long names, and pairs of them that differ late
                static const int N[] = {31, 32, 62, 63, 64, 65, 100};
                string w = string((size_t)r.pick(N), 'q');
                if (r.chance(40)) w += (char)('a' + r.below(3));
                if (names.insert(w).second) o.l = w;
            }
            if (sht)
                for (int k = 0; k < 40 && !o.s; k++) {
                    char ch = r.chance(80) ? (char)('a' + r.below(26)) : r.chance(70) ? (char)('A' + r.below(26)) : "0123456789?#@%+!:"[r.below(17)];
                    if (!shorts.count(ch) && (lng || !names.count(string(1, ch)))) o.s = ch;
                }
            if (!lng && !o.s) { o.l = fresh(WORDS); }
            if (o.s) { shorts.insert(o.s); if (!lng) names.insert(string(1, o.s)); }
            o.n = o.l.size() ? o.l : string(1, o.s);
            o.h = help_text();
            if (r.chance(15)) { o.has_hint = true; o.hint = r.chance(50) ? "FILE" : "some-hint"; if (r.chance(10)) o.hint = string((size_t)r.range(20, 300), 'H') + "T"; }
            if (o.hk == 0 && r.chance(f.hk1)) o.hk = 1;
            if (o.hk) nested(o.nested);
            if (r.chance(f.req)) o.f |= BF_REQUIRED, o.has_flags = true;
            if (r.chance(f.hidden)) o.f |= BF_HIDDEN, o.has_flags = true;
            else if (r.chance(8)) { static const int A[] = {BF_ADVANCED, BF_DEPRECATED, BF_EXPERIMENTAL, BF_DEPRECATED | BF_EXPERIMENTAL}; o.f |= r.pick(A), o.has_flags = true; }
            if (r.chance(f.exit)) {
                o.f |= BF_EXIT, o.has_flags = true;
                if (o.hk == 0 && r.chance(30)) { o.hk = 1; nested(o.nested); }
            }
            if (is_array(o.t) && r.chance(f.flags)) { o.has_flags = true; o.f |= r.chance(60) ? BF_SORTED : 0; o.f |= r.chance(60) ? BF_UNIQUE : 0; }
            if (is_map(o.t) && r.chance(f.flags)) { o.has_flags = true; static const int A[] = {BF_SORTKEY, BF_SORTVAL, BF_UNIQVAL, BF_UNIQVAL | BF_SORTKEY, BF_UNIQVAL | BF_SORTVAL, BF_SORTKEY | BF_SORTVAL}; o.f |= r.pick(A); if (r.chance(f.sorted)) o.f |= BF_SORTVAL, o.f &= ~BF_SORTKEY; }
            environment_of(o);
            validators(o);
            default_of(o);
            t.push_back(o);
        }
        if (group) { OSpec g; g.k = K_GRP; g.noname = true; t.push_back(g); }
        // Relations between options of this table
        vector<size_t> opts;
        for (size_t i = 0; i < t.size(); i++) if (t[i].k == K_OPT && !t[i].std_help && !t[i].std_version) opts.push_back(i);
        if (opts.size() >= 2)
            for (auto i : opts) {
                if (!r.chance(f.rel)) continue;
                size_t j = r.pick(opts);
                if (j == i) continue;
                (r.chance(50) ? t[i].req : t[i].con).push_back(t[j].key());
                int more = r.chance(opts.size() > 9 ? (f.pairs ? 35 : 20) : 4) ? 20 : 3;
                for (int n = 0; n < more && r.chance(more > 3 ? 92 : 25); n++) {
                    size_t k = r.pick(opts);
                    auto  &l = r.chance(more > 3 ? 97 : 60) ? t[i].con : t[i].req;
                    if (k != i && std::find(t[i].con.begin(), t[i].con.end(), t[k].key()) == t[i].con.end() && std::find(t[i].req.begin(), t[i].req.end(), t[k].key()) == t[i].req.end()) l.push_back(t[k].key());
                }
            }
        bool subs = depth < f.depth && r.chance(depth == 0 ? f.sub : f.sub * 2 / 3) && (int)c.tables.size() < f.tables;
        if (subs) {
            int m = (int)r.range(1, f.self ? 4 : 5);
            if (!f.self && depth == 0 && r.chance(3)) m = (int)r.range(9, 24);
            size_t family = r.chance(4) ? (size_t)r.range(8, 70) : 0; // names that differ late
            for (int i = 0; i < m; i++) {
                OSpec o;
                o.k = K_SUB;
                o.n = fresh(CMDS);
                if (family && r.chance(75)) {
                    string w = string(family, 'f') + o.n;
                    if (names.insert(w).second) { names.erase(o.n); o.n = w; }
                } else if (r.chance(2)) {
                    string w = o.n + "-" + string((size_t)r.range(60, 600), 'c');
                    if (names.insert(w).second) { names.erase(o.n); o.n = w; }
                }
                o.h = help_text();
                if (r.chance(f.hidden)) o.f |= BF_HIDDEN, o.has_flags = true;
                if (r.chance(f.act)) { o.act = (int)r.range(1, 8); nested(o.nested); }
                if (r.chance(6) && !f.validate) {}
                if (r.chance(f.self)) o.sub = (int)r.range(0, idx); // refers to itself or to a table above
                else if ((int)c.tables.size() < f.tables) o.sub = make_table(c, depth + 1);
                else if (c.tables.size() > 1) { o.sub = (int)r.range(1, (i64)c.tables.size() - 1); if (o.sub <= idx && !r.chance(f.self)) o.sub = -1; }
                if (o.sub < 0) { names.erase(o.n); continue; }
                t.push_back(o);
            }
        } else if (r.chance(f.pos)) {
            int  m   = (int)r.range(1, 3);
            bool opt = false;
            for (int i = 0; i < m; i++) {
                OSpec o;
                o.k = K_POS;
                static const int C[] = {T_STR, T_STR, T_INT, T_FLOAT, T_BOOL};
                o.t = r.pick(C);
                if (r.chance(f.custom)) { o.t = T_CUSTOM; o.hk = 2; o.fm = r.chance(60) ? 1 : 0; }
                bool last = i == m - 1;
                if (last && !opt && r.chance(45)) { static const int V[] = {T_VSTR, T_VINT, T_VFLOAT}; o.t = r.pick(V); o.hk = 0, o.fm = 0; }
                o.n = fresh(WORDS);
                o.h = help_text();
                if (o.hk == 0 && r.chance(f.hk1)) o.hk = 1;
                if (o.hk) nested(o.nested);
                o.f = BF_REQUIRED;
                if (opt || r.chance(35)) { o.has_flags = true; o.f = 0; opt = true; }
                if (is_variadic(o.t) && r.chance(f.flags)) { o.has_flags = true; o.f |= r.chance(60) ? BF_SORTED : 0; o.f |= r.chance(60) ? BF_UNIQUE : 0; }
                if (!f.validate) environment_of(o);
                else if (r.chance(f.env)) { o.has_env = true; o.e = "E" + std::to_string(r.range(1, 12)); }
                validators(o);
                if (!(o.f & BF_REQUIRED)) default_of(o);
                t.push_back(o);
            }
        }
        // ... and with its positionals and commands
        vector<size_t> others;
        for (size_t i = 0; i < t.size(); i++) if (t[i].k == K_POS || t[i].k == K_SUB) others.push_back(i);
        if (opts.size() && others.size() && r.chance(f.rel)) {
            auto &o = t[r.pick(opts)];
            (r.chance(50) ? o.req : o.con).push_back(t[r.pick(others)].key());
        }
        // Titles of groups that are the name of an option below them
        for (size_t i = 0; i < t.size(); i++)
            if (t[i].k == K_GRP && !t[i].noname && r.chance(7)) {
                size_t k = i + 1 + r.below(t.size() - i);
                if (k < t.size() && (t[k].k == K_OPT || t[k].k == K_POS) && !t[k].std_help && !t[k].std_version) t[i].n = t[k].key();
            }
        c.tables[idx] = t;
        return idx;
    }

    // ------------------------------------------------------------ command lines
    struct Unit { vector<string> a; };
    string odd_bare()
    {
        static const char *const X[] = {"", "-", "--", "---", "-x", "--alpha", "--=", "-5", "-.5", "-.", "=", "a=b", " "};
        return r.pick(X);
    }
    string cmd_word(const Table &t, const OSpec &o)
    {
        if (r.chance(4)) { string s = near(o.n); if (s[0] != '-') return s; }
        if (o.n.size() < 2 || r.chance(78)) return o.n;
        (void)t;
        return o.n.substr(0, (size_t)r.range(1, (i64)o.n.size() - 1));
    }
    // Leaves out, and adds, what the relations between options ask for
    void settle(const Table &tb, vector<char> &give)
    {
        auto set = [&](size_t i) { return give[i] || tb[i].has_def; };
        auto at  = [&](const string &n) { size_t i = 0; while (i < tb.size() && (tb[i].k == K_GRP || tb[i].key() != n)) i++; return i; };
        for (int round = 0; round < 4; round++) {
            bool excl = false, taken = false;
            for (size_t i = 0; i < tb.size(); i++) {
                auto &o = tb[i];
                if (o.k == K_GRP) { excl = o.f & BF_EXCLUSIVE, taken = false; continue; }
                if (o.k != K_OPT) continue;
                if (excl && set(i)) { if (taken) give[i] = 0; taken = true; }
                if (!give[i]) continue;
                for (auto &n : o.con) {
                    size_t j = at(n);
                    if (j >= tb.size() || !set(j)) continue;
                    if (!(o.f & BF_REQUIRED)) give[i] = 0;
                    else give[j] = 0;
                }
                for (auto &n : o.req) {
                    size_t j = at(n);
                    if (j >= tb.size() || set(j) || !give[i]) continue;
                    if (tb[j].k == K_OPT && !(tb[j].f & BF_EXIT) && r.chance(60)) give[j] = 1;
                    else give[i] = 0;
                }
            }
        }
    }
    void line(const CSpec &c, int t, int depth, vector<string> &out, bool good)
    {
        const Table  &tb = c.tables[t];
        vector<Unit>  u;
        vector<string> pos;
        bool           any_sub = false, terse = r.chance(good ? (f.pairs ? 55 : 8) : 14); // next to nothing is given at this level
        vector<char> give(tb.size(), 0);
        for (size_t i = 0; i < tb.size(); i++) {
            auto &o = tb[i];
            if (o.k == K_SUB) any_sub = true;
            if (o.k != K_OPT) continue;
            bool ends = o.std_help || o.std_version || (o.f & BF_EXIT);
            int  pct  = ends ? (good ? 0 : f.exitline > 4 ? 25 : 6) : (o.f & BF_REQUIRED) ? 94 : 38;
            if (terse) pct = (o.f & BF_REQUIRED) ? (good ? 80 : 30) : pct / 12;
            give[i] = r.chance(pct);
        }
        if (good && r.chance(90)) settle(tb, give);
        for (size_t i = 0; i < tb.size(); i++) {
            auto &o = tb[i];
            if (!give[i]) continue;
            int times = is_coll(o.t) ? (int)r.range(1, r.chance(20) ? 8 : 3) : r.chance(12) ? 2 : 1;
            for (int k = 0; k < times; k++) {
                Unit   x;
                bool   use_s = o.s && (o.l.empty() || r.chance(45));
                if (o.t == T_FLAG) {
                    x.a.push_back(use_s ? string("-") + o.s : "--" + o.l);
                    if (!good && !use_s && r.chance(6)) x.a[0] += r.chance(50) ? "=" : "=true";
                }
                else {
                    bool   form = r.chance(50);
                    string v    = value(o, good || r.chance(85));
                    if (use_s && form && v.size()) x.a.push_back(string("-") + o.s + v);
                    else if (!use_s && form) x.a.push_back("--" + o.l + "=" + v);
                    else { x.a.push_back(use_s ? string("-") + o.s : "--" + o.l); x.a.push_back(v); }
                }
                u.push_back(x);
            }
        }
        for (size_t i = u.size(); i > 1; i--) std::swap(u[i - 1], u[r.below(i)]);
        // Bundles of short options: a flag before another short option
        for (size_t i = 0; i + 1 < u.size(); i++)
            if (u[i].a.size() == 1 && u[i].a[0].size() == 2 && u[i].a[0][0] == '-' && u[i].a[0][1] != '-' && u[i + 1].a[0][0] == '-' && u[i + 1].a[0].size() >= 2 &&
                u[i + 1].a[0][1] != '-' && r.chance(40)) {
                bool flag = false;
                for (auto &o : tb) flag |= o.k == K_OPT && o.t == T_FLAG && o.s == u[i].a[0][1];
                if (!flag) continue;
                u[i + 1].a[0] = u[i].a[0] + u[i + 1].a[0].substr(1);
                u.erase(u.begin() + (long)i);
                i--;
            }
        bool only_pos = false;
        for (auto &o : tb) {
            if (o.k != K_POS) continue;
            if (terse && !r.chance((o.f & BF_REQUIRED) ? (good ? 90 : 30) : 8)) break;
            if (is_variadic(o.t)) {
                size_t n = (o.f & BF_REQUIRED) && good ? 1 + r.below(6) : r.below(6);
                if (r.chance(f.big)) n = (size_t)r.range(7, 70);
                if (r.chance(f.big / 3)) { static const int N[] = {126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300}; n = (size_t)r.pick(N); }
                for (size_t i = 0; i < n; i++) {
                    string v = value(o, good || r.chance(90), r.chance(80));
                    if (r.chance(2)) v = odd_bare();
                    pos.push_back(v);
                }
                break;
            }
            if (!((o.f & BF_REQUIRED) ? r.chance(good ? 99 : 85) : r.chance(55))) break;
            string v = value(o, good || r.chance(85), r.chance(80));
            if ((o.t == T_STR || o.t == T_CUSTOM) && o.v.empty() && r.chance(4)) v = odd_bare();
            pos.push_back(v);
        }
        if (!good && r.chance(8)) pos.push_back(r.chance(60) ? "stray" : odd_bare());
        if (pos.size() && r.chance(12)) only_pos = true;
        for (auto &v : pos) // what looks like an option has to stand behind "--"
            if (v.size() > 1 && v[0] == '-' && !isdigit((unsigned char)v[1]) && v[1] != '.' && !r.chance(4)) only_pos = true;
        if (!good && r.chance(8)) {
            static const char *const X[] = {"--nosuch", "--nosuch=1", "-Z", "--hel", "--n", "-@", "--="};
            string x = r.chance(10) ? odd_bare() : string(r.pick(X));
            if (r.chance(25)) x = "--" + string((size_t)r.range(50, 400), 'q') + (r.chance(30) ? "=v" : "");
            else if (r.chance(25) && tb.size()) { // next to a name that exists
                auto &o = r.pick(tb);
                if (o.l.size()) x = "--" + near(o.l);
            }
            u.insert(u.begin() + (long)r.below(u.size() + 1), Unit{{x}});
        }
        size_t np = 0;
        for (auto &x : u) {
            while (np < pos.size() && !only_pos && r.chance(30)) out.push_back(pos[np++]);
            for (auto &s : x.a) out.push_back(s);
        }
        if (only_pos && np < pos.size()) out.push_back("--");
        while (np < pos.size()) out.push_back(pos[np++]);
        if (!good && r.chance(6)) {
            vector<const OSpec *> q;
            for (auto &o : tb) if (o.k == K_OPT && o.t != T_FLAG) q.push_back(&o);
            if (!q.empty()) { auto o = r.pick(q); out.push_back(o->l.size() ? "--" + o->l : string("-") + o->s); }
        }
        if (any_sub && depth < 80 && r.chance(depth == 0 || f.self ? 88 : 65)) {
            vector<const OSpec *> q;
            for (auto &o : tb) if (o.k == K_SUB) q.push_back(&o);
            auto o = r.pick(q);
            out.push_back(cmd_word(tb, *o));
            line(c, o->sub, depth + 1, out, good);
        }
    }
    // A line that works, with one thing about it changed
    void alter(const CSpec &c, const Rng &before, vector<string> &a)
    {
        int k = r.chance(f.pairs) ? 60 : (int)r.below(100);
        if (k < 45) {
            Rng after = r;
            r         = before;
            wrong_at  = LONG_MAX - 1, values = 0;
            vector<string> b;
            line(c, 0, 0, b, true);
            long n = values;
            if (n) {
                Rng pick(Rng::mix(r.next()) + 3);
                r        = before;
                wrong_at = (long)pick.below((u64)n), values = 0;
                b.clear();
                line(c, 0, 0, b, true);
                a = b;
            }
            wrong_at = -1;
            r        = after;
            return;
        }
        if (a.empty() && k < 57) return;
        if (a.empty()) k = 60;
        size_t i = r.below(a.size() + (a.empty() ? 1 : 0));
        if (k < 57) { // something is left out
            size_t n = a[i][0] == '-' && i + 1 < a.size() && a[i + 1][0] != '-' && r.chance(60) ? 2 : 1;
            a.erase(a.begin() + (long)i, a.begin() + (long)(i + n));
        } else if (k < 82) { // an option more, of any level
            size_t related = c.tables.size(); // a table with relations
            if (r.chance(60))
                for (size_t n = 0; n < c.tables.size(); n++)
                    for (auto &o : c.tables[n]) if (o.con.size() + o.req.size() > 0 && r.chance(o.con.size() > 5 ? 60 : 15)) related = n;
            auto &t = related < c.tables.size() ? c.tables[related] : r.pick(c.tables);
            vector<const OSpec *> q;
            for (auto &o : t) if (o.k == K_OPT && !o.std_help && !o.std_version) q.push_back(&o);
            if (q.empty()) return;
            auto o = r.pick(q);
            if (r.chance(50)) // one with relations, and one that they name
                for (auto x : q) if (x->con.size() + x->req.size() > 0 && r.chance(x->con.size() > 5 ? 70 : 30)) o = x;
            vector<const OSpec *> both{o};
            vector<string> named(o->con);
            named.insert(named.end(), o->req.begin(), o->req.end());
            if (named.size() && r.chance(70)) {
                string w = o->con.size() > 5 && r.chance(40) ? o->con.back() : r.pick(named);
                for (auto x : q) if (x->key() == w) both.push_back(x);
            }
            if (both.size() > 1 && &t != &c.tables[0]) { // where their table is the active one
                bool here = false;
                for (i = 0; i < a.size() && !here; i++)
                    for (auto &u : c.tables) for (auto &x : u) here |= x.k == K_SUB && x.sub == &t - &c.tables[0] && x.n == a[i];
                if (!here && r.chance(60)) { // a line of its own
                    vector<string> path;
                    for (int at = (int)(&t - &c.tables[0]), n = 0; at && n < 6; n++)
                        for (size_t u = 0, found = 0; u < c.tables.size() && !found; u++)
                            for (auto &x : c.tables[u])
                                if (x.k == K_SUB && x.sub == at) { path.insert(path.begin(), x.n); at = (int)u; found = 1; break; }
                    a = path, i = a.size();
                }
            } else if (both.size() > 1) i = 0;
            vector<string> u;
            for (auto x : both) {
                u.push_back(x->l.size() ? "--" + x->l : string("-") + x->s);
                if (x->t != T_FLAG) u.push_back(any_value(*x, true));
            }
            a.insert(a.begin() + (long)i, u.begin(), u.end());
        } else if (k < 88) a.insert(a.begin() + (long)r.below(a.size() + 1), string(a[i]));
        else if (k < 94) std::swap(a[i], a[r.below(a.size())]);
        else a.resize(i);
    }
    vector<string> draw_line(size_t x, const std::map<string, string> &env)
    {
        const CSpec   &c = sc.ctxs[x];
        bool           want_exit = r.chance(f.exitline), good = !want_exit && r.chance(f.good);
        vector<string> a;
        for (int i = 0; i < 10; i++) {
            a.clear();
            Rng before = r;
            line(c, 0, 0, a, good);
            size_t bytes = 0;
            for (auto &s : a) bytes += s.size();
            if (a.size() > 500 || bytes > 90000) continue;
            Model m;
            m.init(&c, (int)x);
            MResult q = m.parse(a, env, {});
            if (good && q.status == 0 && !q.exited && r.chance(f.alter)) {
                vector<string> b = a;
                alter(c, before, b);
                size_t total = 0;
                for (auto &s : b) total += s.size();
                if (total < 150000) a = b;
                break;
            }
            if (good ? q.status == 0 && !q.exited : want_exit ? q.exited : true) break;
        }
        return a;
    }
    std::map<string, string> env_map() const { return std::map<string, string>(sc.env.begin(), sc.env.end()); }

    // Names that some option consults, and names close to them
    void all_names(vector<std::pair<string, const OSpec *>> &v)
    {
        for (size_t x = 0; x < sc.ctxs.size(); x++) {
            Model m;
            m.init(&sc.ctxs[x], (int)x);
            for (auto &t : sc.ctxs[x].tables)
                for (auto &o : t)
                    if (o.k == K_OPT || o.k == K_POS) {
                        string n = m.envname(o);
                        if (n.size()) v.emplace_back(n, &o);
                    }
        }
    }
    string env_value(const OSpec &o)
    {
        if (o.t == T_FLAG && !r.chance(85)) return r.chance(50) ? "" : "junk";
        return value(o, r.chance(88));
    }
    void make_env()
    {
        vector<std::pair<string, const OSpec *>> v;
        all_names(v);
        std::map<string, string> e;
        for (auto &q : v) {
            bool ends = q.second->std_help || q.second->std_version || (q.second->f & BF_EXIT);
            if (r.chance(ends ? (f.exitline > 4 ? 25 : 4) : 45)) e[q.first] = env_value(*q.second);
            if (r.chance(12) && p == 8) {
                string n = q.first;
                switch (r.below(5)) {
                    case 0: n += "X"; break;
                    case 1: n = n.substr(0, n.size() - 1); break;
                    case 2: n = "_" + n; break;
                    case 3: for (auto &ch : n) ch = (char)tolower(ch); break;
                    default: { size_t k = n.find('_'); if (k != string::npos) n = n.substr(k + 1); }
                }
                if (n.size()) e.emplace(n, env_value(*q.second));
            }
            if (r.chance(10) && q.second->has_env) e.emplace(q.second->e, env_value(*q.second)); // declared name without its prefix
        }
        if (r.chance(20)) e["HOME"] = "/root";
        for (auto &q : e)
            if (q.second.size() < 60000) sc.env.push_back(q);
    }
    Op env_op()
    {
        vector<std::pair<string, const OSpec *>> v;
        all_names(v);
        Op o;
        if (v.empty()) { o.kind = OP_SETENV; o.k = "HOME"; o.v = "/"; return o; }
        auto &q = r.pick(v);
        o.kind  = r.chance(65) ? OP_SETENV : OP_UNSETENV;
        o.k     = q.first;
        if (o.kind == OP_SETENV) o.v = env_value(*q.second);
        return o;
    }
    void fill_nested(vector<Op> &ops)
    {
        for (auto &o : ops) {
            if (o.kind == OP_SETENV || o.kind == OP_UNSETENV) {
                int k = o.kind;
                o = env_op();
                if (k == OP_UNSETENV) { o.kind = k; o.v.clear(); }
            } else if (o.kind == OP_PARSE && o.args.empty())
                o.args = draw_line((size_t)o.c, env_map());
        }
    }

    // ------------------------------------------------------------ operations
    string odd_path(const CSpec &c)
    {
        static const char *const X[] = {"nosuch", ".nosuch", "nosuch.alpha", "run.nosuch", ".", "alpha.beta", ".run", "a.b.c.d"};
        if (r.chance(30)) return r.pick(X);
        if (r.chance(50)) { // a chain of commands, or nearly one
            string path;
            int    t = 0;
            for (int l = (int)r.range(1, 3); l > 0; l--) {
                vector<const OSpec *> q;
                for (auto &o : c.tables[t]) if (o.k == K_SUB) q.push_back(&o);
                if (q.empty()) break;
                auto   o = r.pick(q);
                string n = o->n;
                if (r.chance(25)) n = n.substr(0, (size_t)r.range(path.empty(), (i64)n.size()));
                else if (r.chance(8)) n = near(n);
                path += n + ".";
                t = o->sub;
            }
            if (c.tables[t].empty()) return path + "nosuch";
            const OSpec &o = r.pick(c.tables[t]);
            if (o.k == K_GRP) return path + "nosuch";
            return path + (r.chance(15) ? o.key().substr(0, 1) : r.chance(8) ? near(o.key()) : o.key());
        }
        const Table &t = r.pick(c.tables);
        if (t.empty()) return "nosuch";
        const OSpec &o = r.pick(t);
        if (o.k == K_GRP) return "nosuch";
        return r.chance(30) ? "." + o.key() : o.key();
    }
    void context_ops(size_t x, vector<Op> &ops)
    {
        const CSpec &c = sc.ctxs[x];
        std::map<string, string> env = env_map();
        auto add = [&](int kind) -> Op & { Op o; o.kind = kind; o.c = (int)x; ops.push_back(o); return ops.back(); };
        auto observe = [&] {
            Op &o = add(OP_OBSERVE);
            for (int i = (int)r.below(4); i > 0; i--) o.args.push_back(odd_path(c));
        };
        auto setenv = [&] {
            if (threaded || !r.chance(f.setenv)) return;
            Op o = env_op();
            if (o.kind == OP_SETENV) env[o.k] = o.v; else env.erase(o.k);
            ops.push_back(o);
        };
        auto extras = [&](bool parsed) {
            if (r.chance(f.observe)) observe();
            if (r.chance(f.print)) add(OP_HELP);
            if (r.chance(f.print / 2)) add(OP_USAGE);
            if (r.chance(f.print / 3)) add(OP_VERSION);
            if (parsed && r.chance(f.exec)) add(OP_EXEC).n = r.range(1, 1000);
            if (r.chance(f.free)) { add(OP_FREE); if (r.chance(40)) add(OP_FREE); if (r.chance(40)) observe(); if (r.chance(15)) add(OP_HELP); }
        };
        add(OP_INIT).n = f.validate && c.dbg;
        if (r.chance(15)) extras(false);
        int n = (int)r.range(1, f.parses);
        for (int i = 0; i < n; i++) {
            setenv();
            add(OP_PARSE).args = draw_line(x, env);
            extras(true);
            if (r.chance(f.reinit)) add(OP_INIT);
        }
    }
    void context(size_t x)
    {
        sc.ctxs.emplace_back();
        CSpec &c = sc.ctxs.back();
        c.prog   = "prog" + std::to_string(x);
        if (r.chance(2)) c.prog = "/" + string((size_t)r.range(60, 600), 'd') + "/" + c.prog;
        c.has_ver = r.chance(85), c.ver = c.has_ver ? "1." + std::to_string(x) + ".3" : "";
        c.has_desc = r.chance(50), c.desc = c.has_desc ? word_text(5, r.chance(15) ? 200 : 40) : "";
        if (r.chance(f.prefix)) {
            static const char *const P[] = {"APP", "APP_", "MYAPP", "X", "My_App", "APP", "APP_", "MYAPP", "X", ""};
            c.has_prefix = true, c.prefix = r.pick(P);
            if (r.chance(4)) c.prefix = string((size_t)r.range(60, 300), 'P') + (r.chance(50) ? "_" : "");
        }
        c.dbg = f.validate || r.chance(f.dbg);
        if (r.chance(f.cfg)) {
            static const size_t LW[] = {80, 100, 40, 20, 10, 1, 0, 30, 31, 500, SIZE_MAX}, DC[] = {30, 0, 1, 5, 20, 40, 79, 80, 81, 200, 5000}, IN[] = {2, 0, 1, 4, 8, 40}, SH[] = {20, 0, 1, 5, 60, 1000};
            c.has_cfg = true;
            c.cfg[0] = r.pick(LW), c.cfg[1] = r.pick(DC), c.cfg[2] = r.pick(IN), c.cfg[3] = r.pick(SH);
            if (f.self) c.cfg[1] = std::min<i64>(c.cfg[1], 100); // their lists have thousands of lines
            c.spaces = r.chance(70);
        }
        make_table(c, 0);
        bool self = false; // shared tables are checked at every level that uses them
        vector<int> uses(c.tables.size(), 0);
        for (auto &t : c.tables)
            for (auto &o : t)
                if (o.k == K_SUB) uses[(size_t)o.sub]++;
        for (auto &t : c.tables)
            for (auto &o : t)
                if (o.k == K_SUB && o.sub <= (int)(&t - &c.tables[0])) self = true;
        if (self)
            for (auto &t : c.tables)
                for (auto &o : t) {
                    o.v.clear(), o.req.clear(), o.con.clear();
                    o.f &= ~BF_REQUIRED;
                    if (o.k == K_POS) o.has_flags = true;
                    if (o.k == K_GRP) o.f = 0;
                }
    }
};

Profile profile(int p, Rng &r)
{
    Profile f;
    switch (p) {
        case 1: f.big = 8, f.custom = 12, f.print = 25, f.parses = 3, f.exitline = 8, f.dbg = 30, f.validate = r.chance(20), f.self = !f.validate && r.chance(16) ? 60 : 0;
            if (f.self) f.sub = 100, f.exec = 40, f.act = 40;
            break;
        case 2: f.good = 88, f.parses = 2, f.big = 6, f.observe = 15, f.print = 3, f.exec = 3; break;
        case 3: f.validate = r.chance(12), f.custom = 15, f.good = 55, f.exitline = 12, f.big = 6, f.exit = 12; break;
        case 4: f.custom = 55, f.coll = 20, f.good = 55, f.alter = 25, f.exitline = 15, f.exit = 15, f.free = 55, f.parses = 4, f.env = 35; break;
        case 5: f.observe = 75, f.free = 45, f.parses = 4, f.coll = 55, f.good = 65, f.print = 8, f.custom = 15; break;
        case 6: f.parses = 6, f.free = 35, f.good = 65, f.alter = 15, f.exitline = 10, f.def = 35, f.env = 35, f.reinit = 15, f.setenv = 20, f.self = r.chance(15) ? 30 : 0; break;
        case 7: f.ctxs = (int)r.range(2, 3), f.parses = 3, f.nested = r.chance(60) ? 35 : 0, f.hk1 = 30, f.cval = 30, f.env = 40, f.autoenv = 30, f.print = 40, f.exec = 25, f.tables = 3, f.opts = 5, f.custom = 15, f.setenv = 0, f.validate = r.chance(30);
            if (f.validate && r.chance(50)) f.tables = 9, f.depth = 8, f.sub = 150, f.opts = 2;
            else if (r.chance(38)) f.coll = 90, f.flags = 80, f.big = 15, f.opts = 3, f.nested = 0, f.sorted = r.chance(40) ? 80 : 0; // alike contexts
            else if (r.chance(15)) f.val = 90, f.cval = 20, f.opts = 3;
            break;
        case 8: f.env = 55, f.autoenv = 45, f.def = 40, f.prefix = 70, f.setenv = 45, f.parses = 3, f.nested_env = 10, f.hk1 = 15, f.print = 5; break;
        case 9: f.val = 65, f.cval = 30, f.rel = 35, f.grp = 35, f.req = 30, f.env = 35, f.def = 35, f.good = 70, f.alter = 50, f.print = 2; if (r.chance(26)) f.val = 8, f.cval = 3, f.def = 4, f.req = 3, f.rel = 60, f.env = f.autoenv = r.chance(70) ? 0 : 6, f.opts = 12, f.coll = 8, f.grp = 20, f.pairs = 70, f.alter = 85; // little but relations
            break;
        case 10: f.hk1 = 55, f.cval = 60, f.custom = 25, f.exec = 60, f.exit = 10, f.env = 35, f.good = 75, f.nested_env = 15, f.exitline = 8, f.def = 30; break;
        case 11: f.good = 60, f.alter = 30, f.cval = 35, f.exitline = 12, f.print = 35, f.exec = 25, f.parses = 3, f.val = 45, f.rel = 20, f.req = 20; break;
        case 12: f.exit = 25, f.exitline = 60, f.env = 40, f.autoenv = 25, f.cval = 25, f.hk1 = 30, f.custom = 20, f.req = 30, f.good = 30, f.sub = 65, f.cfg = 30; break;
        case 13: f.print = 90, f.cfg = 70, f.hidden = 15, f.opts = 10, f.grp = 35, f.val = 50, f.def = 40, f.env = 35, f.autoenv = 20, f.exec = 40, f.sub = 60, f.exitline = 12, f.self = r.chance(16) ? 60 : 0; break;
        case 14: f.validate = true, f.def = 75, f.cval = 50, f.print_val = 55, f.val = 50, f.parses = 1, f.big = 2, f.tables = 3; break;
        case 15: f.sub = 100, f.tables = 7, f.depth = r.chance(50) ? 6 : 3, f.self = r.chance(45) ? 70 : 0, f.opts = 3, f.act = 60, f.exec = 35, f.coll = 20, f.observe = 60, f.val = 10, f.cval = 5; break;
        case 16: f.big = 5, f.alter = 20, f.print = 25, f.env = 40, f.autoenv = 25, f.val = 45, f.coll = 50, f.custom = 15, f.parses = 3, f.exitline = 8; break;
        case 17: f.coll = 92, f.flags = 75, f.big = 18, f.custom = 0, f.pos = 70, f.env = 30, f.val = 20, f.cval = 5, f.good = 78, f.hk1 = 4, f.print = 3, f.def = 5; break;
    }
    // A share of unusual mixes for every property
    if (r.chance(15)) {
        f.exitline = std::max(f.exitline, 12), f.custom = std::max(f.custom, 20), f.parses = std::max(f.parses, 3), f.env = std::max(f.env, 35);
        f.big = std::max(f.big, 8), f.free = std::max(f.free, 35);
    }
    if (p != 15 && !f.self && r.chance(p == 9 ? 30 : 12)) // small tables, many levels
        f.sub = 140, f.depth = (int)r.range(3, 6), f.tables = std::max(f.tables, 6), f.opts = 3, f.grp /= 2, f.rel /= 2;
    return f;
}
} // namespace

Scenario gen_scenario(int prop, u64 seed, u64 index)
{
    Gen g(Rng::mix(seed * 1000003 + (u64)prop) ^ Rng::mix(index + 77), prop);
    g.f = profile(prop, g.r);
    char b[8];
    snprintf(b, sizeof b, "C%02d", prop);
    g.sc.prop = b;
    g.threaded = g.f.ctxs > 1 && g.r.chance(75);
    if (prop == 14 && g.r.chance(25)) g.sc.fdlimit = (int)g.r.range(1, 4);
    if (g.r.chance(prop == 14 ? 20 : prop == 11 ? 15 : prop == 13 ? 4 : prop == 1 ? 10 : 0)) g.sc.closed = (int)g.r.range(1, 7);
    for (int x = 0; x < g.f.ctxs; x++) g.context((size_t)x);
    if (g.threaded && g.f.validate)
        for (auto &c : g.sc.ctxs)
            for (auto &t : c.tables)
                for (auto &o : t)
                    if (o.has_def) o.v.clear();
    g.make_env();
    for (auto &c : g.sc.ctxs)
        for (auto &t : c.tables)
            for (auto &o : t) {
                g.fill_nested(o.nested);
                for (auto &v : o.v) g.fill_nested(v.nested);
            }
    if (g.threaded) {
        g.sc.tasks.resize(g.sc.ctxs.size());
        for (size_t x = 0; x < g.sc.ctxs.size(); x++) g.context_ops(x, g.sc.tasks[x]);
        // Sometimes one program hands a context to another thread for a while
    } else {
        g.sc.tasks.resize(1);
        if (g.sc.ctxs.size() == 1)
            g.context_ops(0, g.sc.tasks[0]);
        else {
            // Interleaved by hand: the next operation of any context
            vector<vector<Op>> q(g.sc.ctxs.size());
            for (size_t x = 0; x < q.size(); x++) g.context_ops(x, q[x]);
            vector<size_t> at(q.size(), 0);
            for (;;) {
                vector<size_t> open;
                for (size_t x = 0; x < q.size(); x++) if (at[x] < q[x].size()) open.push_back(x);
                if (open.empty()) break;
                size_t x = g.r.pick(open);
                g.sc.tasks[0].push_back(q[x][at[x]++]);
            }
        }
    }
    return g.sc;
}

int variants_of(int prop)
{
    switch (prop) {
        case 8: case 13: return 6;
        case 7: return 14;
        default: return 10;
    }
}

void derive_variant(Scenario &sc, const RunResult &base, int prop, Rng &r, int)
{
    struct W { int cls, w; };
    vector<W> mix;
    switch (prop) {
        case 1: mix = {{FC_MEM, 85}, {FC_CB, 8}, {FC_OUT, 4}, {FC_ERR, 3}}; break;
        case 2: mix = {{FC_MEM, 100}}; break;
        case 3: mix = {{FC_MEM, 60}, {FC_CB, 35}, {FC_OUT, 3}, {FC_ERR, 2}}; break;
        case 4: mix = {{FC_MEM, 40}, {FC_CB, 55}, {FC_ERR, 5}}; break;
        case 5: mix = {{FC_MEM, 60}, {FC_CB, 35}, {FC_ERR, 5}}; break;
        case 6: mix = {{FC_MEM, 65}, {FC_CB, 30}, {FC_ERR, 5}}; break;
        case 7: mix = {{FC_MEM, 60}, {FC_CB, 30}, {FC_ERR, 10}}; break;
        case 8: mix = {{FC_MEM, 70}, {FC_CB, 30}}; break;
        case 9: mix = {{FC_MEM, 60}, {FC_CB, 40}}; break;
        case 10: mix = {{FC_MEM, 25}, {FC_CB, 75}}; break;
        case 11: mix = {{FC_OUT, 35}, {FC_ERR, 55}, {FC_MEM, 10}}; break;
        case 12: mix = {{FC_OUT, 40}, {FC_MEM, 30}, {FC_CB, 30}}; break;
        case 13: mix = {{FC_MEM, 75}, {FC_OUT, 25}}; break;
        case 14: mix = {{FC_PIPE, 15}, {FC_DUP, 15}, {FC_DUP2, 20}, {FC_FCNTL, 10}, {FC_READ, 15}, {FC_CLOSE, 10}, {FC_MEM, 15}, {FC_ERR, 5}}; break;
        case 15: mix = {{FC_MEM, 90}, {FC_CB, 10}}; break;
        case 16: mix = {{FC_MEM, 70}, {FC_CB, 15}, {FC_OUT, 8}, {FC_ERR, 7}}; break;
        default: mix = {{FC_MEM, 95}, {FC_CB, 5}};
    }
    int n = prop == 7 && !r.chance(35) ? 0 : r.chance(72) ? 1 : r.chance(80) ? 2 : 3;
    for (int i = 0; i < n; i++) {
        for (int tries = 0; tries < 6; tries++) {
            int tot = 0, cls = 0;
            for (auto &w : mix) tot += w.w;
            i64 k = (i64)r.below((u64)tot);
            for (auto &w : mix) { cls = w.cls; if ((k -= w.w) < 0) break; }
            vector<const OpCount *> q;
            for (auto &c : base.counts)
                if (c.cnt[cls] && !(cls == FC_CB && c.kind == OP_INIT))
                    q.push_back(&c);
            if (q.empty()) continue;
            const OpCount *c = r.pick(q);
            Fault          f;
            f.cls = cls, f.x = c->ctx, f.j = c->seq;
            f.n = (int)r.below(c->cnt[cls]);
            switch (cls) {
                case FC_MEM: f.m = r.chance(65) ? 0 : r.chance(70) ? 1 : 2; break;
                case FC_OUT: case FC_ERR: f.m = (int)r.below(5); if (f.m == 3 && r.chance(30)) f.n = 0; break;
                default: f.m = (int)r.below(3);
            }
            sc.faults.push_back(f);
            break;
        }
    }
    if (sc.tasks.size() > 1) {
        static const u64 MEAN[] = {3, 20, 100, 500};
        u64 left = base.total_steps + 50, mean = r.pick(MEAN);
        if (base.static_writes && r.chance(60)) { // whenever the library has written to a variable of its own
            static const int PCT[] = {100, 100, 60, 30, 10};
            sc.yield_kinds = SK_STATIC, sc.yield_pct = r.pick(PCT), sc.yield_seed = r.next() >> 16;
            if (r.chance(50)) return;
        } else if (r.chance(45)) { // at the calls that leave the library
            static const int KIND[] = {SK_ENV, SK_FMT, SK_MEM, SK_OUT, SK_CB, SK_ENV | SK_FMT, SK_ENV | SK_FMT | SK_MEM | SK_CB, 31}, PCT[] = {3, 15, 40, 70, 100};
            sc.yield_kinds = r.pick(KIND), sc.yield_pct = r.pick(PCT), sc.yield_seed = r.next() >> 16;
            if (r.chance(60)) return;
        } else if (r.chance(40)) { // every time at a few chosen places of the code
            static const int MOD[] = {10, 40, 150, 400}, PCT[] = {5, 25, 60, 100};
            sc.site_mod = r.pick(MOD), sc.yield_kinds = SK_SITE, sc.yield_pct = r.pick(PCT), sc.yield_seed = r.next() >> 16;
            if (r.chance(70)) return;
        }
        if (r.chance(45)) { // bursts of them somewhere
            for (size_t k = 0; k < 300 && left;) {
                u64 gap = r.below(left / 2 + 2), m = r.chance(70) ? 3 : 12;
                for (size_t i = (size_t)r.range(5, 60); i > 0 && gap < left; i--, k++) {
                    left -= gap;
                    sc.pre.push_back({gap ? gap : 1, (int)r.below(sc.tasks.size())});
                    gap = r.geometric(m);
                }
                if (gap >= left) break;
            }
            return;
        }
        for (size_t k = 0; k < 400 && left; k++) {
            u64 a = r.geometric(r.chance(80) ? mean : r.pick(MEAN));
            if (a > left) break;
            left -= a;
            sc.pre.push_back({a, (int)r.below(sc.tasks.size())});
        }
    }
}

// A small JSON value with a parser and a printer; objects keep their order.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t = NUL;
    bool                                   b = false;
    int64_t                                i = 0;
    double                                 d = 0;
    std::string                            s;
    std::vector<J>                         a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(bool v) : t(BOOL), b(v) {}
    J(int v) : t(INT), i(v) {}
    J(int64_t v) : t(INT), i(v) {}
    J(uint64_t v) : t(INT), i((int64_t)v) {}
    J(double v) : t(DBL), d(v) {}
    J(const char *v) : t(STR), s(v) {}
    J(const std::string &v) : t(STR), s(v) {}
    static J arr() { J j; j.t = ARR; return j; }
    static J obj() { J j; j.t = OBJ; return j; }

    const J *get(const char *k) const
    {
        for (auto &p : o)
            if (p.first == k)
                return &p.second;
        return nullptr;
    }
    J &set(const char *k, J v)
    {
        for (auto &p : o)
            if (p.first == k) {
                p.second = std::move(v);
                return *this;
            }
        t = OBJ;
        o.emplace_back(k, std::move(v));
        return *this;
    }
    void    push(J v) { t = ARR; a.push_back(std::move(v)); }
    int64_t num(const char *k, int64_t def = 0) const
    {
        const J *j = get(k);
        return !j ? def : j->t == INT ? j->i : j->t == DBL ? (int64_t)j->d : j->t == BOOL ? j->b : def;
    }
    double dbl(const char *k, double def = 0) const
    {
        const J *j = get(k);
        return !j ? def : j->t == DBL ? j->d : j->t == INT ? (double)j->i : def;
    }
    std::string str(const char *k, const char *def = "") const
    {
        const J *j = get(k);
        return j && j->t == STR ? j->s : std::string(def);
    }
    const std::vector<J> &list(const char *k) const
    {
        static const std::vector<J> none;
        const J *j = get(k);
        return j && j->t == ARR ? j->a : none;
    }

    static void quote(const std::string &s, std::string &out)
    {
        out += '"';
        for (unsigned char c : s) {
            char buf[8];
            if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
            else if (c == '\n') out += "\\n";
            else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
            else out += (char)c;
        }
        out += '"';
    }
    void dump(std::string &out, int ind = -1) const
    {
        char buf[40];
        auto nl = [&](int n) { if (ind >= 0) { out += '\n'; out.append((size_t)n, ' '); } };
        bool flat = true; // arrays and objects of plain values stay on one line
        for (auto &x : a) if (x.t == ARR || x.t == OBJ) flat = false;
        for (auto &x : o) if (x.second.t == OBJ || (x.second.t == ARR && x.second.a.size() > 0)) flat = false;
        switch (t) {
            case NUL: out += "null"; break;
            case BOOL: out += b ? "true" : "false"; break;
            case INT: snprintf(buf, sizeof buf, "%lld", (long long)i); out += buf; break;
            case DBL:
                if (d != d || d - d != 0) { out += d != d ? "\"#nan\"" : d > 0 ? "\"#inf\"" : "\"#-inf\""; break; } // JSON has no such numbers
                snprintf(buf, sizeof buf, "%.17g", d);
                out += buf;
                if (!strpbrk(buf, ".en")) out += ".0";
                break;
            case STR: quote(s, out); break;
            case ARR:
                out += '[';
                for (size_t k = 0; k < a.size(); k++) {
                    if (k) out += ',';
                    if (!flat) nl(ind + 1);
                    a[k].dump(out, flat || ind < 0 ? -1 : ind + 1);
                }
                out += ']';
                break;
            case OBJ:
                out += '{';
                for (size_t k = 0; k < o.size(); k++) {
                    if (k) out += ',';
                    if (!flat) nl(ind + 1);
                    quote(o[k].first, out);
                    out += ':';
                    o[k].second.dump(out, flat || ind < 0 ? -1 : ind + 1);
                }
                out += '}';
                break;
        }
    }
    std::string dump(bool pretty = false) const { std::string r; dump(r, pretty ? 0 : -1); return r; }

    static bool parse(const char *&p, J &j)
    {
        auto ws = [&] { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; };
        ws();
        if (*p == '{') {
            j = obj(); p++; ws();
            if (*p == '}') { p++; return true; }
            for (;;) {
                J k, v;
                ws();
                if (*p != '"' || !parse(p, k)) return false;
                ws();
                if (*p++ != ':' || !parse(p, v)) return false;
                j.o.emplace_back(k.s, std::move(v));
                ws();
                if (*p == ',') { p++; continue; }
                return *p++ == '}';
            }
        }
        if (*p == '[') {
            j = arr(); p++; ws();
            if (*p == ']') { p++; return true; }
            for (;;) {
                J v;
                if (!parse(p, v)) return false;
                j.a.push_back(std::move(v));
                ws();
                if (*p == ',') { p++; continue; }
                return *p++ == ']';
            }
        }
        if (*p == '"') {
            j = J(""); p++;
            while (*p && *p != '"') {
                if (*p != '\\') { j.s += *p++; continue; }
                p++;
                switch (*p) {
                    case 'n': j.s += '\n'; break;
                    case 't': j.s += '\t'; break;
                    case 'u': { char h[5] = {p[1], p[2], p[3], p[4], 0}; j.s += (char)strtol(h, nullptr, 16); p += 4; break; }
                    default: j.s += *p;
                }
                p++;
            }
            if (j.s == "#nan" || j.s == "#inf" || j.s == "#-inf") j = J(strtod(j.s.c_str() + 1, nullptr));
            return *p++ == '"';
        }
        if (!strncmp(p, "true", 4)) { j = J(true); p += 4; return true; }
        if (!strncmp(p, "false", 5)) { j = J(false); p += 5; return true; }
        if (!strncmp(p, "null", 4)) { j = J(); p += 4; return true; }
        const char *q = p;
        bool        fl = false;
        while (*q && strchr("+-0123456789.eEinfa", *q)) { if (strchr(".eEnf", *q)) fl = true; q++; }
        if (q == p) return false;
        std::string n(p, q);
        p = q;
        j = fl ? J(strtod(n.c_str(), nullptr)) : J((int64_t)strtoll(n.c_str(), nullptr, 10));
        return true;
    }
    static bool load(const std::string &text, J &j) { const char *p = text.c_str(); return parse(p, j); }
};

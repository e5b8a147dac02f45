// Independent model of the expression language: syntax tree, parser, evaluator,
// acceptance rules. Shares no code with the library.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
using std::string;
using std::vector;
typedef int64_t i64;
typedef uint64_t u64;

struct Rng {
    u64 s;
    explicit Rng(u64 x) : s(x) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T& pick(const vector<T>& v)
    {
        if(v.empty()) abort();
        return v[below(v.size())];
    }
    template <class T> void shuffle(vector<T>& v)
    {
        for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

static inline u64 fnv(const string& s, u64 h = 1469598103934665603ull)
{
    for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

enum Ty { B, I, F, S, IL, SL, SEG, FC, IE };
static const char* TYN[] = { "b", "i", "f", "s", "il", "sl", "seg", "fc", "ie" };

struct Decl {
    string name;
    Ty ty = B;
    bool allow = true;
    bool hasMin = false, hasMax = false;
    i64 imin = INT64_MIN, imax = INT64_MAX;
    double fmin = -DBL_MAX, fmax = DBL_MAX;
    u64 cap = UINT64_MAX; // strings / enums
    // pools of interesting values
    vector<i64> ip;
    vector<double> fp;
    vector<string> sp;
};

struct World {
    vector<Decl> d;
    std::map<string, int> idx;
    int add(const Decl& x)
    {
        d.push_back(x);
        idx.emplace(x.name, (int)d.size() - 1);
        return (int)d.size() - 1;
    }
    int find(const string& n) const
    {
        auto it = idx.find(n);
        return it == idx.end() ? -1 : it->second;
    }
    const Decl* get(const string& n) const
    {
        int i = find(n);
        return i < 0 ? nullptr : &d[i];
    }
};

struct Cap {
    string type;
    u64 id;
    string ns;
    bool tsdef;
    i64 ts;
    u64 value;
};
struct Val {
    bool def = false;
    bool b = false;
    i64 i = 0;
    double f = 0;
    string s;
    vector<i64> il;
    vector<string> sl;
    vector<std::pair<i64, i64>> seg;
    vector<Cap> fc;
};
typedef vector<Val> Event; // one entry per declaration

enum Op {
    TRUE_, FALSE_, BVAR, LT, LE, GT, GE, EQ, NE, IN, NIN, VIN, VNIN, ONEOF, NONEOF, ALLOF, ISNULL, ISNOTNULL, ISEMPTY,
    FREQ, SEGW, SEGB, GEO, CONT, STARTS, ENDS, AND, OR, NOT,
    BADIN, BADNIN // set expressions the grammar admits but that mean nothing
};

struct Lit {
    char k = 'i'; // i f s
    i64 i = 0;
    double f = 0;
    string s;
};
struct Expr;
typedef std::shared_ptr<const Expr> E;
struct Expr {
    Op op = TRUE_;
    string attr;
    Lit lit;
    char lk = 'i'; // list kind i / s
    vector<i64> il;
    vector<string> sl;
    string ftype, ns; // frequency
    i64 v = 0, len = 0; // frequency value, length / segment id, seconds
    bool named = false; // segment attribute given
    double lat = 0, lon = 0, rad = 0;
    bool geoint = false;
    E a, b;
    bool odd = false; // contains something outside the specified literal domain
};

static inline std::shared_ptr<Expr> mk(Op op)
{
    auto e = std::make_shared<Expr>();
    e->op = op;
    return e;
}
static inline E mkb(Op op, E a, E b)
{
    auto e = mk(op);
    e->a = a;
    e->b = b;
    return e;
}
static inline E mkn(E a)
{
    auto e = mk(NOT);
    e->a = a;
    return e;
}

static const char* FTYPES[] = { "advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group",
    "campaign_group:ip", "flight", "flight:ip", "product", "product:ip" };
static inline string ftype_const(const string& t)
{
    string b = t.substr(0, t.find(':'));
    return b + "_id";
}
static inline bool ftype_ok(const string& t)
{
    for(auto f : FTYPES)
        if(t == f) return true;
    return false;
}
static inline string lower(string s)
{
    for(auto& c : s)
        if(c >= 'A' && c <= 'Z') c += 32;
    return s;
}

typedef std::map<string, i64> Consts;

// great circle distance, long double haversine
static inline long double geodist(double lat1, double lon1, double lat2, double lon2)
{
    const long double r = 3.14159265358979323846264338327950288L / 180;
    long double p1 = lat1 * r, p2 = lat2 * r, dl = (lon2 - lon1) * r, dp = p2 - p1;
    long double h = sinl(dp / 2) * sinl(dp / 2) + cosl(p1) * cosl(p2) * sinl(dl / 2) * sinl(dl / 2);
    if(h > 1) h = 1;
    if(h < 0) h = 0;
    return 2 * 6372.8L * asinl(sqrtl(h));
}

static inline bool ev(const E& e, const World& w, const Event& x, const Consts& c)
{
    auto val = [&](const string& n) -> const Val& { return x[w.find(n)]; };
    switch(e->op) {
    case TRUE_: return true;
    case FALSE_: return false;
    case AND: return ev(e->a, w, x, c) && ev(e->b, w, x, c);
    case OR: return ev(e->a, w, x, c) || ev(e->b, w, x, c);
    case NOT: return !ev(e->a, w, x, c);
    case BVAR: { auto& v = val(e->attr); return v.def && v.b; }
    case ISNULL: return !val(e->attr).def;
    case ISNOTNULL: return val(e->attr).def;
    case ISEMPTY: {
        auto& v = val(e->attr);
        return v.def && (w.get(e->attr)->ty == IL ? v.il.empty() : v.sl.empty());
    }
    case LT: case LE: case GT: case GE: case EQ: case NE: {
        auto& v = val(e->attr);
        if(!v.def) return false;
        int cmp;
        Ty t = w.get(e->attr)->ty;
        if(t == S) return (v.s == e->lit.s) == (e->op == EQ);
        if(t == F) {
            double l = e->lit.k == 'f' ? e->lit.f : (double)e->lit.i;
            cmp = v.f < l ? -1 : v.f > l;
        }
        else cmp = v.i < e->lit.i ? -1 : v.i > e->lit.i;
        switch(e->op) {
        case LT: return cmp < 0;
        case LE: return cmp <= 0;
        case GT: return cmp > 0;
        case GE: return cmp >= 0;
        case EQ: return cmp == 0;
        default: return cmp != 0;
        }
    }
    case IN: case NIN: {
        auto& v = val(e->attr);
        if(!v.def) return false;
        bool in = false;
        if(e->lk == 'i') for(auto k : e->il) in |= k == v.i;
        else for(auto& k : e->sl) in |= k == v.s;
        return in == (e->op == IN);
    }
    case VIN: case VNIN: {
        auto& v = val(e->attr);
        if(!v.def) return false;
        bool in = false;
        if(e->lit.k == 'i') for(auto k : v.il) in |= k == e->lit.i;
        else for(auto& k : v.sl) in |= k == e->lit.s;
        return in == (e->op == VIN);
    }
    case ONEOF: case NONEOF: case ALLOF: {
        auto& v = val(e->attr);
        if(!v.def) return false;
        size_t hit = 0, n = 0;
        if(e->lk == 'i') {
            std::set<i64> s(v.il.begin(), v.il.end());
            for(auto k : e->il) n++, hit += s.count(k);
        }
        else {
            std::set<string> s(v.sl.begin(), v.sl.end());
            for(auto& k : e->sl) n++, hit += s.count(k);
        }
        return e->op == ONEOF ? hit > 0 : e->op == NONEOF ? hit == 0 : hit == n;
    }
    case FREQ: {
        auto& v = val("frequency_caps");
        auto& nw = val("now");
        if(!v.def || !nw.def) return false;
        i64 id = c.at(ftype_const(e->ftype));
        for(auto& k : v.fc) {
            if(k.type != e->ftype || k.ns != e->ns || (i64)k.id != id) continue;
            bool below = (i64)k.value < e->v;
            if(e->len <= 0) return below;
            if(!k.tsdef) return true;
            if((__int128)nw.i - k.ts / 1000000 > e->len) return true;
            return below;
        }
        return true;
    }
    case SEGW: case SEGB: {
        auto& v = val(e->named ? e->attr : string("segments_with_timestamp"));
        auto& nw = val("now");
        if(!v.def || !nw.def) return false;
        for(auto& k : v.seg) {
            if(k.first != e->v) continue;
            bool within = (__int128)nw.i - e->len <= k.second / 1000000;
            return within == (e->op == SEGW);
        }
        return false;
    }
    case GEO: {
        auto &la = val("latitude"), &lo = val("longitude");
        if(!la.def || !lo.def) return false;
        return geodist(e->lat, e->lon, la.f, lo.f) <= e->rad;
    }
    case CONT: case STARTS: case ENDS: {
        auto& v = val(e->attr);
        if(!v.def) return false;
        const string &s = v.s, &p = e->lit.s;
        if(e->op == CONT) return s.find(p) != string::npos;
        if(s.size() < p.size()) return false;
        return e->op == STARTS ? s.compare(0, p.size(), p) == 0 : s.compare(s.size() - p.size(), p.size(), p) == 0;
    }
    default: abort();
    }
}

// Does a geo test sit in the rounding margin for this event?
static inline bool geo_margin(const E& e, const World& w, const Event& x)
{
    if(e->a && geo_margin(e->a, w, x)) return true;
    if(e->b && geo_margin(e->b, w, x)) return true;
    if(e->op != GEO) return false;
    int la = w.find("latitude"), lo = w.find("longitude");
    if(la < 0 || lo < 0 || !x[la].def || !x[lo].def) return false;
    // nor are points that are not on the globe specified
    if(fabs(x[la].f) > 90 || fabs(x[lo].f) > 180 || fabs(e->lat) > 90 || fabs(e->lon) > 180) return true;
    long double d = geodist(e->lat, e->lon, x[la].f, x[lo].f);
    // arc sines lose digits close to the opposite point
    return fabsl(d - e->rad) < (d > 19000 || e->rad > 19000 ? 2e-3L : 2e-4L) + 1e-9L * fabsl((long double)e->rad);
}

// ------------------------------------------------------------------ acceptance
// '1' must be accepted, '0' must be refused, '?' not specified
static inline char accept_expr(const E& e, const World& w, const Consts& c)
{
    auto both = [](char a, char b) { return a == '0' || b == '0' ? '0' : a == '?' || b == '?' ? '?' : '1'; };
    auto is = [&](const string& n, Ty t) -> char {
        const Decl* d = w.get(n);
        return d && d->ty == t ? '1' : '0';
    };
    char odd = e->odd ? '?' : '1';
    switch(e->op) {
    case TRUE_: case FALSE_: return odd;
    case AND: case OR: return both(accept_expr(e->a, w, c), accept_expr(e->b, w, c));
    case NOT: return accept_expr(e->a, w, c);
    case BVAR: return is(e->attr, B);
    case ISNULL: case ISNOTNULL: {
        const Decl* d = w.get(e->attr);
        return !d ? '0' : d->allow ? '1' : '?';
    }
    case ISEMPTY: return is(e->attr, IL) == '1' || is(e->attr, SL) == '1' ? '1' : '0';
    case LT: case LE: case GT: case GE: {
        if(is(e->attr, F) == '1') return odd;
        if(is(e->attr, I) == '1' && e->lit.k == 'i') return odd;
        return '0';
    }
    case EQ: case NE: {
        if(is(e->attr, F) == '1' && e->lit.k != 's') return odd;
        if((is(e->attr, I) == '1' || is(e->attr, IE) == '1') && e->lit.k == 'i') return odd;
        if(is(e->attr, S) == '1' && e->lit.k == 's') return odd;
        return '0';
    }
    case IN: case NIN:
        if(is(e->attr, e->lk == 'i' ? I : S) == '1') return odd;
        return '0';
    case VIN: case VNIN:
        if(is(e->attr, e->lit.k == 'i' ? IL : SL) == '1') return odd;
        return '0';
    case ONEOF: case NONEOF: case ALLOF:
        if(is(e->attr, e->lk == 'i' ? IL : SL) == '1') return odd;
        return '0';
    case FREQ:
        if(is("frequency_caps", FC) != '1' || is("now", I) != '1') return '0';
        if(!ftype_ok(e->ftype)) return '0';
        if(!c.count(ftype_const(e->ftype))) return '0';
        return odd;
    case SEGW: case SEGB:
        if(is(e->named ? e->attr : string("segments_with_timestamp"), SEG) != '1' || is("now", I) != '1') return '0';
        return odd;
    case GEO:
        if(is("latitude", F) != '1' || is("longitude", F) != '1') return '0';
        return odd;
    case CONT: case STARTS: case ENDS: return both(is(e->attr, S), odd);
    case BADIN: case BADNIN: return '0';
    }
    return '0';
}

// strings (or enum values) an expression adds to the dictionary of an attribute
static inline void new_strings(const E& e, const World& w, std::map<string, std::set<string>>& out)
{
    if(e->a) new_strings(e->a, w, out);
    if(e->b) new_strings(e->b, w, out);
    const Decl* d = e->attr.empty() ? nullptr : w.get(e->attr);
    if(!d) return;
    switch(e->op) {
    case EQ: case NE:
        if(d->ty == S) out[e->attr].insert(e->lit.s);
        if(d->ty == IE) out[e->attr].insert(std::to_string(e->lit.i));
        break;
    case IN: case NIN: case ONEOF: case NONEOF: case ALLOF:
        if(e->lk == 's') out[e->attr].insert(e->sl.begin(), e->sl.end());
        break;
    case VIN: case VNIN:
        if(e->lit.k == 's') out[e->attr].insert(e->lit.s);
        break;
    default: break;
    }
}

// All attributes an expression uses are declared, whatever their types
static inline bool all_declared(const E& e, const World& w)
{
    if(e->a && !all_declared(e->a, w)) return false;
    if(e->b && !all_declared(e->b, w)) return false;
    switch(e->op) {
    case FREQ: return w.get("frequency_caps") && w.get("now");
    case SEGW: case SEGB: return w.get(e->named ? e->attr : string("segments_with_timestamp")) && w.get("now");
    case GEO: return w.get("latitude") && w.get("longitude");
    default: return e->attr.empty() || w.get(e->attr);
    }
}

// It mentions, by any operator, a string that a string attribute with a capacity may not know yet
static inline bool capped_string(const E& e, const World& w, const std::map<string, std::set<string>>& known)
{
    if(e->a && capped_string(e->a, w, known)) return true;
    if(e->b && capped_string(e->b, w, known)) return true;
    const Decl* d = e->op == FREQ ? w.get("frequency_caps") : e->attr.empty() ? nullptr : w.get(e->attr);
    if(!d || (d->ty != S && d->ty != SL) || d->cap == UINT64_MAX) return false;
    if(e->op == FREQ) return true; // its namespace, when the attribute of that name is a string
    auto it = known.find(e->attr);
    auto is_new = [&](const string& x) { return it == known.end() || !it->second.count(x); };
    if(e->lit.k == 's' && is_new(e->lit.s)) return true;
    if(e->lk == 's') for(auto& x : e->sl) if(is_new(x)) return true;
    return false;
}

// --------------------------------------------------------------------- parser
struct Tok {
    string t; // canonical token name, or "id" "str" "int" "flt"
    string text;
};

static inline bool lex(const string& s, vector<Tok>& out)
{
    static const vector<std::pair<string, string>> fixed = { { "within_frequency_cap", "freq" }, { "segment_within", "segw" },
        { "segment_before", "segb" }, { "geo_within_radius", "geo" }, { "contains", "cont" }, { "starts_with", "starts" },
        { "ends_with", "ends" }, { "-", "-" }, { "=", "=" }, { "<>", "<>" }, { ">", ">" }, { ">=", ">=" }, { "<", "<" },
        { "<=", "<=" }, { "(", "(" }, { ")", ")" }, { ",", "," }, { "not in", "notin" }, { "in", "in" }, { "one of", "oneof" },
        { "none of", "noneof" }, { "all of", "allof" }, { "&&", "and" }, { "and", "and" }, { "||", "or" }, { "or", "or" },
        { "not", "not" }, { "is not null", "isnotnull" }, { "is null", "isnull" }, { "is empty", "isempty" }, { "true", "true" },
        { "false", "false" } };
    auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
    auto dg = [](char c) { return c >= '0' && c <= '9'; };
    for(size_t p = 0; p < s.size();) {
        char c = s[p];
        if(c == ' ' || c == '\t' || c == '\n' || c == '\r') { p++; continue; }
        size_t best = 0;
        Tok t;
        for(auto& f : fixed)
            // "not in" is the operator unless more of an identifier follows
            if(f.second == "notin" && p + 6 < s.size() && (al(s[p + 6]) || dg(s[p + 6]) || s[p + 6] == '-')) continue;
            else if(f.first.size() > best && s.compare(p, f.first.size(), f.first) == 0) best = f.first.size(), t = { f.second, f.first };
        if(al(c)) {
            size_t q = p;
            while(q < s.size() && (al(s[q]) || dg(s[q]) || s[q] == '-')) q++;
            if(q - p > best) best = q - p, t = { "id", s.substr(p, q - p) };
        }
        if(dg(c)) {
            size_t q = p;
            while(q < s.size() && dg(s[q])) q++;
            size_t n = q - p;
            t = { "int", s.substr(p, n) };
            if(q < s.size() && s[q] == '.') {
                q++;
                while(q < s.size() && dg(s[q])) q++;
                n = q - p;
                t = { "flt", s.substr(p, n) };
            }
            best = n;
        }
        if(c == '"' || c == '\'') {
            size_t q = p + 1;
            bool ok = false;
            while(q < s.size()) {
                if(s[q] == c) { ok = true; break; }
                if(s[q] == '\\') {
                    if(q + 1 >= s.size() || s[q + 1] == '\n') break;
                    q += 2;
                }
                else q++;
            }
            if(!ok) return false;
            best = q + 1 - p;
            t = { "str", s.substr(p + 1, q - p - 1) };
        }
        if(best == 0) return false;
        out.push_back(t);
        p += best;
    }
    return true;
}

struct Parser {
    vector<Tok> t;
    size_t p = 0;
    bool bad = false;
    size_t depth = 0;
    bool is(const char* k, size_t o = 0) const { return p + o < t.size() && t[p + o].t == k; }
    bool eat(const char* k)
    {
        if(is(k)) { p++; return true; }
        bad = true;
        return false;
    }
    static i64 toint(const string& s, bool& odd)
    {
        errno = 0;
        i64 v = strtoll(s.c_str(), nullptr, 10);
        if(errno) odd = true;
        return v;
    }
    // [-] int / flt
    bool num(Lit& l, bool& odd)
    {
        size_t q = p;
        bool neg = false;
        if(is("-")) neg = true, q++;
        if(q < t.size() && t[q].t == "int") {
            l.k = 'i';
            l.i = toint(t[q].text, odd);
            if(neg) l.i = -l.i;
            p = q + 1;
            return true;
        }
        if(q < t.size() && t[q].t == "flt") {
            l.k = 'f';
            l.f = strtod(t[q].text.c_str(), nullptr);
            if(!std::isfinite(l.f)) odd = true;
            if(neg) l.f = -l.f;
            p = q + 1;
            return true;
        }
        return false;
    }
    bool literal(Lit& l, bool& odd)
    {
        if(is("str")) {
            l.k = 's';
            l.s = t[p++].text;
            return true;
        }
        return num(l, odd);
    }
    bool list(Expr& e)
    {
        if(!eat("(")) return false;
        bool first = true;
        do {
            Lit l;
            if(!literal(l, e.odd) || l.k == 'f' || (!first && e.lk != l.k)) { bad = true; return false; }
            e.lk = l.k;
            first = false;
            if(l.k == 'i') e.il.push_back(l.i);
            else e.sl.push_back(l.s);
        } while(is(",") && ++p);
        return eat(")");
    }
    E fail()
    {
        bad = true;
        return nullptr;
    }
    E orr()
    {
        E a = andd();
        while(!bad && is("or")) { p++; E b = andd(); if(bad) return nullptr; a = mkb(OR, a, b); }
        return a;
    }
    E andd()
    {
        E a = unary();
        while(!bad && is("and")) { p++; E b = unary(); if(bad) return nullptr; a = mkb(AND, a, b); }
        return a;
    }
    E unary()
    {
        if(is("not")) { p++; if(++depth > 4000) return fail(); E a = unary(); depth--; if(bad) return nullptr; return mkn(a); }
        return prim();
    }
    bool integer(i64& v, bool& odd)
    {
        Lit l;
        if(!num(l, odd) || l.k != 'i') { bad = true; return false; }
        v = l.i;
        return true;
    }
    E prim()
    {
        if(p >= t.size()) return fail();
        string k = t[p].t;
        if(k == "(") {
            p++;
            if(++depth > 4000) return fail();
            E a = orr();
            depth--;
            if(bad || !eat(")")) return fail();
            return a;
        }
        if(k == "true") { p++; return mk(TRUE_); }
        if(k == "false") { p++; return mk(FALSE_); }
        if(k == "freq") {
            auto e = mk(FREQ);
            p++;
            if(!eat("(") || !is("str")) return fail();
            e->ftype = t[p++].text;
            if(!eat(",") || !is("str")) return fail();
            e->ns = t[p++].text;
            if(!eat(",") || !integer(e->v, e->odd) || !eat(",") || !integer(e->len, e->odd) || !eat(")")) return fail();
            return e;
        }
        if(k == "segw" || k == "segb") {
            auto e = mk(k == "segw" ? SEGW : SEGB);
            p++;
            if(!eat("(")) return fail();
            if(is("id")) {
                e->named = true;
                e->attr = lower(t[p++].text);
                if(!eat(",")) return fail();
            }
            if(!integer(e->v, e->odd) || !eat(",") || !integer(e->len, e->odd) || !eat(")")) return fail();
            return e;
        }
        if(k == "geo") {
            auto e = mk(GEO);
            p++;
            Lit l[3];
            if(!eat("(")) return fail();
            for(int i = 0; i < 3; i++) {
                if(i && !eat(",")) return fail();
                if(!num(l[i], e->odd) || l[i].k != l[0].k) return fail();
            }
            if(!eat(")")) return fail();
            e->geoint = l[0].k == 'i';
            double x[3];
            for(int i = 0; i < 3; i++) x[i] = e->geoint ? (double)l[i].i : l[i].f;
            e->lat = x[0], e->lon = x[1], e->rad = x[2];
            if(fabs(e->lat) > 90 || fabs(e->lon) > 180) e->odd = true;
            return e;
        }
        if(k == "cont" || k == "starts" || k == "ends") {
            auto e = mk(k == "cont" ? CONT : k == "starts" ? STARTS : ENDS);
            p++;
            if(!eat("(") || !is("id")) return fail();
            e->attr = lower(t[p++].text);
            if(!eat(",") || !is("str")) return fail();
            e->lit.k = 's';
            e->lit.s = t[p++].text;
            if(!eat(")")) return fail();
            return e;
        }
        if(k == "id") {
            string id = lower(t[p++].text);
            string n = p < t.size() ? t[p].t : "";
            std::shared_ptr<Expr> e;
            if(n == "isnull" || n == "isnotnull" || n == "isempty") {
                p++;
                e = mk(n == "isnull" ? ISNULL : n == "isnotnull" ? ISNOTNULL : ISEMPTY);
                e->attr = id;
                return e;
            }
            if(n == "<" || n == "<=" || n == ">" || n == ">=") {
                p++;
                e = mk(n == "<" ? LT : n == "<=" ? LE : n == ">" ? GT : GE);
                e->attr = id;
                if(!num(e->lit, e->odd)) return fail();
                return e;
            }
            if(n == "=" || n == "<>") {
                p++;
                e = mk(n == "=" ? EQ : NE);
                e->attr = id;
                if(!literal(e->lit, e->odd)) return fail();
                return e;
            }
            if(n == "in" || n == "notin") {
                p++;
                if(is("id")) {
                    e = mk(n == "in" ? BADIN : BADNIN);
                    e->attr = id;
                    p++;
                    return e;
                }
                e = mk(n == "in" ? IN : NIN);
                e->attr = id;
                if(!list(*e)) return fail();
                return e;
            }
            if(n == "oneof" || n == "noneof" || n == "allof") {
                p++;
                e = mk(n == "oneof" ? ONEOF : n == "noneof" ? NONEOF : ALLOF);
                e->attr = id;
                if(!list(*e)) return fail();
                return e;
            }
            e = mk(BVAR);
            e->attr = id;
            return e;
        }
        // a literal first
        Lit l;
        bool odd = false;
        if(!literal(l, odd)) return fail();
        string n = p < t.size() ? t[p].t : "";
        std::shared_ptr<Expr> e;
        if(n == "<" || n == "<=" || n == ">" || n == ">=") {
            if(l.k == 's') return fail();
            p++;
            e = mk(n == "<" ? GT : n == "<=" ? GE : n == ">" ? LT : LE);
        }
        else if(n == "=" || n == "<>") {
            p++;
            e = mk(n == "=" ? EQ : NE);
        }
        else if(n == "in" || n == "notin") {
            if(l.k == 'f') return fail();
            p++;
            if(is("(")) {
                Expr tmp;
                if(!list(tmp)) return fail();
                return mk(n == "in" ? BADIN : BADNIN);
            }
            e = mk(n == "in" ? VIN : VNIN);
        }
        else return fail();
        if(!is("id")) return fail();
        e->attr = lower(t[p++].text);
        e->lit = l;
        e->odd = odd;
        return e;
    }
};

// null when the text is not an expression
static inline E parse_text(const string& s)
{
    Parser P;
    if(!lex(s, P.t)) return nullptr;
    E e = P.orr();
    if(P.bad || P.p != P.t.size()) return nullptr;
    return e;
}

// Random declarations, expressions, events, their spellings, and script output.
#pragma once
#include "model.h"

// -------------------------------------------------------------------- output
struct Out {
    string buf;
    void line(const vector<string>& f)
    {
        for(size_t i = 0; i < f.size(); i++) {
            if(i) buf += '\t';
            for(char c : f[i]) {
                if(c == '\t') buf += "\\t";
                else if(c == '\n') buf += "\\n";
                else if(c == '\r') buf += "\\r";
                else if(c == '\\') buf += "\\\\";
                else buf += c;
            }
        }
        buf += '\n';
    }
};
static Out out;
template <class T> static string str(T x) { return std::to_string(x); }

static string ftext(double x, bool style_dot = false)
{
    // decimal without exponent that reads back exactly; magnitude only
    double a = fabs(x);
    char buf[1200];
    for(int p = 0; p < 800; p++) {
        snprintf(buf, sizeof buf, "%.*f", p, a);
        if(strtod(buf, nullptr) == a) break;
    }
    string s = buf;
    if(s.find('.') == string::npos) s += style_dot ? "." : ".0";
    return s;
}
static string fexact(double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}

// --------------------------------------------------------------------- knobs
struct Knobs {
    int amin = 3, amax = 7; // attributes
    i64 cbase = 10; // smallest identifier of a flight, campaign, ...
    double opt = 0.5; // share of optional attributes
    vector<int> wt = { 2, 5, 3, 3, 3, 3, 0, 0, 2 }; // weight per type
    bool seg = false, fc = false, geo = false; // with the attributes they need
    double bounded = 0.7; // share of bounded numeric / string attributes
    double capped = 0.25; // share of strings/enums with a declared number of values
    bool smalldom = false; // domains small enough to be partitioned
    bool extreme = false; // 64 bit extremes, huge and tiny float domains
    bool weirdstr = true;
    int depth = 3;
    double undef = 0.3; // optional attribute absent
    double missing = 0.06; // event lacks a required attribute
    double nullp = 0.15; // atoms asking for null / empty
    double litb = 0.03; // true / false
    double strfn = 0.1; // string functions among string atoms
    double notp = 0.2;
    int poolmin = 3, poolmax = 8;
    int listmax = 5;
    double near = 0.2; // a float attribute has values close to each other
    double wrap = 0.15; // values that differ by a power of two only
    double stem = 0.05; // the strings of an attribute are long and differ in places
    double lng = 0.05; // a list is a long one
    bool fcundefts = true; // caps without timestamp (not writable as text)
    i64 epoch = 0; // every current time and timestamp is this many seconds later
    double longnames = 0.05; // all names are long and differ in their last characters only
};

static vector<string> NAMES = { "a", "b", "c", "x", "y", "z", "age", "country", "price", "in_market", "notify", "order",
    "andy", "oracle", "is_mobile", "null", "empty", "truex", "falsey", "of", "one", "all", "none", "i-d", "a-b-c", "_u", "contains_x",
    "k9", "within", "width", "height", "exchange", "member_id", "segments", "types", "not_in", "inner", "is", "none_of",
    "verylongattributename_with_many_characters_0123456789" };

static i64 clampi(__int128 v)
{
    if(v > INT64_MAX) return INT64_MAX;
    if(v < -(__int128)INT64_MAX) return -INT64_MAX;
    return (i64)v;
}

static string rndstr(Rng& r, const Knobs& k, const vector<string>& have)
{
    static const vector<string> plain = { "", "a", "b", "ab", "abc", "A", "US", "CA", "us", "fr", "com.app", "xyz", "0", "1", "true",
        "null", "hello world", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "a.b", "and", "not in" };
    static const vector<string> weird = { "it's", "say \"hi\"", "back\\\\slash", "esc\\\"q", "tab\there", "nl\nline", "(1,2)", ",", "a=1", "{}",
        "[1]", "\\n", " lead", "trail ", "a\\'b", "\xff\xfe", "-", "%s%n%d" };
    if(!have.empty() && r.chance(0.3)) {
        // similar to an existing one
        string s = r.pick(have);
        switch(r.below(4)) {
        case 0: return s + "a";
        case 1: return s.empty() ? "q" : s.substr(0, s.size() - 1 - (s.size() > 1 && s[s.size() - 2] == '\\'));
        case 2: return "x" + s;
        default: return s + str(r.below(10));
        }
    }
    if(k.weirdstr && r.chance(0.2)) return r.pick(weird);
    if(r.chance(0.15)) return string(r.range(1, 40), (char)('a' + r.below(3)));
    return r.pick(plain);
}

static bool quotable(const string& s, char q)
{
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\\') {
            if(i + 1 >= s.size() || s[i + 1] == '\n') return false;
            i++;
        }
        else if(s[i] == q) return false;
    }
    return true;
}
static bool usable(const string& s) { return quotable(s, '"') || quotable(s, '\''); }

static void fill_pool(Rng& r, const Knobs& k, Decl& d)
{
    int n = (int)r.range(k.poolmin, k.poolmax);
    if(d.ty == I || d.ty == IL || d.ty == IE) {
        i64 lo = d.ty != IE && d.imin != INT64_MIN ? d.imin : -20, hi = d.ty != IE && d.imax != INT64_MAX ? d.imax : 20;
        if(lo > hi) std::swap(lo, hi);
        for(int i = 0; i < n; i++) {
            i64 v;
            switch(r.below(8)) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            case 2: v = clampi((__int128)lo - 1); break;
            case 3: v = clampi((__int128)hi + 1); break;
            case 4: v = clampi(((__int128)lo + hi) / 2 + r.range(-1, 1)); break;
            case 5:
                if(k.extreme) {
                    static const vector<i64> ex = { INT64_MAX, -INT64_MAX, INT64_MAX - 1, -INT64_MAX + 1, 0, 1, -1, INT32_MAX, (i64)INT32_MAX + 1,
                        (i64)INT32_MIN, (i64)INT32_MIN - 1, (i64)UINT32_MAX, (i64)UINT32_MAX + 1, 1LL << 53, (1LL << 53) + 1, 1LL << 62, -(1LL << 62) };
                    v = r.pick(ex);
                    break;
                } // fallthrough
            default: {
                unsigned __int128 span = (unsigned __int128)((__int128)hi - lo) + 1;
                u64 x = r.next();
                v = clampi((__int128)lo + (__int128)(x % span));
            }
            }
            if(v == INT64_MIN) v = -INT64_MAX;
            d.ip.push_back(v);
        }
    }
    if(d.ty == F) {
        double lo = d.fmin != -DBL_MAX ? d.fmin : -10, hi = d.fmax != DBL_MAX ? d.fmax : 10;
        double step = hi - lo > 0 ? (hi - lo) / 8 : 0.25;
        if(step > 0.25 && hi - lo < 1e6) step = 0.25;
        for(int i = 0; i < n; i++) {
            double v;
            switch(r.below(7)) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            case 2: v = lo - step; break;
            case 3: v = hi + step; break;
            case 4: v = floor((lo + hi) / 2); break;
            default: v = lo + step * (double)r.range(0, (i64)std::min(1e6, (hi - lo) / step));
            }
            if(k.extreme && r.chance(0.1)) v = r.pick(vector<double>{ 0, 1e18, -1e18, 9007199254740993.0, 1e300, -1e300, 0.5, -0.5 });
            // keep values apart: round to a decimal grid of the step
            double g = step >= 0.25 ? 0.25 : step;
            if(fabs(v) < 1e15 && g == 0.25) v = floor(v / 0.25 + 0.5) * 0.25;
            if(v == 0) v = 0;
            bool close = false;
            for(double o : d.fp) close |= v != o && fabs(v - o) < 1e-9;
            if(!close) d.fp.push_back(v);
        }
        if(d.fp.empty()) d.fp.push_back(lo);
        // and next to some of them, well beyond rounding noise
        if(r.chance(k.near))
            for(int i = (int)r.range(1, 3); i > 0; i--) {
                double v = r.pick(d.fp), by = std::max(1e-7, fabs(v) * pow(10, -(double)r.range(2, 13)));
                v += r.chance(0.5) ? by : -by;
                bool close = !std::isfinite(v);
                for(double o : d.fp) close |= fabs(v - o) < 1e-9;
                if(!close) d.fp.push_back(v);
            }
    }
    if(d.ty == S || d.ty == SL || d.ty == FC) {
        if(r.chance(k.stem)) {
            string stem;
            for(int i = (int)r.pick(vector<int>{ 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300 }); i > 0; i--) stem += (char)('a' + r.below(3));
            for(int i = 0; i < n; i++) {
                string s = stem;
                if(r.chance(0.7)) s[r.chance(0.3) ? s.size() - 1 : r.below(s.size())] = 'd';
                if(r.chance(0.2)) s += "a";
                if(r.chance(0.2)) s = "b" + s;
                if(r.chance(0.2)) s.resize(s.size() / 2);
                d.sp.push_back(s);
            }
            n = (int)r.below(3);
        }
        for(int i = 0; i < n; i++) {
            string s;
            do s = rndstr(r, k, d.sp);
            while(!usable(s));
            d.sp.push_back(s);
        }
    }
    if(d.ty == SEG)
        for(int i = 0; i < n; i++) d.ip.push_back(r.chance(0.2) ? r.range(0, INT64_MAX - 1) : r.range(0, 12));
    // values that agree in their low bits
    if((d.ty == I || d.ty == IL || d.ty == IE || d.ty == SEG) && !d.ip.empty() && r.chance(k.wrap))
        for(int i = (int)r.range(1, 3); i > 0; i--) {
            i64 v = r.pick(d.ip), by = 1ll << r.pick(vector<int>{ 8, 15, 16, 31, 32, 33, 48 });
            if(v > INT64_MAX / 2) continue;
            v += by;
            d.ip.push_back(v);
        }
}

static Decl make_decl(Rng& r, const Knobs& k, const string& name, Ty t)
{
    Decl d;
    d.name = name;
    d.ty = t;
    d.allow = r.chance(k.opt);
    if(t == I || t == IL) {
        if(k.smalldom ? r.chance(0.95) : r.chance(k.bounded)) {
            d.hasMin = d.hasMax = true;
            switch(r.below(k.extreme ? 15 : k.smalldom ? 8 : 10)) {
            case 0: d.imin = 0, d.imax = r.range(1, 4); break;
            case 1: d.imin = r.range(-5, 5), d.imax = d.imin + r.range(0, 20); break;
            case 2: d.imin = d.imax = r.range(-7, 7); break;
            case 3: d.imin = r.range(-40, -20), d.imax = r.range(-19, -1); break;
            case 4: d.imin = -r.range(1, 20), d.imax = r.range(1, 20); break;
            case 5: d.imin = 0, d.imax = r.range(7, 64); break;
            case 6: d.imin = r.range(-3, 3), d.imax = d.imin + 998; break;
            case 7: d.imin = 1000, d.imax = 1000 + r.range(1, 500); break;
            case 8: d.imin = 0, d.imax = 999 + r.range(0, 3); break;
            case 9: d.imin = -1000000, d.imax = r.range(0, 1000000); break;
            case 10: d.imin = -INT64_MAX, d.imax = INT64_MAX; d.imin += r.below(3), d.imax -= r.below(3); break;
            case 11: d.imin = INT64_MAX - r.range(1, 900), d.imax = INT64_MAX; if(r.chance(.5)) d.imax--; break;
            case 12: d.imin = -INT64_MAX, d.imax = -INT64_MAX + r.range(1, 900); break;
            case 13: d.hasMax = false, d.imin = r.range(-10, 10); break;
            default: d.hasMin = false, d.imax = r.range(-10, 10); break;
            }
        }
    }
    if(t == F) {
        if(k.smalldom ? r.chance(0.95) : r.chance(k.bounded)) {
            d.hasMin = d.hasMax = true;
            switch(r.below(k.extreme ? 14 : 8)) {
            case 0: d.fmin = 0, d.fmax = (double)r.range(2, 20); break;
            case 1: d.fmin = -2.5, d.fmax = 3.75; break;
            case 2: d.fmin = 0, d.fmax = 1; break;
            case 3: d.fmin = -10, d.fmax = 10; break;
            case 4: d.fmin = 0, d.fmax = 998; break;
            case 5: d.fmin = 0.25, d.fmax = 64.5; break;
            case 6: d.fmin = -1000, d.fmax = -0.5; break;
            case 7: d.fmin = 0, d.fmax = 0.5; break;
            case 8: d.fmin = -0.01, d.fmax = 0.01; break;
            case 9: d.fmin = d.fmax = 2.5; break;
            case 10: d.fmin = 0, d.fmax = 1e300; break;
            case 11: d.fmin = -1e18, d.fmax = 1e18; break;
            case 12: d.fmin = 0, d.fmax = 1.5; break;
            case 13: d.fmin = -0.75, d.fmax = 0.75; break;
            }
        }
    }
    if((t == S || t == SL || t == IE) && r.chance(k.capped)) {
        d.hasMin = true;
        d.cap = (u64)r.range(1, 12);
    }
    fill_pool(r, k, d);
    return d;
}

static World make_world(Rng& r, const Knobs& k)
{
    World w;
    int n = (int)r.range(k.amin, k.amax);
    int tot = 0;
    for(int x : k.wt) tot += x;
    vector<string> names = NAMES;
    r.shuffle(names);
    bool lng = r.chance(k.longnames);
    string stem;
    if(lng) {
        int len = (int)r.pick(vector<int>{ 30, 31, 32, 62, 63, 64, 100, 127, 128, 254, 255, 256, 300, 1000 });
        for(int i = 0; i < len; i++) stem += i == 0 ? 'n' : "abcde_-k"[r.below(8)];
    }
    for(int i = 0; i < n && tot > 0; i++) {
        int x = (int)r.below(tot), t = 0;
        while(x >= k.wt[t]) x -= k.wt[t++];
        string nm = lng ? stem + str(i) : i < (int)names.size() ? names[i] : "v" + str(i);
        w.add(make_decl(r, k, nm, (Ty)t));
    }
    if(k.seg || k.fc) {
        Decl d;
        d.name = "now";
        d.ty = I;
        d.allow = r.chance(k.opt);
        int z = (int)r.below(3);
        if(z == 0) d.hasMin = d.hasMax = true, d.imin = k.epoch, d.imax = k.epoch + 2000;
        d.ip = { 0, 10, 100, 1000, 1500, 2000 };
        for(auto& x : d.ip) x += k.epoch;
        if(k.extreme) d.ip.insert(d.ip.end(), { INT64_MAX, -INT64_MAX, 1LL << 40 });
        w.add(d);
    }
    if(k.seg) {
        w.add(make_decl(r, k, "segments_with_timestamp", SEG));
        if(r.chance(0.6)) w.add(make_decl(r, k, "seg2", SEG));
    }
    if(k.fc) w.add(make_decl(r, k, "frequency_caps", FC));
    if(k.geo) {
        for(auto nm : { "latitude", "longitude" }) {
            Decl d;
            d.name = nm;
            d.ty = F;
            d.allow = r.chance(k.opt);
            double m = nm[1] == 'a' ? 90 : 180;
            if(r.chance(0.5)) d.hasMin = d.hasMax = true, d.fmin = -m, d.fmax = m;
            d.fp = { 0, 45, -45, m, -m, 10.25, 10.5, 89.75, -89.75 };
            w.add(d);
        }
    }
    if(w.d.size() > 1 && r.chance(0.5)) {
        r.shuffle(w.d);
        w.idx.clear();
        for(size_t i = 0; i < w.d.size(); i++) w.idx[w.d[i].name] = (int)i;
    }
    return w;
}

// ---------------------------------------------------------------- expressions
static i64 lit_int(Rng& r, const Decl& d)
{
    i64 v = r.pick(d.ip);
    if(r.chance(0.15)) v = clampi((__int128)v + r.range(-2, 2));
    return v;
}

// a list of the expression: mostly short
static void lit_ints(Rng& r, const Knobs& k, const Decl& d, vector<i64>& out)
{
    bool l = r.chance(k.lng);
    for(int n = (int)r.range(1, l ? 90 : k.listmax); n > 0; n--) out.push_back(l && r.chance(0.7) ? clampi((__int128)r.pick(d.ip) + r.range(-60, 60)) : lit_int(r, d));
}
static void lit_strs(Rng& r, const Knobs& k, const Decl& d, vector<string>& out)
{
    bool l = d.cap == 0 && r.chance(k.lng);
    for(int n = (int)r.range(1, l ? 60 : k.listmax); n > 0; n--) out.push_back(l && r.chance(0.7) ? "l" + str(r.below(60)) : r.pick(d.sp));
}

static E gen_atom(Rng& r, const Knobs& k, const World& w)
{
    if(r.chance(k.litb)) return mk(r.chance(0.5) ? TRUE_ : FALSE_);
    // candidates: attributes with a direct use
    for(int tries = 0; tries < 50; tries++) {
        const Decl& d = w.d[r.below(w.d.size())];
        if(r.chance(k.nullp)) {
            if((d.ty == IL || d.ty == SL) && r.chance(0.4)) {
                auto e = mk(ISEMPTY);
                e->attr = d.name;
                return e;
            }
            if(d.allow) {
                auto e = mk(r.chance(0.5) ? ISNULL : ISNOTNULL);
                e->attr = d.name;
                return e;
            }
        }
        switch(d.ty) {
        case B: {
            auto e = mk(BVAR);
            e->attr = d.name;
            return e;
        }
        case I: case IE: {
            int z = d.ty == IE ? 4 + (int)r.below(2) : (int)r.below(8);
            if(z < 6) {
                auto e = mk(z == 0 ? LT : z == 1 ? LE : z == 2 ? GT : z == 3 ? GE : z == 4 ? EQ : NE);
                e->attr = d.name;
                e->lit.i = lit_int(r, d);
                return e;
            }
            auto e = mk(z == 6 ? IN : NIN);
            e->attr = d.name;
            lit_ints(r, k, d, e->il);
            return e;
        }
        case F: {
            auto e = mk((Op)(LT + r.below(6)));
            e->attr = d.name;
            double v = r.pick(d.fp);
            if(v == floor(v) && fabs(v) < 1e9 && r.chance(0.4)) {
                e->lit.k = 'i';
                e->lit.i = (i64)v;
            }
            else {
                e->lit.k = 'f';
                e->lit.f = v;
            }
            return e;
        }
        case S: {
            if(r.chance(k.strfn)) {
                auto e = mk((Op)(CONT + r.below(3)));
                e->attr = d.name;
                e->lit.k = 's';
                string s = r.pick(d.sp);
                if(!s.empty() && r.chance(0.7)) {
                    size_t a = r.below(s.size()), b = a + r.below(s.size() - a + 1);
                    if(r.chance(0.3)) a = 0;
                    if(r.chance(0.3)) b = s.size();
                    string t = s.substr(a, b - a);
                    if(usable(t)) s = t;
                }
                e->lit.s = s;
                return e;
            }
            if(r.chance(0.5)) {
                auto e = mk(r.chance(0.6) ? EQ : NE);
                e->attr = d.name;
                e->lit.k = 's';
                e->lit.s = r.pick(d.sp);
                return e;
            }
            auto e = mk(r.chance(0.6) ? IN : NIN);
            e->attr = d.name;
            e->lk = 's';
            lit_strs(r, k, d, e->sl);
            return e;
        }
        case IL: case SL: {
            if(r.chance(0.3)) {
                auto e = mk(r.chance(0.6) ? VIN : VNIN);
                e->attr = d.name;
                e->lit.k = d.ty == IL ? 'i' : 's';
                if(d.ty == IL) e->lit.i = lit_int(r, d);
                else e->lit.s = r.pick(d.sp);
                return e;
            }
            auto e = mk((Op)(ONEOF + r.below(3)));
            e->attr = d.name;
            e->lk = d.ty == IL ? 'i' : 's';
            if(d.ty == IL) lit_ints(r, k, d, e->il);
            else lit_strs(r, k, d, e->sl);
            return e;
        }
        case SEG: {
            if(w.find("now") < 0) continue;
            auto e = mk(r.chance(0.5) ? SEGW : SEGB);
            e->named = d.name != "segments_with_timestamp" || r.chance(0.3);
            if(e->named) e->attr = d.name;
            e->v = r.pick(d.ip);
            e->len = r.chance(0.1) ? r.range(-50, -1) : r.pick(vector<i64>{ 0, 1, 10, 50, 100, 500, 1000, 2000, INT32_MAX });
            if(k.epoch && r.chance(0.1)) e->len = k.epoch + r.pick(vector<i64>{ -1, 0, 1, 10, 100, 1000, 2000, 5000 });
            if(r.chance(0.06)) e->len = r.pick(vector<i64>{ 3000000000LL, 1LL << 31, (1LL << 32) + 10, -(1LL << 31) - 1, -3000000000LL, 1LL << 40, INT64_MAX, -INT64_MAX });
            return e;
        }
        case FC: {
            if(w.find("now") < 0) continue;
            auto e = mk(FREQ);
            e->ftype = FTYPES[r.below(10)];
            if(r.chance(0.5)) e->ftype = FTYPES[r.below(3)];
            e->ns = r.pick(d.sp);
            e->v = r.chance(0.1) ? r.range(0, UINT32_MAX) : r.range(0, 6);
            if(r.chance(0.06)) e->v = r.pick(vector<i64>{ -1, -5, 1LL << 32, (1LL << 32) + 1, (1LL << 32) + 4, 1LL << 40, INT64_MAX, -INT64_MAX, (i64)UINT32_MAX });
            e->len = r.pick(vector<i64>{ 0, 0, 1, 10, 100, 500, 2000, -1, -100 });
            if(k.epoch && r.chance(0.1)) e->len = k.epoch + r.pick(vector<i64>{ -1, 0, 1, 10, 100, 1000, 2000, 5000 });
            if(r.chance(0.05)) e->len = r.range(0, 1LL << 40);
            if(r.chance(0.03)) e->len = r.pick(vector<i64>{ INT64_MAX, -INT64_MAX, 1LL << 32, (1LL << 32) + 10, -(1LL << 32) + 10 });
            return e;
        }
        }
    }
    return mk(TRUE_);
}

static E gen_geo(Rng& r)
{
    auto e = mk(GEO);
    e->geoint = r.chance(0.4);
    if(e->geoint) {
        e->lat = (double)r.range(-90, 90), e->lon = (double)r.range(-180, 180), e->rad = (double)r.pick(vector<i64>{ 1, 50, 500, 3000, 10000, 19000, 20100, 30000, 0, -1 });
    }
    else {
        e->lat = (double)r.range(-360, 360) * 0.25, e->lon = (double)r.range(-720, 720) * 0.25;
        if(r.chance(0.3)) e->lat = r.pick(vector<double>{ 90, -90, 89.99, -89.99, 89.5, -89.5, 80.25, -85.75, 0 });
        if(r.chance(0.3)) e->lon = r.pick(vector<double>{ 180, -180, 179.99, -179.99, 179.5, -179.5, 170.25, -175.75, 0 });
        e->rad = r.pick(vector<double>{ 0.5, 25.5, 100.25, 1000.5, 5000.5, 15000.0, 20050.5, 25000.5 });
        if(r.chance(0.3)) {
            e->lat = (double)r.range(-89000000, 89000000) / 1e6, e->lon = (double)r.range(-179000000, 179000000) / 1e6;
            if(r.chance(0.5)) e->rad = (double)r.range(1, 30000) / 1000;
        }
    }
    return e;
}

static E gen_expr(Rng& r, const Knobs& k, const World& w, int depth)
{
    if(depth <= 0 || r.chance(0.25)) {
        E a = k.geo && r.chance(0.25) ? gen_geo(r) : gen_atom(r, k, w);
        if(r.chance(k.notp)) a = mkn(a);
        return a;
    }
    if(r.chance(k.notp)) return mkn(gen_expr(r, k, w, depth - 1));
    E a = gen_expr(r, k, w, depth - 1), b = gen_expr(r, k, w, depth - 1);
    return mkb(r.chance(0.5) ? AND : OR, a, b);
}

static void need_consts(const E& e, std::set<string>& s)
{
    if(e->a) need_consts(e->a, s);
    if(e->b) need_consts(e->b, s);
    if(e->op == FREQ) s.insert(ftype_const(e->ftype));
}

// logically equivalent rewriting (not relying on definedness)
static E rewrite(Rng& r, const E& e)
{
    E a = e->a ? rewrite(r, e->a) : nullptr, b = e->b ? rewrite(r, e->b) : nullptr;
    if(e->op == AND || e->op == OR) {
        if(r.chance(0.4)) std::swap(a, b);
        if(r.chance(0.35)) return mkn(mkb(e->op == AND ? OR : AND, mkn(a), mkn(b)));
        if(r.chance(0.1)) return mkb(e->op, a, mkb(e->op, b, a));
        if(r.chance(0.1)) return mkb(e->op, mkb(e->op == AND ? OR : AND, a, mk(e->op == AND ? FALSE_ : TRUE_)), b);
        return mkb(e->op, a, b);
    }
    if(e->op == NOT) {
        if(e->a->op == NOT && r.chance(0.5)) return rewrite(r, e->a->a);
        return mkn(a);
    }
    if(r.chance(0.12)) return mkn(mkn(e));
    if(r.chance(0.06)) return mkb(OR, e, e);
    if(r.chance(0.06)) return mkb(AND, e, e);
    if(r.chance(0.4)) {
        // a in (x,y,..) as a disjunction; a <> x as not in
        if(e->op == IN) {
            E acc;
            for(size_t i = 0; i < (e->lk == 'i' ? e->il.size() : e->sl.size()); i++) {
                auto q = mk(EQ);
                q->attr = e->attr;
                q->lit.k = e->lk;
                if(e->lk == 'i') q->lit.i = e->il[i];
                else q->lit.s = e->sl[i];
                acc = acc ? mkb(OR, acc, q) : E(q);
            }
            return acc;
        }
        if(e->op == ONEOF) {
            E acc;
            for(size_t i = 0; i < (e->lk == 'i' ? e->il.size() : e->sl.size()); i++) {
                auto q = mk(VIN);
                q->attr = e->attr;
                q->lit.k = e->lk;
                if(e->lk == 'i') q->lit.i = e->il[i];
                else q->lit.s = e->sl[i];
                acc = acc ? mkb(OR, acc, q) : E(q);
            }
            return acc;
        }
    }
    return e;
}

// ------------------------------------------------------------------- spelling
struct Style {
    double sym = 0.3, paren = 0.1, caps = 0.0, single = 0.3, valuefirst = 0.2, ws = 0.1, zeros = 0.02;
};
static const Style PLAIN = { 0, 0, 0, 0, 0, 0, 0 };
static const Style WILD = { 0.5, 0.25, 0.4, 0.5, 0.5, 0.35, 0.1 };

struct Printer {
    Rng& r;
    const Style& st;
    vector<string> t;
    Printer(Rng& r, const Style& s) : r(r), st(s) {}
    void p(const string& s) { t.push_back(s); }
    void ident(const string& a)
    {
        string s = a;
        if(r.chance(st.caps))
            for(auto& c : s)
                if(c >= 'a' && c <= 'z' && r.chance(0.5)) c -= 32;
        // a keyword in another letter case is an identifier; in lower case it is not
        p(s);
    }
    void intl(i64 v)
    {
        if(v < 0) p("-");
        string d = v < 0 ? str((u64)0 - (u64)v) : str(v);
        if(r.chance(st.zeros)) d = string(r.range(1, 3), '0') + d;
        p(d);
    }
    void strl(const string& s)
    {
        bool dq = quotable(s, '"'), sq = quotable(s, '\'');
        char q = dq && sq ? (r.chance(st.single) ? '\'' : '"') : dq ? '"' : '\'';
        p(q + s + q);
    }
    void flt(double v)
    {
        if(v < 0) p("-");
        string s = ftext(v, r.chance(st.zeros));
        if(r.chance(st.zeros)) s = "0" + s;
        if(r.chance(st.zeros)) s += "0";
        p(s);
    }
    void lit(const Lit& l)
    {
        if(l.k == 'i') intl(l.i);
        else if(l.k == 'f') flt(l.f);
        else strl(l.s);
    }
    void list(const Expr& e)
    {
        p("(");
        size_t n = e.lk == 'i' ? e.il.size() : e.sl.size();
        for(size_t i = 0; i < n; i++) {
            if(i) p(",");
            if(e.lk == 'i') intl(e.il[i]);
            else strl(e.sl[i]);
        }
        p(")");
    }
    void cmp(const Expr& e, const char* op, const char* mirror)
    {
        if(r.chance(st.valuefirst)) {
            lit(e.lit);
            p(mirror);
            ident(e.attr);
        }
        else {
            ident(e.attr);
            p(op);
            lit(e.lit);
        }
    }
    // level: 0 or, 1 and, 2 unary
    void expr(const E& e, int level)
    {
        int mine = e->op == OR ? 0 : e->op == AND ? 1 : 2;
        bool par = mine < level || r.chance(st.paren);
        if(par) p("(");
        switch(e->op) {
        case AND: case OR:
            expr(e->a, mine);
            p(e->op == AND ? (r.chance(st.sym) ? "&&" : "and") : (r.chance(st.sym) ? "||" : "or"));
            // same operator to the right: associativity is irrelevant to the meaning, keep shape with parentheses half of the time
            expr(e->b, e->b->op == e->op && r.chance(0.5) ? mine : mine + 1);
            break;
        case NOT:
            p("not");
            expr(e->a, 2);
            break;
        case TRUE_: p("true"); break;
        case FALSE_: p("false"); break;
        case BVAR: ident(e->attr); break;
        case LT: cmp(*e, "<", ">"); break;
        case LE: cmp(*e, "<=", ">="); break;
        case GT: cmp(*e, ">", "<"); break;
        case GE: cmp(*e, ">=", "<="); break;
        case EQ: cmp(*e, "=", "="); break;
        case NE: cmp(*e, "<>", "<>"); break;
        case IN: case NIN:
            ident(e->attr);
            p(e->op == IN ? "in" : "not in");
            list(*e);
            break;
        case VIN: case VNIN:
            lit(e->lit);
            p(e->op == VIN ? "in" : "not in");
            ident(e->attr);
            break;
        case ONEOF: case NONEOF: case ALLOF:
            ident(e->attr);
            p(e->op == ONEOF ? "one of" : e->op == NONEOF ? "none of" : "all of");
            list(*e);
            break;
        case ISNULL: ident(e->attr); p("is null"); break;
        case ISNOTNULL: ident(e->attr); p("is not null"); break;
        case ISEMPTY: ident(e->attr); p("is empty"); break;
        case FREQ:
            p("within_frequency_cap"); p("("); strl(e->ftype); p(","); strl(e->ns); p(","); intl(e->v); p(","); intl(e->len); p(")");
            break;
        case SEGW: case SEGB:
            p(e->op == SEGW ? "segment_within" : "segment_before");
            p("(");
            if(e->named) { ident(e->attr); p(","); }
            intl(e->v); p(","); intl(e->len); p(")");
            break;
        case GEO:
            p("geo_within_radius"); p("(");
            for(int i = 0; i < 3; i++) {
                double v = i == 0 ? e->lat : i == 1 ? e->lon : e->rad;
                if(i) p(",");
                if(e->geoint) intl((i64)v);
                else flt(v);
            }
            p(")");
            break;
        case CONT: case STARTS: case ENDS:
            p(e->op == CONT ? "contains" : e->op == STARTS ? "starts_with" : "ends_with");
            p("("); ident(e->attr); p(","); strl(e->lit.s); p(")");
            break;
        case BADIN: case BADNIN: p("a in b"); break;
        }
        if(par) p(")");
    }
    string space()
    {
        static const vector<string> sp = { " ", "  ", "\t", "\n", " \t ", "\n  " };
        return r.chance(st.ws) ? r.pick(sp) : " ";
    }
    string join()
    {
        auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.' || (c & 0x80); };
        string s;
        if(r.chance(st.ws)) s += space();
        for(size_t i = 0; i < t.size(); i++) {
            if(i) {
                char a = t[i - 1].back(), b = t[i][0];
                if(word(a) && word(b)) s += space();
                else if(t[i - 1] == "(" || t[i] == ")" || t[i] == "," ) { if(r.chance(st.ws)) s += space(); }
                else if(r.chance(st.ws)) { if(r.chance(0.5)) s += space(); }
                else if(t[i - 1] != "-") s += " ";
            }
            s += t[i];
        }
        if(r.chance(st.ws)) s += space();
        return s;
    }
};

static string spell(Rng& r, const E& e, const Style& st = PLAIN)
{
    Printer p(r, st);
    p.expr(e, 0);
    return p.join();
}

// --------------------------------------------------------------------- events
static i64 ev_int(Rng& r, const Decl& d)
{
    i64 v = r.pick(d.ip);
    if(r.chance(0.3)) v = clampi((__int128)v + r.range(-1, 1));
    if(r.chance(0.05)) v = r.range(-1000, 1000);
    return v;
}
static string ev_str(Rng& r, const Knobs& k, const Decl& d)
{
    if(r.chance(0.15)) {
        string s;
        do s = rndstr(r, k, d.sp);
        while(!usable(s));
        return s;
    }
    return r.pick(d.sp);
}
static Val gen_val(Rng& r, const Knobs& k, const World& w, const Decl& d)
{
    Val v;
    v.def = true;
    bool l = r.chance(k.lng);
    switch(d.ty) {
    case B: v.b = r.chance(0.5); break;
    case I: case IE: v.i = ev_int(r, d); break;
    case F:
        v.f = r.pick(d.fp);
        if(fabs(v.f) < 1e6 && r.chance(0.3)) {
            double f = v.f + (r.chance(0.5) ? 0.25 : -0.25);
            bool close = false;
            for(double o : d.fp) close |= f != o && fabs(f - o) < 1e-9;
            if(!close) v.f = f;
        }
        if(v.f == 0) v.f = 0;
        break;
    case S: v.s = ev_str(r, k, d); break;
    case IL:
        for(int n = (int)r.below(l ? 90 : k.listmax + 3); n > 0; n--) v.il.push_back(l && r.chance(0.7) ? clampi((__int128)r.pick(d.ip) + r.range(-60, 60)) : ev_int(r, d));
        if(r.chance(0.1)) v.il.clear();
        break;
    case SL:
        for(int n = (int)r.below(l ? 60 : k.listmax + 3); n > 0; n--) v.sl.push_back(l && r.chance(0.7) ? "l" + str(r.below(60)) : ev_str(r, k, d));
        if(r.chance(0.1)) v.sl.clear();
        break;
    case SEG: {
        std::map<i64, i64> m;
        for(int n = (int)r.below(l ? 40 : 6); n > 0; n--) {
            i64 sec = r.pick(vector<i64>{ 0, 9, 10, 11, 99, 100, 101, 500, 990, 999, 1000, 1001, 1500, 1990, 2000, 2001 });
            sec += r.chance(0.05) ? 0 : k.epoch;
            m[l && r.chance(0.6) ? r.range(0, 40) : r.pick(d.ip)] = sec * 1000000 + (r.chance(0.5) ? r.range(0, 999999) : 0);
        }
        for(auto& x : m) v.seg.push_back(x);
        break;
    }
    case FC:
        for(int n = (int)r.below(l ? 40 : 6); n > 0; n--) {
            Cap c;
            c.type = r.chance(0.6) ? FTYPES[r.below(3)] : FTYPES[r.below(10)];
            c.id = r.chance(0.8) ? (u64)k.cbase + r.below(l ? 20 : 3) : r.below(UINT32_MAX);
            if(c.id > UINT32_MAX) c.id = UINT32_MAX;
            c.ns = r.chance(0.9) ? r.pick(d.sp) : "other";
            c.tsdef = !k.fcundefts || r.chance(0.85);
            i64 sec = r.pick(vector<i64>{ 0, 10, 90, 99, 100, 500, 990, 999, 1000, 1400, 1500, 1990, 2000 });
            sec += r.chance(0.05) ? 0 : k.epoch;
            c.ts = c.tsdef ? sec * 1000000 + (r.chance(0.5) ? r.range(0, 999999) : 0) : 0;
            c.value = r.chance(0.1) ? r.below(UINT32_MAX) : r.below(6);
            v.fc.push_back(c);
        }
        break;
    }
    return v;
}

static Event gen_event(Rng& r, const Knobs& k, const World& w, const vector<E>& geos)
{
    for(int tries = 0;; tries++) {
        Event e(w.d.size());
        bool miss = r.chance(k.missing);
        int missat = -1;
        if(miss) {
            vector<int> req;
            for(size_t i = 0; i < w.d.size(); i++)
                if(!w.d[i].allow) req.push_back((int)i);
            if(!req.empty()) missat = r.pick(req);
        }
        double u = k.undef;
        if(r.chance(0.1)) u = 0;
        else if(r.chance(0.08)) u = 1;
        for(size_t i = 0; i < w.d.size(); i++) {
            if((int)i == missat || (w.d[i].allow && r.chance(u))) continue;
            e[i] = gen_val(r, k, w, w.d[i]);
        }
        int la = w.find("latitude"), lo = w.find("longitude");
        if(la >= 0 && lo >= 0 && e[la].def && e[lo].def && !geos.empty() && r.chance(0.6)) {
            const E& g = r.pick(geos);
            // near, at or opposite the point of a test
            int z = (int)r.below(7);
            if(z >= 4) {
                // just inside or outside of the circle, in any direction
                double q = g->rad * (1 + r.pick(vector<double>{ -0.1, -0.01, -0.001, 0.001, 0.01, 0.1 })) / 6372.8;
                if(r.chance(0.4)) q = (g->rad + r.pick(vector<double>{ -0.01, -0.002, -0.0004, -0.0003, 0.0003, 0.0004, 0.002, 0.01 })) / 6372.8;
                double b = r.chance(0.5) ? (double)r.below(4) * M_PI / 2 : (double)r.below(3600) * M_PI / 1800;
                double p = g->lat * M_PI / 180, s = sin(p) * cos(q) + cos(p) * sin(q) * cos(b);
                double y = asin(std::min(1.0, std::max(-1.0, s)));
                double x = g->lon * M_PI / 180 + atan2(sin(b) * sin(q) * cos(p), cos(q) - sin(p) * sin(y));
                e[la].f = std::round(y * 180 / M_PI * 1e7) / 1e7, e[lo].f = std::round(remainder(x, 2 * M_PI) * 180 / M_PI * 1e7) / 1e7;
                e[la].f = std::min(90.0, std::max(-90.0, e[la].f));
                e[lo].f = std::min(180.0, std::max(-180.0, e[lo].f));
            }
            else if(z == 0) e[la].f = -g->lat, e[lo].f = g->lon <= 0 ? g->lon + 180 : g->lon - 180;
            else if(z == 1) e[la].f = g->lat, e[lo].f = g->lon;
            else {
                e[la].f = g->lat + (double)r.range(-20, 20) * (z == 2 ? 0.25 : 0.01);
                e[lo].f = g->lon + (double)r.range(-20, 20) * (z == 2 ? 0.25 : 0.01);
                e[la].f = std::min(90.0, std::max(-90.0, e[la].f));
                e[lo].f = std::min(180.0, std::max(-180.0, e[lo].f));
            }
            if(e[la].f == 0) e[la].f = 0;
            if(e[lo].f == 0) e[lo].f = 0;
        }
        bool margin = false;
        for(auto& g : geos) margin |= geo_margin(g, w, e);
        if(!margin || tries > 40) {
            if(margin) {
                if(w.d[la].allow) e[la] = Val();
                else { e[la].f = 12.345, e[lo].f = 54.321; }
            }
            return e;
        }
    }
}

static bool textable(const Event& e)
{
    for(auto& v : e)
        for(auto& c : v.fc)
            if(!c.tsdef) return false;
    return true;
}
static bool required_ok(const World& w, const Event& e)
{
    for(size_t i = 0; i < w.d.size(); i++)
        if(!w.d[i].allow && !e[i].def) return false;
    return true;
}

struct EvStyle {
    double single = 0, ws = 0, null = 0, shuffle = 0, intfloat = 0, zeros = 0, twice = 0;
};
static const EvStyle EVPLAIN = {};
static const EvStyle EVWILD = { 0.4, 0.3, 0.5, 0.8, 0.5, 0.05, 0.02 };

static string event_text(Rng& r, const World& w, const Event& e, const EvStyle& st = EVPLAIN)
{
    auto sp = [&]() -> string {
        static const vector<string> ws = { " ", "\t", "\n", "  " };
        return r.chance(st.ws) ? r.pick(ws) : "";
    };
    auto q = [&](const string& s) {
        bool dq = quotable(s, '"'), sq = quotable(s, '\'');
        char c = dq && sq ? (r.chance(st.single) ? '\'' : '"') : dq ? '"' : '\'';
        return c + s + c;
    };
    auto in = [&](i64 v) {
        string d = v < 0 ? str((u64)0 - (u64)v) : str(v);
        if(r.chance(st.zeros)) d = "00" + d;
        return (v < 0 ? "-" + sp() : string()) + d;
    };
    auto fl = [&](double v) {
        if(v == floor(v) && fabs(v) < 1e15 && r.chance(st.intfloat)) return in((i64)v);
        return (v < 0 ? "-" + sp() : string()) + ftext(v, r.chance(st.zeros));
    };
    auto list = [&](size_t n, std::function<string(size_t)> f) {
        string s = "[" + sp();
        for(size_t i = 0; i < n; i++) s += (i ? "," + sp() : "") + f(i) + sp();
        return s + "]";
    };
    vector<string> items;
    for(size_t i = 0; i < w.d.size(); i++) {
        const Val& v = e[i];
        const Decl& d = w.d[i];
        if(!v.def) {
            if(r.chance(st.null)) items.push_back(q(d.name) + sp() + ":" + sp() + "null");
            continue;
        }
        string t;
        switch(d.ty) {
        case B: t = v.b ? "true" : "false"; break;
        case I: case IE: t = in(v.i); break;
        case F: t = fl(v.f); break;
        case S: t = q(v.s); break;
        case IL: t = list(v.il.size(), [&](size_t j) { return in(v.il[j]); }); break;
        case SL: t = list(v.sl.size(), [&](size_t j) { return q(v.sl[j]); }); break;
        case SEG: t = list(v.seg.size(), [&](size_t j) { return "[" + sp() + in(v.seg[j].first) + "," + sp() + in(v.seg[j].second) + sp() + "]"; }); break;
        case FC:
            t = list(v.fc.size(), [&](size_t j) {
                const Cap& c = v.fc[j];
                if(r.chance(st.single))
                    return "[" + q(c.type) + "," + sp() + in((i64)c.id) + "," + q(c.ns) + "," + sp() + in((i64)c.value) + "," + in(c.ts) + "]";
                return "[[" + q(c.type) + "," + sp() + in((i64)c.id) + "," + q(c.ns) + sp() + "]," + in((i64)c.value) + "," + sp() + in(c.ts) + "]";
            });
            break;
        }
        items.push_back(sp() + q(d.name) + sp() + ":" + sp() + t);
        // saying the same thing again changes nothing
        while(r.chance(st.twice)) items.push_back(items.back());
    }
    if(r.chance(st.shuffle)) r.shuffle(items);
    string s = "{" + sp();
    for(size_t i = 0; i < items.size(); i++) s += (i ? "," + sp() : "") + items[i];
    return s + sp() + "}" + sp();
}

static vector<string> event_spec(Rng& r, const World& w, const Event& e, bool shuffle)
{
    vector<size_t> order;
    for(size_t i = 0; i < w.d.size(); i++)
        if(e[i].def) order.push_back(i);
    if(shuffle) r.shuffle(order);
    vector<string> f = { str(order.size()) };
    for(size_t i : order) {
        const Val& v = e[i];
        const Decl& d = w.d[i];
        f.push_back(str(i));
        f.push_back(TYN[d.ty]);
        f.push_back(d.name);
        switch(d.ty) {
        case B: f.push_back(v.b ? "1" : "0"); break;
        case I: case IE: f.push_back(str(v.i)); break;
        case F: f.push_back(fexact(v.f)); break;
        case S: f.push_back(v.s); break;
        case IL:
            f.push_back(str(v.il.size()));
            for(auto x : v.il) f.push_back(str(x));
            break;
        case SL:
            f.push_back(str(v.sl.size()));
            for(auto& x : v.sl) f.push_back(x);
            break;
        case SEG:
            f.push_back(str(v.seg.size()));
            for(auto& x : v.seg) f.push_back(str(x.first)), f.push_back(str(x.second));
            break;
        case FC:
            f.push_back(str(v.fc.size()));
            for(auto& c : v.fc) {
                f.push_back(c.type);
                f.push_back(str(c.id));
                f.push_back(c.ns);
                f.push_back(c.tsdef ? str(c.ts) : "-");
                f.push_back(str(c.value));
            }
            break;
        }
    }
    return f;
}

// gen --profile P --seed S --from K --count N [--hashes FILE]
// Writes a script for the player on stdout; statistics as JSON on stderr.
// Case i of a profile depends only on (S, P, i).
#include "build.h"
#include <unistd.h>

struct Stats {
    u64 cases = 0, nontrivial = 0, queries = 0, truths = 0, falses = 0, accepted = 0, refused = 0, unspecified = 0, events = 0, refused_events = 0;
};
static Stats stt;
static std::unordered_set<u64> hashes;

struct Sub {
    u64 id;
    E e;
    Consts c;
};
struct Tree {
    int slot = 0;
    const World* w = nullptr;
    vector<Sub> stored;
    std::map<string, std::set<string>> known;
    bool unsure = false; // holds an expression whose acceptance is not specified
    bool lax = false; // batch preparation: declared string capacity is not enforced
};
struct EvH {
    Event e;
    int slot;
    bool text, ok;
};

// answers about expressions whose acceptance is not specified are not judged
static const u64 IGNORE_IDS = 0xA5A5A5A500000000ull;

struct Case {
    Rng r;
    u64 index;
    Knobs k;
    World w;
    vector<E> geos;
    int nev = 0;
    bool nontrivial = false, sawrefuse = false;
    vector<EvH> evs;
    int idscheme = 0;
    Case(u64 seed, u64 i) : r(seed), index(i)
    {
        Rng q(seed ^ 0x1d5);
        idscheme = q.chance(0.6) ? 0 : (int)q.range(1, 7);
        if(q.chance(0.3)) k.cbase = q.pick(vector<i64>{ 0, 1, 254, 65534, INT32_MAX - 1, (i64)INT32_MAX + 1, (i64)UINT32_MAX - 2 });
    }
    // the ids the library sees: ids are any 64 bits
    u64 idmap(u64 id) const
    {
        if(id >= IGNORE_IDS) return id;
        u64 x = id;
        switch(idscheme) {
        case 1: x = id - 1; break;
        case 2: x = id << 32; break;
        case 3: x = UINT64_MAX - id; break;
        case 4: x = id + (1ull << 32) - 8; break;
        case 5: x = id * 0x9E3779B97F4A7C15ull; break;
        case 6: x = id + (1ull << 31) - 8; break;
        case 7: x = id >> 1 | (id & 1) << 63; break;
        }
        return x - IGNORE_IDS < 1ull << 32 ? id : x;
    }

    void declare(int slot, const World& W, const string& cap, const string& part)
    {
        out.line({ "MK", str(slot), cap, part });
        for(auto& d : W.d) declare_attr(slot, d);
    }
    void declare_attr(int slot, const Decl& d)
    {
        vector<string> f = { "VAR", str(slot), TYN[d.ty], d.name, d.allow ? "1" : "0" };
        if(d.ty == S || d.ty == SL || d.ty == IE) {
            if(d.hasMin) f.push_back(str(d.cap));
        }
        else if(d.ty == F) {
            f.push_back(d.hasMin ? fexact(d.fmin) : "*");
            f.push_back(d.hasMax ? fexact(d.fmax) : "*");
        }
        else if(d.ty == I || d.ty == IL) {
            f.push_back(d.hasMin ? str(d.imin) : "*");
            f.push_back(d.hasMax ? str(d.imax) : "*");
        }
        out.line(f);
    }
    Tree make(int slot, const World& W, int cap = -1, int part = 0)
    {
        Tree t;
        t.slot = slot;
        t.w = &W;
        if(cap < 0 && r.chance(0.4)) declare(slot, W, r.chance(0.5) ? "-" : "i", "0");
        else declare(slot, W, str(cap < 0 ? (int)r.pick(vector<int>{ 1, 2, 3, 3, 4, 5, 8, 20 }) : cap), str(part));
        return t;
    }
    void release(Tree& t) { out.line({ "FREE", str(t.slot) }); }

    Consts consts_for(const E& e, bool drop = false)
    {
        std::set<string> need;
        need_consts(e, need);
        Consts c;
        for(auto& n : need) c[n] = k.cbase + (i64)r.below(3);
        if(drop && !c.empty()) c.erase(std::next(c.begin(), (long)r.below(c.size())));
        if(r.chance(0.15)) c["unused_id"] = 7;
        if(r.chance(0.1) && !c.count("flight_id") && !drop) c["flight_id"] = k.cbase + 1;
        return c;
    }
    // a literal (of a mutilated text) that differs from a value of the events by rounding noise only
    static bool near_float(const E& e, const World& W)
    {
        if(e->a && near_float(e->a, W)) return true;
        if(e->b && near_float(e->b, W)) return true;
        if(e->attr.empty() || e->lit.k == 's') return false;
        const Decl* d = W.get(e->attr);
        if(!d || d->ty != F) return false;
        double x = e->lit.k == 'f' ? e->lit.f : (double)e->lit.i;
        for(double v : d->fp)
            if(x != v && fabs(x - v) < 1e-9) return true;
        return false;
    }
    char verdict(const Tree& t, const E& e, const Consts& c)
    {
        if(!e) return '0';
        char a = accept_expr(e, *t.w, c);
        if(a == '1' && near_float(e, *t.w)) a = '?';
        if(a == '0' || t.lax) return a;
        std::map<string, std::set<string>> ns;
        new_strings(e, *t.w, ns);
        for(auto& p : ns) {
            const Decl* d = t.w->get(p.first);
            if(d->cap == UINT64_MAX) continue;
            auto it = t.known.find(p.first);
            u64 u = it == t.known.end() ? 0 : it->second.size();
            for(auto& x : p.second) u += it == t.known.end() || !it->second.count(x);
            if(u > d->cap) return '0';
        }
        return a;
    }
    void learn(Tree& t, const E& e)
    {
        std::map<string, std::set<string>> ns;
        new_strings(e, *t.w, ns);
        for(auto& p : ns) t.known[p.first].insert(p.second.begin(), p.second.end());
    }
    vector<string> args(u64 id, char exp, const Consts& c, const string& text)
    {
        vector<string> f = { str(idmap(id)), string(1, exp), str(c.size()) };
        for(auto& p : c) f.push_back(p.first), f.push_back(str(p.second));
        f.push_back(text);
        return f;
    }
    // direct insertion of a text whose meaning is e (null: not an expression)
    char insert_text(Tree& t, u64 id, const E& e, const Consts& c, const string& text)
    {
        char v = verdict(t, e, c);
        if(v == '?') {
            std::map<string, std::set<string>> ns;
            new_strings(e, *t.w, ns);
            for(auto& p : ns)
                if(t.w->get(p.first)->cap != UINT64_MAX) return v; // would leave the dictionary unknown
            id += IGNORE_IDS;
        }
        // known finding: an ill-typed expression still uses up capacity, see known_findings.json
        if(v == '0' && e && accept_expr(e, *t.w, c) == '0' && all_declared(e, *t.w) && capped_string(e, *t.w, t.known)) return v;
        vector<string> f = { "INS", str(t.slot) };
        for(auto& x : args(id, v, c, text)) f.push_back(x);
        out.line(f);
        if(v == '1') {
            t.stored.push_back({ id, e, c });
            learn(t, e);
            stt.accepted++;
        }
        else if(v == '0') stt.refused++, sawrefuse = true;
        else stt.unspecified++, t.unsure = true;
        return v;
    }
    // a text that may be accepted or refused
    void insert_unsure(Tree& t, u64 id, const Consts& c, const string& text)
    {
        vector<string> f = { "INS", str(t.slot) };
        for(auto& x : args(id + IGNORE_IDS, '?', c, text)) f.push_back(x);
        out.line(f);
        stt.unspecified++, t.unsure = true;
    }
    char insert(Tree& t, u64 id, const E& e, const Consts& c, const Style& st = PLAIN) { return insert_text(t, id, e, c, spell(r, e, st)); }
    // prepare only
    char prepare(Tree& t, int subslot, u64 id, const E& e, const Consts& c, const string& text)
    {
        bool was = t.lax;
        t.lax = true;
        char v = verdict(t, e, c);
        t.lax = was;
        if(v == '?') return v;
        vector<string> f = { "SUB", str(t.slot), str(subslot) };
        for(auto& x : args(id, v, c, text)) f.push_back(x);
        out.line(f);
        if(v == '1') stt.accepted++;
        else if(v == '0') stt.refused++, sawrefuse = true;
        return v;
    }
    void put(Tree& t, int subslot, const Sub& s)
    {
        out.line({ "PUT", str(t.slot), str(subslot) });
        t.stored.push_back(s);
    }
    void bound(Tree& t, char exp, const string& text) { out.line({ "BND", str(t.slot), string(1, exp), text }); }

    EvH& event(const World& W, const Event& e, const EvStyle& st = EVPLAIN, bool shuffle = false)
    {
        EvH h;
        h.e = e;
        h.slot = nev++;
        h.text = textable(e);
        h.ok = required_ok(W, e);
        if(h.text) out.line({ "EV", str(h.slot), event_text(r, W, e, st) });
        vector<string> f = { "EO", str(h.slot), "0" };
        for(auto& x : event_spec(r, W, e, shuffle)) f.push_back(x);
        out.line(f);
        evs.push_back(h);
        stt.events++;
        if(!h.ok) stt.refused_events++;
        return evs.back();
    }
    EvH& random_event() { return event(w, gen_event(r, k, w, geos)); }

    void query(const Tree& t, const EvH& h, char kind, const vector<string>& flags = {})
    {
        if(t.unsure && (kind == 'X' || kind == 'x')) kind = kind == 'X' ? 'S' : 's';
        if((kind == 'S' || kind == 'X') && !h.text) kind = kind == 'S' ? 's' : 'x';
        vector<u64> ids;
        if(h.ok)
            for(auto& s : t.stored) {
                bool b = ev(s.e, *t.w, h.e, s.c);
                (b ? stt.truths : stt.falses)++;
                if(b) ids.push_back(idmap(s.id));
            }
        if(!ids.empty() && ids.size() < t.stored.size()) nontrivial = true;
        std::sort(ids.begin(), ids.end());
        string l;
        for(size_t i = 0; i < ids.size(); i++) l += (i ? "," : "") + str(ids[i]);
        vector<string> f = { "Q", str(t.slot), string(1, kind), str(h.slot), h.ok ? "1" : "0", l };
        f.insert(f.end(), flags.begin(), flags.end());
        out.line(f);
        stt.queries++;
    }
    void note_geo(const E& e)
    {
        if(e->a) note_geo(e->a);
        if(e->b) note_geo(e->b);
        if(e->op == GEO) geos.push_back(e);
    }
    E expr(int depth = -1)
    {
        E e = gen_expr(r, k, w, depth < 0 ? (int)r.range(0, k.depth) : depth);
        note_geo(e);
        return e;
    }
    vector<Sub> exprs(int n, u64 base = 1)
    {
        vector<Sub> v;
        for(int i = 0; i < n; i++) {
            E e = expr();
            v.push_back({ base + (u64)i, e, consts_for(e) });
        }
        return v;
    }
};

static const vector<int> CAPS = { 1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 64, 255, 256, 300, 512, 1000 };
static const vector<int> PARTS = { 0, 0, 0, 1, 2, 3, 5, 8, 20, 100, 255, 256, 600 };

// ------------------------------------------------------------------- profiles
// everything mixed, one tree
static i64 any_epoch(Rng& r)
{
    return r.chance(0.5) ? 0 : r.pick(vector<i64>{ 1700000000, 1760000000, (1LL << 31) - 1000, 1LL << 31, 2500000000LL, (1LL << 32) - 1000, (1LL << 32) + 5000, 9000000000000LL });
}
static void p_mixed(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.25);
    c.k.amin = 1, c.k.amax = r.chance(0.2) ? 20 : 8;
    c.k.depth = (int)r.range(1, 4);
    c.k.smalldom = r.chance(0.4);
    c.k.extreme = r.chance(0.15);
    if(r.chance(0.2)) c.k.epoch = any_epoch(r);
    c.k.opt = r.pick(vector<double>{ 0.1, 0.5, 0.9 });
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.chance(0.5) ? -1 : r.pick(CAPS), r.chance(0.6) ? 0 : r.pick(PARTS));
    int n = (int)(r.chance(0.15) ? r.range(60, 150) : r.range(1, 40));
    for(auto& s : c.exprs(n)) c.insert(t, s.id, s.e, s.c, r.chance(0.3) ? WILD : PLAIN);
    for(int i = 0, m = (int)r.range(4, 9); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        if(r.chance(0.2)) c.query(t, h, r.chance(0.5) ? 'X' : 'x');
    }
}

// few attributes with small bounded domains, many expressions, several shapes
static void p_shape(Case& c)
{
    Rng& r = c.r;
    c.k.smalldom = r.chance(0.85);
    c.k.extreme = r.chance(0.1);
    c.k.amin = 1, c.k.amax = 5;
    c.k.capped = 0.5;
    c.k.wt = { 1, 6, 3, 3, 3, 2, 0, 0, 2 };
    if(r.chance(0.2)) c.k.wt = { 0, 1, 0, 0, 0, 0, 0, 0, 0 };
    if(r.chance(0.1)) c.k.wt = { 0, 0, 1, 0, 0, 0, 0, 0, 0 };
    if(r.chance(0.1)) c.k.wt = { 0, 0, 0, 0, 1, 0, 0, 0, 0 };
    c.k.opt = r.pick(vector<double>{ 0.0, 0.3, 0.7 });
    c.k.depth = (int)r.range(0, 2);
    c.k.poolmin = 6, c.k.poolmax = 16;
    c.k.nullp = 0.08, c.k.missing = 0.02;
    c.k.undef = 0.25;
    c.w = make_world(r, c.k);
    // strings must fit the declared capacity, or which insertions fit depends on order
    for(auto& d : c.w.d)
        if(d.cap != UINT64_MAX) d.cap = std::max<u64>(d.cap, 40);
    int n = (int)r.range(5, r.chance(0.3) ? 220 : 70);
    auto subs = c.exprs(n);
    if(r.chance(0.4)) // the same identifier several times
        for(auto& s : subs)
            if(r.chance(0.3)) s.id = (u64)r.range(1, 4);
    if(r.chance(0.3)) // the same expression several times
        for(int i = 0; i < 10; i++) {
            Sub s = r.pick(subs);
            if(r.chance(0.5)) s.id = 1000 + (u64)i;
            subs.push_back(s);
        }
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(3, 8); i < m; i++) es.push_back(c.random_event());
    int nt = (int)r.range(2, 4);
    for(int ti = 0; ti < nt; ti++) {
        Tree t = ti == 0 ? c.make(ti, c.w, 3, 0) : c.make(ti, c.w, r.pick(CAPS), r.pick(PARTS));
        if(ti) r.shuffle(subs);
        bool inter = r.chance(0.4);
        for(auto& s : subs) {
            c.insert(t, s.id, s.e, s.c);
            if(inter && r.chance(0.1)) c.query(t, r.pick(es), 'S');
        }
        for(auto& h : es) c.query(t, h, r.chance(0.5) ? 'S' : 's');
        if(r.chance(0.5)) c.release(t);
    }
}

// undefined attributes and early decisions
static void p_undef(Case& c)
{
    Rng& r = c.r;
    c.k.opt = 0.9;
    c.k.undef = r.pick(vector<double>{ 0.3, 0.6, 0.9 });
    c.k.seg = r.chance(0.4), c.k.fc = r.chance(0.4), c.k.geo = r.chance(0.35);
    c.k.nullp = 0.25, c.k.notp = 0.35, c.k.litb = 0.06;
    c.k.depth = (int)r.range(1, 5);
    c.k.amin = 1, c.k.amax = r.chance(0.15) ? 70 : 5;
    c.k.missing = 0.01;
    c.k.capped = 0;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w);
    auto subs = c.exprs((int)r.range(1, 14));
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(5, 10); i < m; i++) es.push_back(c.random_event());
    for(auto& s : subs) c.insert(t, s.id, s.e, s.c);
    for(auto& h : es) c.query(t, h, r.chance(0.5) ? 'S' : 's');
    // each alone: nothing shared, nothing remembered
    int slot = 1;
    for(auto& s : subs) {
        if(slot > 8) break;
        Tree a = c.make(slot++, c.w, 3);
        c.insert(a, s.id, s.e, s.c);
        for(auto& h : es) c.query(a, h, 's');
    }
}

// values that tell an expression from one that resembles it
struct Hot { string attr, s; i64 i; };
static vector<Hot> hot;
static E tweak(Rng& r, const Knobs& k, const World& w, const E& e)
{
    // a sub-expression that resembles e
    auto x = std::make_shared<Expr>(*e);
    switch(e->op) {
    case AND: case OR:
        if(r.chance(0.3)) x->op = e->op == AND ? OR : AND;
        else if(r.chance(0.3)) std::swap(x->a, x->b);
        else if(r.chance(0.5)) x->a = tweak(r, k, w, e->a);
        else x->b = tweak(r, k, w, e->b);
        return x;
    case NOT: return r.chance(0.5) ? e->a : E(mkn(tweak(r, k, w, e->a)));
    case LT: case LE: case GT: case GE: case EQ: case NE: {
        const Decl* d = w.get(e->attr);
        if(r.chance(0.4) && e->lit.k != 's' && d->ty != IE) x->op = (Op)(LT + r.below(6));
        else if(e->lit.k == 's') {
            if(r.chance(0.5)) x->op = e->op == EQ ? NE : EQ;
            else x->lit.s = r.pick(d->sp);
        }
        else if(d->ty == F) {
            if(r.chance(0.3) && e->lit.k == 'i') x->lit.k = 'f', x->lit.f = (double)e->lit.i;
            else { x->lit.k = 'f'; x->lit.f = r.pick(d->fp); }
        }
        else x->lit.i = clampi((__int128)e->lit.i + r.range(-1, 1));
        // the same test on another attribute of the same type
        if(r.chance(0.3))
            for(int i = 0; i < 10; i++) {
                auto& o = w.d[r.below(w.d.size())];
                if(o.ty == d->ty) { x->attr = o.name; break; }
            }
        return x;
    }
    case IN: case NIN: case ONEOF: case NONEOF: case ALLOF: {
        int z = (int)r.below(6);
        if(z >= 3) { // one other value in a list of the same length
            if(e->lk == 'i') {
                i64& v = x->il[r.below(x->il.size())];
                hot.push_back({ e->attr, "", v });
                v = lit_int(r, *w.get(e->attr));
                if(r.chance(0.5)) v = clampi((__int128)hot.back().i + r.range(-3, 3));
                hot.push_back({ e->attr, "", v });
            }
            else {
                string& v = x->sl[r.below(x->sl.size())];
                hot.push_back({ e->attr, v, 0 });
                v = r.pick(w.get(e->attr)->sp);
                hot.push_back({ e->attr, v, 0 });
            }
        }
        else if(z == 0) x->op = e->op == IN ? NIN : e->op == NIN ? IN : (Op)(ONEOF + r.below(3));
        else if(z == 1) {
            if(e->lk == 'i') x->il.push_back(lit_int(r, *w.get(e->attr)));
            else x->sl.push_back(r.pick(w.get(e->attr)->sp));
        }
        else {
            if(e->lk == 'i') { if(x->il.size() > 1) x->il.pop_back(); else x->il[0] = lit_int(r, *w.get(e->attr)); r.shuffle(x->il); }
            else { if(x->sl.size() > 1) x->sl.pop_back(); r.shuffle(x->sl); }
        }
        return x;
    }
    case VIN: case VNIN:
        if(r.chance(0.5)) x->op = e->op == VIN ? VNIN : VIN;
        else if(e->lit.k == 'i') x->lit.i = lit_int(r, *w.get(e->attr));
        else x->lit.s = r.pick(w.get(e->attr)->sp);
        return x;
    case ISNULL: x->op = ISNOTNULL; return x;
    case ISNOTNULL: x->op = ISNULL; return x;
    case FREQ:
        switch(r.below(4)) {
        case 0: x->v = e->v == INT64_MAX ? 0 : e->v + 1; break;
        case 1: x->len = e->len == INT64_MAX ? 0 : e->len + 1; break;
        case 2: x->ftype = FTYPES[r.below(10)]; break;
        default: x->ns = r.pick(w.get("frequency_caps")->sp);
        }
        return x;
    case SEGW: case SEGB:
        if(r.chance(0.4)) x->op = e->op == SEGW ? SEGB : SEGW;
        else if(r.chance(0.5)) x->len = e->len == INT64_MAX ? 5 : e->len + 1;
        else x->v = e->v == INT64_MAX ? 1 : e->v + 1;
        return x;
    case CONT: case STARTS: case ENDS:
        if(r.chance(0.6)) x->op = (Op)(CONT + r.below(3));
        else {
            hot.push_back({ e->attr, e->lit.s, 0 });
            x->lit.s = r.pick(w.get(e->attr)->sp);
        }
        return x;
    case GEO:
        if(r.chance(0.5)) x->rad = e->rad + 1000;
        else x->lat = e->lat > 0 ? e->lat - 10 : e->lat + 10;
        return x;
    default: return e;
    }
}

// repeated, resembling and containing sub-expressions
static void p_share(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.35), c.k.fc = r.chance(0.35), c.k.geo = r.chance(0.3);
    c.k.amin = 2, c.k.amax = 5;
    c.k.opt = r.pick(vector<double>{ 0.2, 0.6 });
    c.k.capped = 0;
    c.k.poolmin = 2, c.k.poolmax = 5;
    c.k.missing = 0.02;
    c.k.lng = r.chance(0.3) ? 0.5 : 0.05;
    c.k.stem = 0.15;
    c.w = make_world(r, c.k);
    hot.clear();
    vector<E> pool;
    for(int i = 0, n = (int)r.range(3, r.chance(0.2) ? 90 : 10); i < n; i++) {
        E e = pool.empty() || r.chance(0.5) ? gen_expr(r, c.k, c.w, (int)r.range(0, 2)) : tweak(r, c.k, c.w, r.pick(pool));
        c.note_geo(e);
        pool.push_back(e);
    }
    vector<Sub> subs;
    int n = (int)r.range(4, r.chance(0.2) ? 120 : 25);
    for(int i = 0; i < n; i++) {
        E e = r.pick(pool);
        for(int d = (int)r.below(4); d > 0; d--) {
            E o = r.chance(0.85) ? r.pick(pool) : c.expr(1);
            int z = (int)r.below(5);
            e = z == 0 ? mkn(e) : z <= 2 ? mkb(AND, e, o) : mkb(OR, o, e);
        }
        subs.push_back({ (u64)i + 1, e, c.consts_for(e) });
    }
    Tree t = c.make(0, c.w);
    for(auto& s : subs) c.insert(t, s.id, s.e, s.c, r.chance(0.3) ? WILD : PLAIN);
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(4, 8); i < m; i++) {
        Event e = gen_event(r, c.k, c.w, c.geos);
        if(!hot.empty() && r.chance(0.5)) {
            auto& o = r.pick(hot);
            int at = c.w.find(o.attr);
            Val& v = e[at];
            v.def = true;
            switch(c.w.d[at].ty) {
            case I: case IE: v.i = o.i; break;
            case IL: v.il = { o.i }; break;
            case S: v.s = o.s; break;
            case SL: v.sl = { o.s }; break;
            default: v = e[at];
            }
        }
        es.push_back(c.event(c.w, e));
    }
    for(auto& h : es) c.query(t, h, r.chance(0.5) ? 'S' : 's');
    int slot = 1;
    for(int i = 0; i < 6; i++) {
        auto& s = r.pick(subs);
        Tree a = c.make(slot++, c.w, 3);
        c.insert(a, s.id, s.e, s.c);
        for(auto& h : es) c.query(a, h, 's');
    }
}

static void p_exists(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.2), c.k.fc = r.chance(0.2), c.k.geo = r.chance(0.15);
    c.k.amin = 1, c.k.amax = 6;
    c.k.missing = 0.25;
    c.k.opt = 0.5;
    c.k.smalldom = r.chance(0.5);
    c.k.litb = r.chance(0.2) ? 0.2 : 0.02;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), r.pick(PARTS));
    int n = (int)(r.chance(0.1) ? 0 : r.chance(0.6) ? r.range(1, 5) : r.range(6, 60));
    bool rare = r.chance(0.5);
    for(auto& s : c.exprs(n)) {
        E e = s.e;
        if(rare) {
            for(int i = 0; i < 3; i++) e = mkb(AND, e, c.expr(1)); // rarely true
            s.c = c.consts_for(e);
        }
        c.insert(t, s.id, e, s.c);
    }
    for(int i = 0, m = (int)r.range(5, 10); i < m; i++) {
        EvH h = c.random_event();
        vector<char> q = { 'X', 'x', 'S', 's' };
        r.shuffle(q);
        for(char x : q) c.query(t, h, x);
        if(r.chance(0.3)) {
            out.line({ "OBJ", str(h.slot), "0" });
            c.query(t, h, 'y');
            c.query(t, h, 'r');
            c.query(t, h, 'y');
        }
    }
}

// repeated and interleaved queries, reused event objects, insertions in between
static void p_repeat(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.amin = 1, c.k.amax = 6;
    c.k.smalldom = r.chance(0.4);
    c.k.wt = { 1, 3, 2, 4, 3, 5, 0, 0, 3 };
    c.k.missing = 0.1;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    auto subs = c.exprs((int)r.range(2, 30));
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(2, 6); i < m; i++) {
        es.push_back(c.random_event());
        out.line({ "OBJ", str(es.back().slot), "0" });
    }
    bool change = r.chance(0.5);
    vector<EvH> past;
    size_t next = 0;
    for(int step = 0, m = (int)r.range(15, 40); step < m; step++) {
        if(next < subs.size() && r.chance(0.45)) {
            for(int j = (int)r.range(1, 4); j > 0 && next < subs.size(); j--, next++) c.insert(t, subs[next].id, subs[next].e, subs[next].c);
        }
        else if(change && r.chance(0.35)) {
            // the same object with other values, also those of an event seen before
            size_t i = r.below(es.size());
            if(r.chance(0.4) && !past.empty()) {
                EvH h = r.pick(past);
                bool live = false;
                for(auto& e : es) live |= e.slot == h.slot;
                if(live) continue;
                out.line({ "SETV", str(h.slot), str(es[i].slot) });
                past.push_back(es[i]);
                es[i] = h;
            }
            else {
                Event e = es[i].e;
                Event o = gen_event(r, c.k, c.w, c.geos);
                for(size_t j = 0, k = r.below(e.size()); j < e.size(); j++)
                    if(j == k || r.chance(0.2)) e[j] = o[j];
                bool margin = false;
                for(auto& g : c.geos) margin |= geo_margin(g, c.w, e);
                if(margin) continue;
                EvH h = c.event(c.w, e);
                out.line({ "SETV", str(h.slot), str(es[i].slot) });
                past.push_back(es[i]);
                es[i] = h;
            }
            c.query(t, es[i], "rrry"[r.below(4)]);
        }
        else c.query(t, r.pick(es), "rrrrySsXx"[r.below(9)]);
    }
    for(auto& h : es) c.query(t, h, 'r'), c.query(t, h, 'r'), c.query(t, h, 'S');
}

// one event, many ways to give it
static void p_events(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.4), c.k.fc = r.chance(0.4), c.k.geo = r.chance(0.3);
    c.k.fcundefts = false;
    c.k.amin = 1, c.k.amax = 9;
    c.k.missing = 0.1;
    c.k.extreme = r.chance(0.3);
    c.k.wt = { 2, 4, 5, 3, 3, 3, 0, 0, 2 };
    c.w = make_world(r, c.k);
    // "is empty" and list tests on the empty list written as text
    Tree t = c.make(0, c.w);
    for(auto& s : c.exprs((int)r.range(3, 25))) c.insert(t, s.id, s.e, s.c);
    for(int i = 0, m = (int)r.range(2, 4); i < m; i++) {
        Event e = gen_event(r, c.k, c.w, c.geos);
        EvH h = c.event(c.w, e);
        c.query(t, h, 'S');
        c.query(t, h, 's');
        for(int j = 0; j < 5; j++) {
            EvStyle st = EVWILD;
            if(j == 0) st = { 0, 0, 0, 1, 0, 0 };
            if(j == 1) st = { 0, 0, 0, 0, 1, 0 };
            if(j == 2) st = { 0, 0, 1, 0, 0, 0 };
            EvH g = c.event(c.w, e, st, true);
            c.query(t, g, r.chance(0.8) ? 'S' : 'X');
            if(r.chance(0.3)) c.query(t, g, 's');
        }
    }
}

static void p_required(Case& c)
{
    Rng& r = c.r;
    c.k.amin = 1, c.k.amax = r.chance(0.2) ? 160 : 10;
    c.k.opt = r.pick(vector<double>{ 0.1, 0.5, 0.8 });
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.litb = 0.1;
    c.k.depth = 2;
    c.k.undef = r.pick(vector<double>{ 0.1, 0.5, 0.9, 1.0 });
    c.k.missing = 0;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), r.pick(PARTS));
    int n = r.chance(0.1) ? 0 : (int)r.range(1, 30);
    auto subs = c.exprs(n);
    if(r.chance(0.5)) subs.push_back({ 500, mk(TRUE_), {} });
    for(auto& s : subs) c.insert(t, s.id, s.e, s.c);
    for(int i = 0; i < 4; i++) {
        Event e = gen_event(r, c.k, c.w, c.geos);
        EvH h = c.event(c.w, e, r.chance(0.5) ? EVWILD : EVPLAIN, true);
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        vector<int> req;
        for(size_t j = 0; j < c.w.d.size(); j++)
            if(!c.w.d[j].allow) req.push_back((int)j);
        r.shuffle(req);
        // each required attribute in turn (up to a few), first and last among them
        for(size_t j = 0; j < req.size() && j < 5; j++) {
            Event g = e;
            g[req[j]] = Val();
            if(r.chance(0.2)) g[r.pick(req)] = Val();
            EvH q = c.event(c.w, g, r.chance(0.5) ? EVWILD : EVPLAIN, true);
            c.query(t, q, "SsXx"[r.below(4)]);
            c.query(t, q, "Ss"[r.below(2)]);
            c.nontrivial = true;
        }
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
    }
}

static string damage(Rng& r, const string& s)
{
    static const vector<string> junk = { "&", "|", "!", ";", "==", "=", "and", "or", "not", "(", ")", ",", "'", "\"", "in", "not in", "one of",
        "1", "-", "1.5", "\"x\"", "is null", "is", "null", "#", "@", "true", "zzz", "\\", "\x01", "\xc3", "\r", ".", "<>", "<", "<=", "{", "}", "%", "5x", "$", "a b",
        "within_frequency_cap(", "segment_within(", "geo_within_radius(1,2)", "contains(", "--", "99999999999999999999" };
    string t = s;
    for(int i = (int)r.range(1, 2); i > 0; i--) {
        size_t p = r.below(t.size() + 1);
        switch(r.below(9)) {
        case 0: t = t.substr(0, p); break;
        case 1: t = t.substr(p); break;
        case 2: if(p < t.size()) t.erase(p, 1); break;
        case 3: t.insert(p, r.pick(junk)); break;
        case 4: t += " " + r.pick(junk); break;
        case 5: t = r.pick(junk) + " " + t; break;
        case 6: t += " " + r.pick(junk) + " " + s; break;
        case 7: if(p < t.size()) t[p] = (char)r.range(1, 255); break;
        default: {
            size_t q = r.below(t.size() + 1);
            if(p > q) std::swap(p, q);
            t.erase(p, q - p);
        }
        }
    }
    return t;
}

// an expression tree that breaks a rule of names or types
static E mistype(Rng& r, const Knobs& k, const World& w, const E& e)
{
    if(e->a) {
        if(e->b && r.chance(0.5)) return mkb(e->op, e->a, mistype(r, k, w, e->b));
        auto x = std::make_shared<Expr>(*e);
        x->a = mistype(r, k, w, e->a);
        return x;
    }
    auto x = std::make_shared<Expr>(*e);
    int z = (int)r.below(4);
    if(z == 0 || e->attr.empty()) { // unknown attribute
        auto y = std::make_shared<Expr>(*gen_atom(r, k, w));
        if(!y->attr.empty()) {
            y->attr = r.pick(vector<string>{ "missing", "zzz", "a1b2", y->attr + "x" });
            if(y->op == SEGW || y->op == SEGB) y->named = true;
        }
        return y;
    }
    if(z <= 2) { // another attribute, usually of another type
        x->attr = w.d[r.below(w.d.size())].name;
        if(x->op == SEGW || x->op == SEGB) x->named = true;
        return x;
    }
    // operators without a declared counterpart
    switch(r.below(6)) {
    case 0: { auto y = mk(FREQ); y->ftype = r.pick(vector<string>{ "campaign", "nothing", "", "campaign:", "CAMPAIGN", "flight" }); y->ns = "ns"; y->v = 1; y->len = 10; return y; }
    case 1: { auto y = mk(SEGW); y->v = 1; y->len = 10; if(r.chance(0.5)) { y->named = true; y->attr = e->attr; } return y; }
    case 2: return gen_geo(r);
    case 3: { auto y = mk((Op)(CONT + r.below(3))); y->attr = e->attr; y->lit.k = 's'; y->lit.s = "p"; return y; }
    case 4: { auto y = mk(ISEMPTY); y->attr = e->attr; return y; }
    default: { auto y = mk(BVAR); y->attr = e->attr; return y; }
    }
}

static string bad_set(Rng& r, const World& w)
{
    string a = w.d[r.below(w.d.size())].name, b = w.d[r.below(w.d.size())].name;
    switch(r.below(8)) {
    case 0: return a + " in " + b;
    case 1: return a + " not in " + b;
    case 2: return "1 in (1,2)";
    case 3: return "\"x\" not in (\"x\")";
    case 4: return a + " in nosuch";
    case 5: return "nosuch in " + b;
    case 6: return "1 in (\"x\")";
    default: return "not (" + a + " in " + b + ") and true";
    }
}

static void p_refuse(Case& c)
{
    Rng& r = c.r;
    bool full = r.chance(0.4);
    c.k.seg = full || r.chance(0.2), c.k.fc = full || r.chance(0.2), c.k.geo = full || r.chance(0.2);
    c.k.amin = 1, c.k.amax = 7;
    c.k.capped = 0.3;
    c.k.missing = 0.05;
    c.w = make_world(r, c.k);
    if(!full && r.chance(0.3)) { // a special attribute of the wrong type
        Decl d;
        d.name = r.pick(vector<string>{ "now", "latitude", "longitude", "frequency_caps", "segments_with_timestamp" });
        if(c.w.find(d.name) < 0) {
            d = make_decl(r, c.k, d.name, r.pick(vector<Ty>{ B, I, F, S, IL, SL }));
            c.w.add(d);
        }
    }
    Tree t = c.make(0, c.w, r.pick(CAPS), 0), u = c.make(1, c.w, 3, 0);
    u.lax = true;
    vector<EvH> es;
    vector<Sub> good = c.exprs((int)r.range(2, 15));
    for(int i = 0; i < 5; i++) es.push_back(c.random_event());
    bool batch = r.chance(0.5);
    // tree u receives only the good ones (prepared), tree t good and bad
    u64 id = 10000;
    int ss = 0;
    vector<std::pair<int, Sub>> ready;
    auto prepare_bad = [&](const E& e, const Consts& cs, const string& text) {
        if(!batch) return;
        u.lax = true;
        char v = e ? accept_expr(e, *u.w, cs) : '0';
        if(v == '0') c.prepare(u, ss++, id++, e, cs, text);
    };
    for(auto& s : good) {
        for(int b = (int)r.below(4); b > 0; b--) {
            string text;
            E e;
            Consts cs;
            int z = (int)r.below(10);
            if(z < 4) {
                E base = r.chance(0.5) ? r.pick(good).e : c.expr();
                text = damage(r, spell(r, base, r.chance(0.5) ? WILD : PLAIN));
                e = parse_text(text);
                cs = e ? c.consts_for(e) : Consts();
            }
            else if(z < 7) {
                e = mistype(r, c.k, c.w, r.chance(0.5) ? r.pick(good).e : c.expr());
                c.note_geo(e);
                cs = c.consts_for(e);
                text = spell(r, e);
            }
            else if(z == 7) {
                text = bad_set(r, c.w);
                e = parse_text(text);
            }
            else if(z == 8) {
                e = r.chance(0.5) ? r.pick(good).e : c.expr();
                cs = c.consts_for(e, true);
                text = spell(r, e);
            }
            else { // needs too many strings: several branches together
                e = mkb(OR, mkb(AND, c.expr(1), c.expr(1)), c.expr(2));
                cs = c.consts_for(e);
                text = spell(r, e);
            }
            // the meaning of an accepted text may involve geo tests unknown to the events
            if(e) {
                bool margin = false;
                for(auto& h : es) margin |= geo_margin(e, c.w, h.e);
                if(margin) continue;
            }
            if(text.find('\0') != string::npos) continue;
            prepare_bad(e, cs, text);
            c.insert_text(t, id++, e, cs, text);
            if(r.chance(0.3)) {
                char v = e ? accept_expr(e, c.w, cs) : '0';
                std::set<string> need;
                if(e) need_consts(e, need);
                // boundaries: refused for syntax, names and types; constants play no part
                if(v == '0' && e) {
                    Consts all;
                    for(auto& n : need) all[n] = 1;
                    v = accept_expr(e, c.w, all);
                }
                if(v == '0') c.bound(r.chance(0.5) ? t : u, '0', text);
            }
        }
        c.insert(t, s.id, s.e, s.c);
        if(batch) {
            if(c.prepare(u, ss, s.id, s.e, s.c, spell(r, s.e)) == '1') ready.push_back({ ss, s });
            ss++;
        }
        if(r.chance(0.2)) c.query(t, r.pick(es), "SsXx"[r.below(4)]);
    }
    for(auto& p : ready) c.put(u, p.first, p.second);
    for(auto& h : es) {
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        if(batch) c.query(u, h, r.chance(0.5) ? 'S' : 's');
    }
}

// spellings and logical rewritings of the same expressions side by side
static void p_spell(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.3);
    c.k.amin = 1, c.k.amax = 6;
    c.k.capped = 0;
    c.k.depth = (int)r.range(1, 5);
    c.k.extreme = r.chance(0.2);
    c.k.missing = 0.02;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    u64 id = 1;
    for(int i = 0, n = (int)r.range(1, 8); i < n; i++) {
        E e = c.expr();
        Consts cs = c.consts_for(e);
        c.insert(t, id++, e, cs, PLAIN);
        for(int j = 0; j < 4; j++) c.insert(t, id++, e, cs, WILD);
        for(int j = 0; j < 3; j++) {
            E w = rewrite(r, e);
            c.insert(t, id++, w, cs, r.chance(0.5) ? WILD : PLAIN);
            c.insert(t, id++, mkn(w), cs, r.chance(0.5) ? WILD : PLAIN);
        }
        // precedence without parentheses: text built by hand, meaning from the parser model
        string s;
        int m = (int)r.range(2, 6);
        for(int j = 0; j < m; j++) {
            if(j) s += r.pick(vector<string>{ " and ", " or ", " && ", " || ", "&&", "||" });
            if(r.chance(0.35)) s += "not ";
            E a = gen_atom(r, c.k, c.w);
            if(a->op == GEO) continue;
            string at = spell(r, a);
            s += at;
        }
        E p = parse_text(s);
        if(p) c.insert_text(t, id++, p, c.consts_for(p), s);
    }
    for(int i = 0, m = (int)r.range(4, 8); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
    }
}

static E perm_list(Rng& r, const E& e)
{
    auto x = std::make_shared<Expr>(*e);
    if(x->il.size()) {
        for(int i = (int)r.below(3); i > 0; i--) x->il.push_back(r.pick(x->il));
        r.shuffle(x->il);
    }
    if(x->sl.size()) {
        for(int i = (int)r.below(3); i > 0; i--) x->sl.push_back(r.pick(x->sl));
        r.shuffle(x->sl);
    }
    return x;
}

static void p_lists(Case& c)
{
    Rng& r = c.r;
    c.k.wt = { 0, 2, 0, 2, 6, 6, 0, 0, 0 };
    c.k.amin = 1, c.k.amax = 4;
    c.k.depth = (int)r.below(3);
    c.k.smalldom = r.chance(0.5);
    c.k.extreme = r.chance(0.15);
    c.k.poolmin = 2, c.k.poolmax = r.chance(0.2) ? 60 : 8;
    c.k.listmax = r.chance(0.2) ? 50 : 6;
    c.k.capped = r.chance(0.3) ? 0.5 : 0;
    c.k.opt = 0.4;
    c.k.missing = 0.02;
    c.w = make_world(r, c.k);
    for(auto& d : c.w.d)
        if(d.cap != UINT64_MAX) d.cap = std::max<u64>(d.cap, 5);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    u64 id = 1;
    for(int i = 0, n = (int)r.range(3, 30); i < n; i++) {
        E e = c.expr();
        c.insert(t, id++, e, {});
        if(!e->a && r.chance(0.5)) c.insert(t, id++, perm_list(r, e), {});
        if(!e->a && r.chance(0.3)) c.insert(t, id++, mkb(r.chance(0.5) ? AND : OR, perm_list(r, e), mkn(e)), {});
    }
    for(int i = 0, m = (int)r.range(4, 7); i < m; i++) {
        Event e = gen_event(r, c.k, c.w, c.geos);
        EvH h = c.event(c.w, e);
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        for(auto& v : e) {
            r.shuffle(v.il);
            r.shuffle(v.sl);
            if(v.il.size() && r.chance(0.7)) v.il.push_back(r.pick(v.il)), r.shuffle(v.il);
            if(v.sl.size() && r.chance(0.7)) v.sl.push_back(r.pick(v.sl)), r.shuffle(v.sl);
        }
        EvH g = c.event(c.w, e);
        c.query(t, g, r.chance(0.5) ? 'S' : 's');
    }
}

static void p_numeric(Case& c)
{
    Rng& r = c.r;
    c.k.wt = { 0, 6, 5, 0, 3, 0, 0, 0, 1 };
    c.k.extreme = r.chance(0.8);
    c.k.smalldom = r.chance(0.2);
    c.k.bounded = 0.85;
    c.k.amin = 1, c.k.amax = 3;
    c.k.depth = (int)r.below(3);
    c.k.opt = 0.3;
    c.k.nullp = 0.05, c.k.missing = 0.02, c.k.undef = 0.15;
    c.k.poolmin = 4, c.k.poolmax = 12;
    c.k.near = 0.5;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.chance(0.6) ? (int)r.range(1, 3) : r.pick(CAPS), 0);
    auto subs = c.exprs((int)r.range(3, r.chance(0.3) ? 100 : 30));
    for(auto& s : subs) c.insert(t, s.id, s.e, s.c, r.chance(0.2) ? WILD : PLAIN);
    for(int i = 0, m = (int)r.range(5, 10); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
    }
}

// boundary inference and batch insertion
static void p_bounds(Case& c)
{
    Rng& r = c.r;
    bool strings = r.chance(0.5);
    c.k.wt = strings ? vector<int>{ 1, 4, 3, 3, 3, 3, 0, 0, 2 } : vector<int>{ 1, 5, 4, 0, 4, 0, 0, 0, 0 };
    c.k.bounded = r.pick(vector<double>{ 0, 0.3, 0.8 });
    c.k.extreme = r.chance(0.15);
    c.k.capped = 0;
    c.k.seg = r.chance(0.15), c.k.fc = r.chance(0.15) && strings, c.k.geo = r.chance(0.15);
    c.k.amin = 1, c.k.amax = 5;
    c.k.depth = (int)r.range(0, 3);
    c.k.missing = 0.02;
    c.w = make_world(r, c.k);
    auto subs = c.exprs((int)r.range(2, r.chance(0.3) ? 90 : 30));
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(4, 8); i < m; i++) es.push_back(c.random_event());
    vector<string> text;
    for(auto& s : subs) text.push_back(spell(r, s.e, r.chance(0.2) ? WILD : PLAIN));
    int slot = 0;
    auto ask = [&](Tree& t) {
        for(auto& h : es) c.query(t, h, r.chance(0.5) ? 'S' : 's');
        if(r.chance(0.7)) c.release(t);
    };
    { // direct
        Tree t = c.make(slot++, c.w, r.pick(CAPS), 0);
        for(size_t i = 0; i < subs.size(); i++) c.insert_text(t, subs[i].id, subs[i].e, subs[i].c, text[i]);
        ask(t);
    }
    { // all prepared, then all inserted in another order
        Tree t = c.make(slot++, c.w, r.pick(CAPS), 0);
        vector<size_t> o(subs.size());
        for(size_t i = 0; i < o.size(); i++) o[i] = i;
        r.shuffle(o);
        for(size_t i : o) c.prepare(t, (int)i, subs[i].id, subs[i].e, subs[i].c, text[i]);
        r.shuffle(o);
        for(size_t i : o) c.put(t, (int)i, subs[i]);
        ask(t);
    }
    if(r.chance(0.7)) { // prepared and inserted one by one: boundaries move under a live tree
        Tree t = c.make(slot++, c.w, (int)r.range(1, 4), 0);
        for(size_t i = 0; i < subs.size(); i++) {
            c.prepare(t, (int)i, subs[i].id, subs[i].e, subs[i].c, text[i]);
            c.put(t, (int)i, subs[i]);
            if(r.chance(0.05)) c.query(t, r.pick(es), 'S');
        }
        ask(t);
    }
    { // boundaries first, then direct
        Tree t = c.make(slot++, c.w, r.pick(CAPS), 0);
        vector<size_t> o(subs.size());
        for(size_t i = 0; i < o.size(); i++) o[i] = i;
        r.shuffle(o);
        for(size_t i : o) c.bound(t, '1', text[i]);
        for(size_t i = 0; i < subs.size(); i++) c.insert_text(t, subs[i].id, subs[i].e, subs[i].c, text[i]);
        if(r.chance(0.5)) for(size_t i : o) if(r.chance(0.3)) c.bound(t, '1', text[i]);
        ask(t);
    }
    { // boundaries adjusted from some expressions, interleaved with direct insertions
        Tree t = c.make(slot++, c.w, (int)r.range(1, 4), 0);
        for(size_t i = 0; i < subs.size(); i++) {
            if(r.chance(0.4)) c.bound(t, '1', text[r.below(subs.size())]);
            c.insert_text(t, subs[i].id, subs[i].e, subs[i].c, text[i]);
            if(r.chance(0.1)) c.query(t, r.pick(es), 's');
        }
        ask(t);
    }
    if(r.chance(0.7)) { // everything mixed: prepared now and inserted later, direct, boundaries, queries
        Tree t = c.make(slot++, c.w, (int)r.range(1, 6), 0);
        vector<size_t> waiting;
        size_t i = 0;
        while(i < subs.size() || !waiting.empty()) {
            int d = (int)r.below(100);
            if(d < 25) c.bound(t, '1', text[r.below(subs.size())]);
            else if(d < 30) c.query(t, r.pick(es), r.chance(0.5) ? 'S' : 's');
            else if(d < 55 && i < subs.size()) c.insert_text(t, subs[i].id, subs[i].e, subs[i].c, text[i]), i++;
            else if(d < 80 && i < subs.size()) c.prepare(t, (int)i, subs[i].id, subs[i].e, subs[i].c, text[i]), waiting.push_back(i), i++;
            else if(!waiting.empty()) {
                size_t k = r.below(waiting.size()), j = waiting[k];
                waiting.erase(waiting.begin() + k);
                c.put(t, (int)j, subs[j]);
            }
        }
        ask(t);
    }
}

// Pairs of different texts that a careless identification would confuse: equal under a
// usual hash, anagrams, equal in a long beginning or end, different only in letter case or blanks.
static const vector<std::pair<string, string>>& confusable()
{
    static vector<std::pair<string, string>> out;
    if(!out.empty()) return out;
    typedef uint32_t u;
    vector<u (*)(const string&)> fs = {
        [](const string& s) { u h = 5381; for(char c : s) h = ((h << 5) + h) ^ (u)c; return h; },
        [](const string& s) { u h = 5381; for(char c : s) h = ((h << 5) + h) + (u)c; return h; },
        [](const string& s) { u h = 0; for(char c : s) h = h * 31 + (u)c; return h; },
        [](const string& s) { u h = 0; for(char c : s) h = (u)c + (h << 6) + (h << 16) - h; return h; },
        [](const string& s) { u h = 2166136261u; for(char c : s) h = (h ^ (u)c) * 16777619u; return h; },
        [](const string& s) { u h = 2166136261u; for(char c : s) h = (h * 16777619u) ^ (u)c; return h; },
        [](const string& s) { u h = 0; for(char c : s) h += (u)c, h += h << 10, h ^= h >> 6; h += h << 3; h ^= h >> 11; return h + (h << 15); },
        [](const string& s) { u h = ~0u; for(char c : s) { h ^= (unsigned char)c; for(int i = 0; i < 8; i++) h = (h >> 1) ^ (0xedb88320u & (0u - (h & 1))); } return ~h; },
        [](const string& s) { u h = 0; for(char c : s) h += (u)c; return h; },
    };
    Rng r(77);
    vector<string> w(150000);
    for(auto& x : w) {
        x = "k";
        for(int i = 0; i < 5; i++) x += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.below(62)];
    }
    for(auto f : fs) {
        vector<std::pair<u, int>> v;
        for(int i = 0; i < (int)w.size(); i++) v.push_back({ f(w[i]), i });
        std::sort(v.begin(), v.end());
        int n = 0;
        for(size_t i = 0; i + 1 < v.size() && n < 6; i++)
            if(v[i].first == v[i + 1].first && w[v[i].second] != w[v[i + 1].second]) out.push_back({ w[v[i].second], w[v[i + 1].second] }), n++, i++;
    }
    for(int n : { 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300 }) {
        string p(n, 'p');
        out.push_back({ p + "a", p + "b" });
        out.push_back({ p, p + "q" });
        out.push_back({ "a" + p, "b" + p });
        out.push_back({ p + "a" + p, p + "b" + p });
    }
    for(auto& p : vector<std::pair<string, string>> { { "abc", "acb" }, { "ab", "ba" }, { "abc", "ABC" }, { "us", "US" }, { "us", "uS" }, { "a", "a " }, { "a", " a" }, { "1", "01" }, { "1", "1.0" }, { "10", "1" }, { "a b", "a  b" }, { "", " " }, { "0", "" }, { "null", "" }, { "true", "1" } }) out.push_back(p);
    return out;
}

static void p_strings(Case& c)
{
    Rng& r = c.r;
    c.k.wt = { 0, 0, 0, 5, 0, 4, 0, 0, 3 };
    c.k.amin = 1, c.k.amax = 5;
    c.k.capped = r.pick(vector<double>{ 0, 0.5, 1.0 });
    c.k.fc = r.chance(0.2);
    c.k.depth = (int)r.below(3);
    c.k.poolmin = 2, c.k.poolmax = r.chance(0.25) ? 80 : 12;
    c.k.missing = 0.02, c.k.opt = 0.3;
    c.w = make_world(r, c.k);
    // the same texts under several attributes
    for(auto& d : c.w.d)
        if(!d.sp.empty() && r.chance(0.6))
            for(auto& o : c.w.d)
                if(!o.sp.empty() && &o != &d)
                    for(auto& s : d.sp)
                        if(r.chance(0.4)) o.sp.push_back(s);
    if(r.chance(0.3)) // strings one could confuse by hash or prefix
        for(auto& d : c.w.d)
            if(d.ty == S || d.ty == SL)
                for(int i = 0; i < 40; i++) d.sp.push_back(str(r.below(200)));
    if(r.chance(0.4)) { // or by less
        int n = (int)r.range(1, 4);
        bool only = r.chance(0.6);
        vector<string> add;
        for(int i = 0; i < n; i++) {
            auto& p = r.pick(confusable());
            add.push_back(p.first), add.push_back(p.second);
        }
        for(auto& d : c.w.d)
            if(d.ty == S || d.ty == SL) {
                if(only) d.sp.clear();
                d.sp.insert(d.sp.end(), add.begin(), add.end());
            }
    }
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    auto subs = c.exprs((int)r.range(3, r.chance(0.3) ? 120 : 30));
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(4, 8); i < m; i++) es.push_back(c.random_event());
    for(auto& s : subs) {
        E e = s.e;
        // capacity is counted over the whole expression
        if(r.chance(0.15)) e = mkb(r.chance(0.5) ? OR : AND, e, c.expr(1));
        s.c = c.consts_for(e);
        c.insert(t, s.id, e, s.c, r.chance(0.2) ? WILD : PLAIN);
        if(r.chance(0.05)) c.query(t, r.pick(es), 'S');
    }
    for(auto& h : es) c.query(t, h, r.chance(0.5) ? 'S' : 's');
}

static void p_freq(Case& c)
{
    Rng& r = c.r;
    c.k.epoch = any_epoch(r);
    c.k.fc = true;
    c.k.wt = { 1, 1, 0, 0, 0, 0, 0, 0, 0 };
    c.k.amin = 0, c.k.amax = 2;
    c.k.depth = (int)r.range(0, 2);
    c.k.opt = 0.6, c.k.undef = 0.12, c.k.missing = 0.02, c.k.nullp = 0.03;
    c.k.extreme = r.chance(0.15);
    c.k.lng = 0.15;
    c.k.poolmin = 1, c.k.poolmax = 3;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0), u = c.make(1, c.w, 3, 0);
    Decl fcd = *c.w.get("frequency_caps");
    int n = (int)r.range(2, 16);
    vector<std::pair<int, Sub>> ready;
    for(int i = 0; i < n; i++) {
        E e;
        if(r.chance(0.8)) {
            World only;
            only.add(fcd);
            Decl nw = *c.w.get("now");
            Knobs k2 = c.k;
            k2.nullp = 0;
            only.add(nw);
            do e = gen_atom(r, k2, only);
            while(e->op != FREQ);
            if(r.chance(0.3)) e = mkn(e);
            if(r.chance(0.3)) e = mkb(r.chance(0.5) ? AND : OR, e, c.expr(1));
        }
        else e = c.expr();
        Consts cs = c.consts_for(e, r.chance(0.08));
        c.insert(t, (u64)i + 1, e, cs, r.chance(0.3) ? WILD : PLAIN);
        if(c.prepare(u, i, (u64)i + 1, e, cs, spell(r, e)) == '1') ready.push_back({ i, { (u64)i + 1, e, cs } });
    }
    for(auto& p : ready) c.put(u, p.first, p.second);
    for(int i = 0, m = (int)r.range(6, 12); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        c.query(u, h, r.chance(0.5) ? 'S' : 's');
    }
}

static void p_seg(Case& c)
{
    Rng& r = c.r;
    c.k.epoch = any_epoch(r);
    c.k.seg = true;
    c.k.wt = { 1, 1, 0, 0, 0, 0, 0, 0, 0 };
    c.k.amin = 0, c.k.amax = 2;
    c.k.depth = (int)r.range(0, 2);
    c.k.opt = 0.6, c.k.undef = 0.12, c.k.missing = 0.02, c.k.nullp = 0.05;
    c.k.lng = 0.15;
    c.k.poolmin = 2, c.k.poolmax = 7;
    c.k.extreme = r.chance(0.2);
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    for(auto& s : c.exprs((int)r.range(3, 25))) c.insert(t, s.id, s.e, s.c, r.chance(0.3) ? WILD : PLAIN);
    for(int i = 0, m = (int)r.range(6, 12); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
    }
}

static void p_geostr(Case& c)
{
    Rng& r = c.r;
    c.k.geo = true;
    c.k.wt = { 1, 0, 0, 6, 0, 0, 0, 0, 0 };
    c.k.strfn = 0.8;
    c.k.amin = 1, c.k.amax = 4;
    c.k.depth = (int)r.range(0, 2);
    c.k.opt = 0.5, c.k.undef = 0.15, c.k.missing = 0.02, c.k.nullp = 0.03;
    c.k.capped = 0.3;
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    int n = (int)r.range(3, 25);
    for(int i = 0; i < n; i++) {
        E e = r.chance(0.4) ? gen_geo(r) : c.expr();
        if(r.chance(0.2)) e = mkn(e);
        c.note_geo(e);
        c.insert(t, (u64)i + 1, e, c.consts_for(e), r.chance(0.3) ? WILD : PLAIN);
    }
    for(int i = 0, m = (int)r.range(6, 12); i < m; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
    }
}

// arbitrary text: whatever happens, nothing breaks and the accepted part answers by the model
static void p_fuzz(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.5), c.k.fc = r.chance(0.5), c.k.geo = r.chance(0.3);
    c.k.amin = 1, c.k.amax = 6;
    c.k.capped = 0.2;
    c.k.extreme = r.chance(0.3);
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), r.pick(PARTS));
    vector<EvH> es;
    for(int i = 0; i < 4; i++) es.push_back(c.random_event());
    int n = (int)r.range(5, 30);
    for(int i = 0; i < n; i++) {
        string s;
        int z = (int)r.below(4);
        if(z == 0) s = spell(r, c.expr(), WILD);
        else if(z <= 2) s = damage(r, damage(r, spell(r, c.expr(), WILD)));
        else { // token soup
            static const vector<string> tk = { "a", "b", "x", "now", "1", "2.5", "-", "\"s\"", "'t'", "(", ")", ",", "and", "or", "not", "in", "not in",
                "one of", "none of", "all of", "=", "<>", "<", ">=", "is null", "is not null", "is empty", "true", "false", "contains", "segment_within",
                "geo_within_radius", "within_frequency_cap", "\"flight\"", "\x7f", "\"", "&&", "||" };
            for(int j = (int)r.range(1, 12); j > 0; j--) s += (r.chance(0.3) && !c.w.d.empty() ? c.w.d[r.below(c.w.d.size())].name : r.pick(tk)) + (r.chance(0.8) ? " " : "");
        }
        if(s.find('\0') != string::npos) continue;
        E e = parse_text(s);
        if(e) {
            bool margin = false;
            for(auto& h : es) margin |= geo_margin(e, c.w, h.e);
            if(margin) continue;
        }
        Consts cs = e ? c.consts_for(e, r.chance(0.1)) : Consts();
        c.insert_text(t, (u64)i + 1, e, cs, s);
    }
    for(auto& h : es) c.query(t, h, "SsXx"[r.below(4)]), c.query(t, h, r.chance(0.5) ? 'S' : 's');
}

// parallel queries on one tree
static void p_par(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.amin = 2, c.k.amax = 8;
    c.k.smalldom = r.chance(0.5);
    c.k.missing = 0.15;
    c.k.wt = { 1, 3, 2, 4, 3, 4, 0, 0, 3 };
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    auto subs = c.exprs((int)r.range(3, 60));
    bool batch = r.chance(0.3);
    if(batch) {
        int ss = 0;
        vector<std::pair<int, Sub>> ready;
        for(auto& s : subs)
            if(c.prepare(t, ss, s.id, s.e, s.c, spell(r, s.e)) == '1') ready.push_back({ ss++, s });
        for(auto& p : ready) c.put(t, p.first, p.second);
    }
    else
        for(auto& s : subs) c.insert(t, s.id, s.e, s.c);
    vector<EvH> es;
    for(int i = 0, m = (int)r.range(4, 12); i < m; i++) es.push_back(c.random_event());
    int nt = (int)r.range(2, 8);
    // event objects owned by one thread each
    vector<vector<EvH>> own(nt);
    for(int i = 0; i < nt; i++)
        for(int j = 0; j < 2; j++) {
            own[i].push_back(c.random_event());
            out.line({ "OBJ", str(own[i].back().slot), "0" });
        }
    out.line({ "PAR", str(r.range(1, 3)) });
    for(int i = 0; i < nt; i++) {
        out.line({ "T" });
        for(int j = (int)r.range(3, 12); j > 0; j--) {
            if(r.chance(0.25)) c.query(t, r.pick(own[i]), r.chance(0.5) ? 'r' : 'y');
            else c.query(t, r.pick(es), "SSSssXx"[r.below(7)]);
        }
    }
    out.line({ "ENDPAR" });
    for(auto& h : es) c.query(t, h, 'S');
}

// several trees, interleaved
static void p_multi(Case& c)
{
    Rng& r = c.r;
    int nt = (int)r.range(2, 5);
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.amin = 1, c.k.amax = 6;
    c.k.capped = 0.4;
    vector<World> ws;
    for(int i = 0; i < nt; i++) {
        // same names, other types and numbering; or the very same declarations
        if(i > 0 && r.chance(0.4)) ws.push_back(ws[0]);
        else ws.push_back(make_world(r, c.k));
    }
    vector<Tree> ts;
    for(int i = 0; i < nt; i++) {
        Tree t = c.make(i, ws[i], r.pick(CAPS), r.pick(PARTS));
        ts.push_back(t);
    }
    vector<vector<EvH>> es(nt);
    vector<vector<Sub>> todo(nt);
    vector<vector<E>> geos(nt);
    for(int i = 0; i < nt; i++) {
        c.w = ws[i];
        c.geos.clear();
        todo[i] = c.exprs((int)r.range(2, 25));
        if(i > 0 && ws[i].d.size() == ws[0].d.size() && ws[i].d[0].name == ws[0].d[0].name && ws[i].d[0].ty == ws[0].d[0].ty && r.chance(0.3)) { /* shared declarations: other expressions anyway */ }
        for(int j = 0; j < 4; j++) es[i].push_back(c.event(ws[i], gen_event(r, c.k, ws[i], c.geos)));
    }
    vector<bool> alive(nt, true);
    vector<size_t> next(nt, 0);
    for(int step = 0, m = (int)r.range(30, 90); step < m; step++) {
        int i = (int)r.below(nt);
        if(!alive[i]) continue;
        int z = (int)r.below(10);
        if(z < 5 && next[i] < todo[i].size()) {
            Sub& s = todo[i][next[i]++];
            c.insert(ts[i], s.id, s.e, s.c);
        }
        else if(z < 9) c.query(ts[i], r.pick(es[i]), "SsXx"[r.below(4)]);
        else if(r.chance(0.3) && step > m / 3) {
            c.release(ts[i]);
            alive[i] = false;
            if(r.chance(0.7)) { // another one takes its place
                if(r.chance(0.5)) ws[i] = make_world(r, c.k);
                ts[i] = c.make(i, ws[i], r.pick(CAPS), r.pick(PARTS));
                c.w = ws[i];
                c.geos.clear();
                todo[i] = c.exprs((int)r.range(1, 12));
                next[i] = 0;
                es[i].clear();
                for(int j = 0; j < 3; j++) es[i].push_back(c.event(ws[i], gen_event(r, c.k, ws[i], c.geos)));
                alive[i] = true;
            }
        }
    }
    for(int i = 0; i < nt; i++)
        if(alive[i])
            for(auto& h : es[i]) c.query(ts[i], h, r.chance(0.5) ? 'S' : 's');
}

// threads that own their trees
static void p_multipar(Case& c)
{
    Rng& r = c.r;
    int nt = (int)r.range(2, 6);
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.amin = 1, c.k.amax = 5;
    c.k.capped = 0.3;
    vector<World> ws;
    vector<vector<EvH>> es(nt);
    vector<vector<Sub>> todo(nt);
    for(int i = 0; i < nt; i++) ws.push_back(i > 0 && r.chance(0.5) ? ws[0] : make_world(r, c.k));
    for(int i = 0; i < nt; i++) {
        c.w = ws[i];
        c.geos.clear();
        todo[i] = c.exprs((int)r.range(2, 15));
        for(int j = 0; j < 3; j++) es[i].push_back(c.event(ws[i], gen_event(r, c.k, ws[i], c.geos)));
    }
    out.line({ "PAR", str(r.range(1, 2)) });
    for(int i = 0; i < nt; i++) {
        out.line({ "T" });
        Tree t = c.make(i, ws[i], r.pick(CAPS), 0);
        for(auto& s : todo[i]) {
            c.insert(t, s.id, s.e, s.c);
            if(r.chance(0.3)) c.query(t, r.pick(es[i]), "SsXx"[r.below(4)]);
            if(r.chance(0.1)) c.insert_text(t, 7777, nullptr, {}, "a = = 1");
        }
        for(auto& h : es[i]) c.query(t, h, r.chance(0.5) ? 'S' : 's');
        c.release(t);
    }
    out.line({ "ENDPAR" });
}

// size: attributes, predicates, subscriptions, depth, lists
static void p_scale(Case& c)
{
    Rng& r = c.r;
    int mode = (int)(c.index % 6);
    c.k.missing = 0.02;
    c.k.capped = 0;
    int nexpr = 40, nev = 4;
    if(mode == 0) { // attributes around multiples of 64
        int n = (int)r.pick(vector<int>{ 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 200, 256, 257, 300 });
        c.k.amin = c.k.amax = n;
        c.k.opt = r.pick(vector<double>{ 0.5, 0.95 });
        c.k.undef = r.pick(vector<double>{ 0.2, 0.8 });
        c.k.notp = 0.3;
        nexpr = 80;
    }
    if(mode == 1) { // repeated predicates around multiples of 64
        c.k.amin = 3, c.k.amax = 10;
        c.k.poolmin = 10, c.k.poolmax = 20;
    }
    if(mode == 2) { // subscriptions
        c.k.amin = 2, c.k.amax = 12;
        c.k.smalldom = true;
        c.k.poolmin = 10, c.k.poolmax = 40;
        c.k.depth = 2;
        nexpr = (int)r.range(800, 2500);
        nev = 3;
    }
    if(mode == 3) { // deep
        c.k.amin = 2, c.k.amax = 6;
        nexpr = 4;
    }
    if(mode == 4) { // long lists
        c.k.wt = { 0, 2, 0, 2, 3, 3, 0, 0, 0 };
        c.k.amin = 1, c.k.amax = 3;
        c.k.poolmin = 200, c.k.poolmax = 600;
        c.k.listmax = 700;
        nexpr = 15;
    }
    if(mode == 5) { // one attribute, deep partitioning
        c.k.wt = { 0, 3, 1, 0, 1, 0, 0, 0, 0 };
        c.k.amin = c.k.amax = 1;
        c.k.smalldom = true;
        c.k.opt = 0.2;
        c.k.poolmin = 60, c.k.poolmax = 120;
        c.k.depth = 1;
        nexpr = (int)r.range(200, 800);
    }
    c.w = make_world(r, c.k);
    Tree t = c.make(0, c.w, mode == 2 || mode == 5 ? (int)r.pick(vector<int>{ 1, 2, 3, 10, 300 }) : -1, 0);
    if(mode == 1) {
        int np = (int)r.pick(vector<int>{ 63, 64, 65, 127, 128, 129, 190, 200, 260 });
        vector<E> preds;
        for(int i = 0; i < np; i++) preds.push_back(c.expr((int)r.below(2)));
        u64 id = 1;
        // every predicate at least twice
        for(int rep = 0; rep < 2; rep++) {
            vector<E> p = preds;
            r.shuffle(p);
            for(auto& e : p) {
                E x = r.chance(0.4) ? mkb(r.chance(0.5) ? AND : OR, e, r.pick(preds)) : r.chance(0.2) ? mkn(e) : e;
                c.insert(t, id++, x, c.consts_for(x));
            }
        }
        nexpr = 0;
    }
    else if(mode == 3) {
        for(int i = 0; i < nexpr; i++) {
            int depth = (int)r.pick(vector<int>{ 50, 200, 400, 900 });
            E e = c.expr(0);
            string s;
            int z = (int)r.below(4);
            if(r.chance(0.03)) {
                // far beyond what a stack can take: accepted or not, nothing breaks
                int far = (int)r.pick(vector<int>{ 9000, 20000, 40000, 100000 });
                string x = spell(r, e);
                if(z == 0) {
                    s = x;
                    for(int d = 0; d < far; d++) s += r.chance(0.5) ? " and " + x : " or " + x;
                }
                else if(z == 1) {
                    for(int d = 0; d < far; d++) s += "(" + x + " or ";
                    s += x + string(far, ')');
                }
                else if(z == 2) s = string(far, '(') + x + string(far, ')');
                else {
                    for(int d = 0; d < far; d++) s += "not ";
                    s += "(" + x + ")";
                }
                c.insert_unsure(t, (u64)i + 1, c.consts_for(e), s);
                continue;
            }
            if(z == 0 && r.chance(0.1)) depth = (int)r.range(1000, 5000);
            if(z == 0) {
                for(int d = 0; d < depth; d++) e = mkb(r.chance(0.5) ? AND : OR, e, c.expr(0));
                s = spell(r, e);
            }
            else if(z == 1) {
                for(int d = 0; d < depth; d++) e = mkb(r.chance(0.5) ? AND : OR, c.expr(0), e);
                s = spell(r, e);
            }
            else if(z == 2) {
                s = spell(r, e);
                s = string(depth, '(') + s + string(depth, ')');
            }
            else {
                for(int d = 0; d < depth; d++) e = r.chance(0.7) ? E(mkn(e)) : mkb(AND, mkn(c.expr(0)), e);
                s = spell(r, e);
            }
            c.insert_text(t, (u64)i + 1, e, c.consts_for(e), s);
        }
    }
    else
        for(auto& s : c.exprs(nexpr)) c.insert(t, s.id, s.e, s.c);
    for(int i = 0; i < nev; i++) {
        EvH h = c.random_event();
        c.query(t, h, r.chance(0.5) ? 'S' : 's');
        c.query(t, h, "Xx"[r.below(2)]);
    }
}

// sizes beyond one, two and three bytes, and around the sizes of buffers
static void volume(Case& c, int most, const vector<int>& modes)
{
    Rng& r = c.r;
    int mode = modes[c.index % modes.size()];
    static const vector<int> SIZES = { 255, 256, 257, 300, 511, 513, 1023, 1025, 2000, 4095, 4097, 4200, 8191, 8193, 16500, 33000 };
    int n = r.chance(0.25) ? (int)r.range(65530, 70000) : r.pick(SIZES);
    if(mode == 9) n = (int)r.range(65530, 70000);
    if(n > most) n = r.chance(0.3) ? most - (int)r.below(3) : (int)r.range(250, most);
    auto decl = [&](const char* name, Ty ty, bool allow) {
        Decl d;
        d.name = name, d.ty = ty, d.allow = allow;
        return c.w.add(d);
    };
    auto num = [](const char* a, Op op, i64 v) {
        auto e = mk(op);
        e->attr = a, e->lit.i = v;
        return e;
    };
    auto txt = [](const char* a, Op op, const string& v) {
        auto e = mk(op);
        e->attr = a, e->lit.k = 's', e->lit.s = v;
        return e;
    };
    auto bv = [](const char* a) {
        auto e = mk(BVAR);
        e->attr = a;
        return e;
    };
    int cap = (int)r.pick(vector<int>{ 3, 50, 64, 300, 1000 });
    auto ask = [&](Tree& t, const Event& e) {
        EvH h = c.event(c.w, e);
        c.query(t, h, "Ss"[r.below(2)]);
        c.query(t, h, "Xx"[r.below(2)]);
    };
    auto where = [&](int i) -> i64 { return i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? n : i == 3 ? std::min(n - 1, 65536) : i == 4 ? std::min(n - 1, 256) : (i64)r.below((u64)n); };
    string pre = r.pick(vector<string>{ "", "v", "some longer text in front of the number " });
    auto sv = [&](i64 v) { return pre + str(v); };
    if(mode == 0) { // distinct strings, and as many expressions
        int s = decl("s", S, r.chance(0.5)), l = decl("l", SL, true), b = decl("flag", B, true);
        Tree t = c.make(0, c.w, cap, 0);
        int many = (int)r.range(0, 2); // strings in the expressions, or in one long list
        if(many == 0) {
            auto e = mk(ONEOF);
            e->attr = "l", e->lk = 's';
            for(int i = 0; i < n; i++) e->sl.push_back(sv(i));
            c.insert(t, 1, e, {});
        }
        int step = many == 0 ? std::max(1, n / 200) : 1;
        for(int i = 0; i < n; i += step) {
            E e = txt("s", i % 5 == 4 ? NE : EQ, sv(i));
            if(i % 5 == 4) e = mkb(AND, e, mkn(bv("flag")));
            if(i % 7 == 3) {
                auto x = mk(ONEOF);
                x->attr = "l", x->lk = 's', x->sl = { sv(i), sv(i + 1) };
                e = many == 2 ? mkb(AND, e, x) : many == 1 ? mkb(OR, e, x) : x; // each string has its place among those of s
            }
            if(i % 11 == 5) e = mkb(OR, e, txt("l", VIN, sv(i / 2)));
            c.insert(t, (u64)i + 2, e, {});
        }
        for(int i = 0; i < 7; i++) {
            Event e(3);
            e[s].def = true, e[s].s = sv(where(i));
            if(r.chance(0.7)) {
                e[l].def = true;
                for(int j = 0, m = (int)r.range(0, 4); j < m; j++) e[l].sl.push_back(sv(where((int)r.below(8))));
                std::sort(e[l].sl.begin(), e[l].sl.end());
                e[l].sl.erase(std::unique(e[l].sl.begin(), e[l].sl.end()), e[l].sl.end());
            }
            if(r.chance(0.8)) e[b].def = true, e[b].b = r.chance(0.2);
            ask(t, e);
        }
    }
    else if(mode == 8) { // distinct numbers of an enumeration
        if(n > 66000) n = 66000;
        int a = decl("a", IE, r.chance(0.5)), b = decl("flag", B, true);
        Tree t = c.make(0, c.w, cap, 0);
        i64 base = r.pick(vector<i64>{ 0, -300, 1000000007, -(1LL << 40) });
        for(int i = 0; i < n; i++) {
            E e = num("a", i % 5 == 4 ? NE : EQ, base + i);
            if(i % 5 == 4) e = mkb(AND, e, mkn(bv("flag")));
            c.insert(t, (u64)i + 1, e, {});
        }
        for(int i = 0; i < 5; i++) {
            Event e(2);
            e[a].def = true, e[a].i = base + where(i);
            if(r.chance(0.8)) e[b].def = true, e[b].b = r.chance(0.2);
            ask(t, e);
        }
    }
    else if(mode == 1) { // distinct predicates, each in two expressions
        int a = decl("a", I, r.chance(0.5)), b = decl("flag", B, false), s = decl("s", S, true);
        Tree t = c.make(0, c.w, cap, 0);
        for(int rep = 0; rep < 2; rep++)
            for(int i = 0; i < n; i++) {
                E e = i % 3 == 0 ? E(num("a", EQ, i)) : i % 3 == 1 ? E(num("a", i % 2 ? LT : GE, i % 9 == 1 ? n - i % 60 : i % 2 ? i % 60 : n - i % 60)) : E(mkb(AND, num("a", GT, i - 2), num("a", LT, i + 2)));
                if(i % 4 == 1 && rep) e = mkb(AND, bv("flag"), e);
                if(i % 64 == 9) e = mkb(AND, e, txt("s", EQ, sv(i)));
                c.insert(t, (u64)(rep * n + i + 1), e, {});
            }
        for(int i = 0; i < 7; i++) {
            Event e(3);
            e[a].def = true, e[a].i = where(i);
            e[b].def = true, e[b].b = r.chance(0.5);
            if(r.chance(0.5)) e[s].def = true, e[s].s = sv(e[a].i);
            ask(t, e);
        }
    }
    else if(mode == 2) { // long lists on either side
        int a = decl("a", I, true), l = decl("l", IL, true), s = decl("s", S, true), q = decl("q", SL, r.chance(0.5));
        Tree t = c.make(0, c.w, cap, 0);
        int k = (int)r.range(1, 3);
        i64 base = r.pick(vector<i64>{ 0, -n, 1000000007 });
        u64 id = 1;
        for(Op op : { IN, NIN, ONEOF, NONEOF, ALLOF })
            for(char kind : { 'i', 's' }) {
                auto e = mk(op);
                bool lst = op != IN && op != NIN;
                e->attr = kind == 'i' ? (lst ? "l" : "a") : (lst ? "q" : "s");
                e->lk = kind;
                int m = r.chance(0.3) ? (int)r.range(1, 4) : n;
                vector<i64> v;
                for(int i = 0; i < m; i++) v.push_back((i64)i * k);
                if(r.chance(0.5)) r.shuffle(v);
                for(i64 x : v) {
                    if(kind == 'i') e->il.push_back(base + x);
                    else e->sl.push_back(sv(x));
                }
                c.insert(t, id++, e, {});
                c.insert(t, id++, mkn(e), {});
            }
        for(int i = 0; i < 6; i++) {
            Event e(4);
            i64 v = where(i) * k + (r.chance(0.2) ? 1 : 0);
            if(r.chance(0.9)) e[a].def = true, e[a].i = base + v;
            if(r.chance(0.9)) e[s].def = true, e[s].s = sv(v);
            e[l].def = r.chance(0.9), e[q].def = true;
            int m = r.chance(0.5) ? n + (int)r.below(3) : (int)r.below(5), off = r.chance(0.5) ? 0 : (int)r.range(-n, n);
            for(int j = 0; j < m; j++) {
                i64 x = (i64)(j + off) * k;
                if(e[l].def) e[l].il.push_back(base + x);
                if(x >= 0) e[q].sl.push_back(sv(x));
            }
            if(r.chance(0.5)) r.shuffle(e[l].il), r.shuffle(e[q].sl);
            ask(t, e);
        }
    }
    else if(mode == 3) { // attributes
        if(n > 5000) n = (int)r.range(1000, 5000);
        c.k.amin = c.k.amax = n;
        c.k.opt = 0.98;
        c.k.missing = 0;
        c.k.capped = 0;
        c.k.undef = r.pick(vector<double>{ 0.3, 0.95 });
        c.k.notp = 0.3;
        c.w = make_world(r, c.k);
        Tree t = c.make(0, c.w, cap, 0);
        for(auto& s : c.exprs(60)) c.insert(t, s.id, s.e, s.c);
        // the ends, and around every power of two
        for(size_t i = 0, id = 100; i < c.w.d.size(); i++)
            if(c.w.d[i].ty == B && (i < 3 || i + 3 > c.w.d.size() || (i & (i - 1)) == 0 || ((i + 1) & i) == 0 || r.chance(0.05))) {
                E e = bv(c.w.d[i].name.c_str());
                c.insert(t, id++, r.chance(0.5) ? E(mkn(e)) : e, {});
            }
        for(int i = 0; i < 4; i++) ask(t, c.random_event().e);
    }
    else if(mode == 4) { // segments and caps
        decl("now", I, true);
        int g = decl("segments_with_timestamp", SEG, true), f = decl("frequency_caps", FC, true);
        Tree t = c.make(0, c.w, cap, 0);
        i64 now = 1000000;
        for(int i = 0; i < 30; i++) {
            auto e = mk(r.chance(0.5) ? SEGW : SEGB);
            e->v = where(i), e->len = r.range(0, 40);
            c.insert(t, (u64)i + 1, e, {});
            auto q = mk(FREQ);
            q->ftype = "flight", q->ns = sv(where(i));
            q->v = r.range(1, 5), q->len = r.range(0, 40);
            Consts k;
            k["flight_id"] = 7;
            c.insert(t, (u64)i + 100, q, k);
        }
        for(int i = 0; i < 4; i++) {
            Event e(3);
            int at = c.w.find("now");
            e[at].def = true, e[at].i = now;
            e[g].def = true;
            for(int j = 0; j < n; j++) e[g].seg.push_back({ j, (now - r.range(0, 45)) * 1000000 });
            e[f].def = true;
            for(int j = 0; j < n; j++) e[f].fc.push_back({ "flight", 7, sv(j), true, (now - r.range(0, 45)) * 1000000, (u64)r.range(0, 6) });
            ask(t, e);
        }
    }
    else if(mode == 5 || mode == 9) { // one or two leaves that cannot be split, ids repeated
        int same = mode == 9 ? (int)r.below(2) : (int)r.below(4);
        int a = decl("a", I, true), b = decl("flag", B, true);
        Tree t = c.make(0, c.w, cap, 0);
        for(int i = 0; i < n; i++) {
            E e = same == 0 || (same > 1 && i % 2) ? E(bv("flag")) : E(num("a", NE, i % 3));
            c.insert(t, (u64)(i % 4 == 3 ? 5 : i + 1), e, {});
        }
        for(int i = 0; i < 4; i++) {
            Event e(2);
            if(r.chance(0.8)) e[a].def = true, e[a].i = (i64)r.below(4);
            if(r.chance(0.8)) e[b].def = true, e[b].b = r.chance(0.7);
            ask(t, e);
        }
    }
    else if(mode == 6) { // a wide range of values, one expression each
        Decl d;
        d.name = "a", d.ty = r.pick(vector<Ty>{ I, I, IL, IE }), d.allow = r.chance(0.3);
        if(d.ty == IE) d.hasMin = true, d.cap = (u64)n + 2;
        else if(r.chance(0.8)) d.hasMin = d.hasMax = true, d.imin = 0, d.imax = n;
        int a = c.w.add(d), b = decl("flag", B, true);
        Tree t = c.make(0, c.w, cap, 0);
        vector<i64> v;
        for(int i = 0; i <= n; i++) v.push_back(i);
        if(r.chance(0.5)) r.shuffle(v);
        for(i64 x : v) {
            E e = num("a", d.ty == IL ? VIN : EQ, x);
            if(x % 5 == 4) e = mkb(AND, e, bv("flag"));
            c.insert(t, (u64)x + 1, e, {});
        }
        for(int i = 0; i < 7; i++) {
            Event e(2);
            e[a].def = true, e[a].i = where(i);
            if(d.ty == IL)
                for(int j = 0; j < 3; j++) e[a].il.push_back(where((int)r.below(8)));
            std::sort(e[a].il.begin(), e[a].il.end());
            e[a].il.erase(std::unique(e[a].il.begin(), e[a].il.end()), e[a].il.end());
            e[b].def = true, e[b].b = r.chance(0.5);
            ask(t, e);
        }
    }
    else { // long texts
        string name = "a" + string((size_t)r.pick(vector<int>{ 1, 62, 126, 254, 255, 256, 600, 5000 }), 'b');
        int s = decl(name.c_str(), S, true), l = decl("l", SL, true);
        Tree t = c.make(0, c.w, cap, 0);
        string big;
        for(int i = 0; i < n; i++) big += (char)('a' + r.below(i % 100 == 50 ? 20 : 2));
        auto part = [&] {
            size_t m = r.chance(0.3) ? (size_t)r.range(n / 2, n) : (size_t)r.range(1, 20), at = r.below(big.size() - m + 1);
            return big.substr(r.chance(0.3) ? 0 : r.chance(0.5) ? big.size() - m : at, m);
        };
        for(int i = 0; i < 30; i++) {
            string p = part();
            if(r.chance(0.3)) p[r.below(p.size())] = 'a' + (char)r.below(3);
            auto e = mk(r.pick(vector<Op>{ CONT, STARTS, ENDS }));
            e->attr = name, e->lit.k = 's', e->lit.s = p;
            c.insert(t, (u64)i + 1, r.chance(0.2) ? E(mkn(e)) : E(e), {});
        }
        string other = big;
        other[other.size() - 1] = 'z';
        c.insert(t, 50, txt(name.c_str(), EQ, big), {});
        c.insert(t, 51, txt(name.c_str(), NE, big), {});
        c.insert(t, 52, txt(name.c_str(), EQ, other), {});
        auto o = mk(ONEOF);
        o->attr = "l", o->lk = 's', o->sl = { big, other + "q", "x" };
        c.insert(t, 53, o, {});
        for(int i = 0; i < 5; i++) {
            Event e(2);
            e[s].def = true, e[s].s = i == 0 ? big : i == 1 ? other : i == 2 ? big.substr(0, big.size() - 1) : part();
            e[l].def = true, e[l].sl = { i == 3 ? big : other, "w" };
            ask(t, e);
        }
    }
}

static void p_volume(Case& c) { volume(c, 1 << 20, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }); }
// for the slower builds
static void p_volume_small(Case& c) { volume(c, 4200, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }); }
static void p_vol_strings(Case& c) { volume(c, 1 << 20, { 0, 7, 8 }); }
static void p_vol_preds(Case& c) { volume(c, 1 << 20, { 1 }); }
static void p_vol_lists(Case& c) { volume(c, 1 << 20, { 2 }); }
static void p_vol_attrs(Case& c) { volume(c, 1 << 20, { 3 }); }
static void p_vol_special(Case& c) { volume(c, 1 << 20, { 4 }); }
static void p_vol_leaf(Case& c) { volume(c, 1 << 20, { 9 }); }
static void p_vol_leaves(Case& c) { volume(c, 1 << 20, { 5, 6, 6 }); }

// many queries, or many trees, one after the other
static void p_vol_history(Case& c)
{
    Rng& r = c.r;
    int n = (int)r.pick(vector<int>{ 255, 256, 257, 300, 600, 1025, 5000, 20000 });
    c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.2);
    c.k.amin = 1, c.k.amax = 6;
    c.k.missing = 0.1;
    c.w = make_world(r, c.k);
    if(c.index % 2 == 0) {
        if(r.chance(0.3)) n = (int)r.range(65530, 70000);
        Tree t = c.make(0, c.w, r.pick(CAPS), 0);
        auto subs = c.exprs((int)r.range(3, 12));
        vector<EvH> es;
        for(int i = 0, m = (int)r.range(2, 6); i < m; i++) {
            es.push_back(c.random_event());
            out.line({ "OBJ", str(es.back().slot), "0" });
        }
        for(size_t i = 0; i + 1 < subs.size(); i++) c.insert(t, subs[i].id, subs[i].e, subs[i].c);
        for(int i = 0; i < n; i++) {
            if(i == n / 2) c.insert(t, subs.back().id, subs.back().e, subs.back().c);
            c.query(t, r.pick(es), "rySsXx"[r.below(6)]);
        }
    }
    else {
        n /= 4;
        Tree keep = c.make(1, c.w, r.pick(CAPS), 0);
        for(auto& s : c.exprs(4)) c.insert(keep, s.id, s.e, s.c);
        EvH kh = c.event(c.w, gen_event(r, c.k, c.w, c.geos));
        vector<Sub> subs = c.exprs(6);
        vector<EvH> es;
        for(int i = 0; i < 3; i++) es.push_back(c.event(c.w, gen_event(r, c.k, c.w, c.geos)));
        for(int i = 0; i < n; i++) {
            Tree t = c.make(0, c.w, r.pick(CAPS), 0);
            for(int j = (int)r.range(1, 3); j > 0; j--) {
                auto& s = r.pick(subs);
                c.insert(t, (u64)j, s.e, s.c);
            }
            c.query(t, r.pick(es), "SsXx"[r.below(4)]);
            if(i % 16 == 0) c.query(keep, kh, "Ss"[r.below(2)]);
            c.release(t);
        }
        c.query(keep, kh, 's');
    }
}

// many different events, each asked once or a few times: what stays allocated
// after the first half must not be less than after the second
static void p_memory(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.4), c.k.fc = r.chance(0.4), c.k.geo = r.chance(0.2);
    c.k.amin = 1, c.k.amax = 6;
    c.k.missing = 0.1;
    c.k.capped = 0.2;
    c.k.wt = { 1, 2, 1, 5, 2, 5, 1, 1, 3 };
    c.w = make_world(r, c.k);
    int per = (int)r.range(1500, 3000);
    Tree t = c.make(0, c.w, r.pick(CAPS), 0);
    for(auto& s : c.exprs((int)r.range(2, 20))) c.insert(t, s.id, s.e, s.c);
    u64 u = r.next() >> 1;
    auto fresh = [&]() { return "u" + str((i64)(u++ >> 1)) + string((size_t)r.below(24), 'x'); };
    bool objects = r.chance(0.2);
    for(int pass = 0; pass < 2; pass++) {
        for(int i = 0; i < per; i++) {
            Event e = gen_event(r, c.k, c.w, c.geos);
            for(size_t a = 0; a < e.size(); a++) {
                if(!e[a].def || r.chance(0.2)) continue;
                auto ty = c.w.d[a].ty;
                if(ty == S) e[a].s = fresh();
                else if(ty == SL && !e[a].sl.empty()) e[a].sl = { fresh(), fresh() };
                else if(ty == IE) e[a].i = (i64)(r.next() >> 2);
                else if(ty == FC && !e[a].fc.empty()) e[a].fc[0].ns = fresh();
            }
            if(c.nev >= 1000) c.nev = 0;
            if(c.evs.size() > 1000) c.evs.clear();
            EvH h = c.event(c.w, e);
            if(objects && !h.text) out.line({ "OBJ", str(h.slot), "0" });
            for(int q = r.chance(0.2) ? 3 : 1; q > 0; q--) c.query(t, h, "sSxX"[r.below(4)]);
            if(objects && !h.text) out.line({ "FREEOBJ", str(h.slot) });
        }
        out.line({ "MEM", str(pass), "32768" });
    }
}

// declarations by call and by line
static string limit(Rng& r, int64_t v)
{
    if(r.chance(0.85)) return str(v);
    string s = str(v < 0 ? 0 - (u64)v : (u64)v);
    s = string(r.range(1, 2), '0') + s;
    return v < 0 ? "-" + s : r.chance(0.3) ? "+" + s : s;
}
static string decl_line(Rng& r, const Decl& d)
{
    static const char* tn[] = { "boolean", "integer", "float", "string", "integer list", "string list", "segments", "frequency", "integer enum" };
    string s = d.name + "|" + tn[d.ty] + "|" + (d.allow ? "true" : "false");
    if(d.ty == I || d.ty == IL) {
        if(d.hasMin) s += "|" + limit(r, d.imin);
        if(d.hasMin && d.hasMax) s += "|" + limit(r, d.imax);
    }
    else if(d.ty == F) {
        if(d.hasMin) s += "|" + fexact(d.fmin);
        if(d.hasMin && d.hasMax) s += "|" + fexact(d.fmax);
    }
    else if(d.ty == S || d.ty == SL || d.ty == IE) {
        if(d.hasMin) s += "|" + str(d.cap);
    }
    if(r.chance(0.5)) s += "\n";
    return s;
}
static void p_decl(Case& c)
{
    Rng& r = c.r;
    c.k.seg = r.chance(0.4), c.k.fc = r.chance(0.4), c.k.geo = r.chance(0.3);
    c.k.amin = 1, c.k.amax = r.chance(0.1) ? 100 : 10;
    c.k.capped = 0.5;
    c.k.bounded = 0.6;
    c.k.smalldom = r.chance(0.4);
    c.k.missing = 0.15;
    c.k.wt = { 2, 4, 3, 3, 3, 3, 1, 0, 2 };
    c.k.extreme = r.chance(0.3);
    c.w = make_world(r, c.k);
    for(auto& d : c.w.d)
        if((d.ty == I || d.ty == F) && d.hasMin && d.hasMax && r.chance(0.2)) d.hasMax = false, d.imax = INT64_MAX, d.fmax = DBL_MAX;
    // an upper limit alone cannot be written as a line, nor a lower limit alone for lists
    for(auto& d : c.w.d)
        if(d.hasMin != d.hasMax && d.ty != S && d.ty != SL && d.ty != IE && (d.ty == IL || d.hasMax)) d.hasMin = d.hasMax = false, d.imin = INT64_MIN, d.imax = INT64_MAX;
    Tree t = c.make(0, c.w, 3, 0);
    Tree u;
    u.slot = 1;
    u.w = &c.w;
    bool twins = r.chance(0.5);
    out.line({ "MK", "1", !twins && r.chance(0.5) ? "-" : "3", "0" });
    for(auto& d : c.w.d) {
        if(r.chance(0.2)) c.declare_attr(1, d);
        else out.line({ "VARL", "1", decl_line(r, d) });
    }
    for(size_t i = 0; i < c.w.d.size(); i++)
        for(int s = 0; s < 2; s++) out.line({ "DEF", str(s), str(i), c.w.d[i].name, TYN[c.w.d[i].ty] });
    auto subs = c.exprs((int)r.range(2, 40));
    vector<EvH> es;
    for(int i = 0; i < 5; i++) es.push_back(c.random_event());
    auto fill = [&](Tree& x) {
        for(auto& s : subs) c.insert(x, s.id, s.e, s.c);
        for(auto& h : es) c.query(x, h, "SsXx"[r.below(4)]), c.query(x, h, 'S');
    };
    if(twins) {
        // the same texts in the same order: the trees cannot be told apart
        for(auto& s : subs) {
            string text = spell(r, s.e, PLAIN);
            c.insert_text(t, s.id, s.e, s.c, text);
            c.insert_text(u, s.id, s.e, s.c, text);
        }
        for(auto& h : es) {
            c.query(t, h, 'S'), c.query(u, h, 'S');
            if(h.text) out.line({ "TWIN", str(h.slot), "0", "1" });
        }
    }
    else fill(t), fill(u);
    for(int round = 0, n = (int)r.range(0, 2); round < n; round++) {
        Tree& x = r.chance(0.5) ? t : u;
        out.line({ "EMPTY", str(x.slot) });
        x.stored.clear();
        for(auto& h : es) c.query(x, h, "SX"[r.below(2)]);
        // other expressions over the attributes without declared capacity, then the first ones
        r.shuffle(subs);
        if(r.chance(0.5)) subs.resize(subs.size() / 2 + 1);
        fill(x);
    }
    for(size_t i = 0; i < c.w.d.size(); i++) out.line({ "DEF", "1", str(i), c.w.d[i].name, TYN[c.w.d[i].ty] });
}

// effectiveness of pruning, early decision and remembering
// An expression that selects the value, or it and the next one
static E effect_choice(Rng& r, const Decl& d, i64 base, i64 span, i64 v, int form)
{
    auto sv = [&](i64 x) { return "v" + str((u64)(x - base)); };
    auto cmp = [&](Op op, i64 x) {
        auto e = mk(op);
        e->attr = d.name;
        if(d.ty == F) e->lit.k = 'f', e->lit.f = (double)x;
        else if(d.ty == S || ((op == VIN || op == VNIN) && d.ty == SL)) e->lit.k = 's', e->lit.s = sv(x);
        else e->lit.i = x;
        return e;
    };
    auto list = [&](Op op, vector<i64> xs) {
        auto e = mk(op);
        e->attr = d.name;
        if(d.ty == S || d.ty == SL) {
            e->lk = 's';
            for(i64 x : xs) e->sl.push_back(sv(x));
        }
        else e->il = xs;
        return e;
    };
    bool ordered = d.ty == I || d.ty == F, many = d.ty == IL || d.ty == SL;
    // strings and enums are numbered as they come, so neighbours may lie far apart
    bool counted = d.ty == S || d.ty == SL || d.ty == IE;
    i64 w = !counted && v < base + span && (form == 5 || r.chance(0.5)) ? v + 1 : v;
    if(form == 4 && ordered) {
        E lo = r.chance(0.5) ? cmp(GE, v) : d.ty == I && v > base ? E(cmp(GT, v - 1)) : E(mkn(cmp(LT, v)));
        E hi = r.chance(0.5) ? cmp(LE, w) : d.ty == I && w < base + span ? E(cmp(LT, w + 1)) : E(mkn(cmp(GT, w)));
        if(r.chance(0.5)) std::swap(lo, hi);
        if(r.chance(0.3)) return mkn(mkb(OR, mkn(lo), mkn(hi)));
        return mkb(AND, lo, hi);
    }
    if(form == 6) {
        if(many) return mkn(r.chance(0.5) ? list(NONEOF, { v }) : cmp(VNIN, v));
        if((d.ty == I || d.ty == S) && r.chance(0.5)) return mkn(list(NIN, { v }));
        return mkn(cmp(NE, v));
    }
    if(many) {
        if(w == v || r.chance(0.4)) return list(ONEOF, r.chance(0.5) ? vector<i64>{ v, w } : vector<i64>{ w, v });
        return mkb(OR, cmp(VIN, v), cmp(VIN, w));
    }
    if((d.ty == I || d.ty == S) && r.chance(0.4)) return list(IN, { v, w });
    E a = cmp(EQ, v), b = cmp(EQ, w);
    if(r.chance(0.5)) std::swap(a, b);
    if(r.chance(0.3)) return mkn(mkb(AND, mkn(a), mkn(b)));
    return mkb(OR, a, b);
}

static void p_effect(Case& c)
{
    Rng& r = c.r;
    int mode = (int)(c.index % 5);
    auto flag = [](const char* f, u64 v) { return string(f) + "=" + str(v); };
    (void)flag;
    if(mode == 0) { // disjoint values of a required bounded attribute
        Decl d;
        d.name = "sel";
        d.ty = r.pick(vector<Ty>{ I, I, F, S, IL, SL, IE });
        d.allow = false;
        i64 base = r.chance(0.4) ? 0 : r.chance(0.5) ? -500 : r.range(-100000, 100000);
        i64 span = r.range(150, 990);
        auto sv = [&](i64 v) { return "v" + str((u64)(v - base)); };
        bool counted = d.ty == S || d.ty == SL || d.ty == IE;
        if(counted) d.cap = (u64)span + 1;
        d.hasMin = d.hasMax = true;
        d.imin = base, d.imax = base + span;
        d.fmin = (double)base, d.fmax = (double)(base + span);
        Decl o;
        o.name = "flag";
        o.ty = B;
        o.allow = r.chance(0.5);
        if(r.chance(0.5)) c.w.add(o), c.w.add(d);
        else c.w.add(d), c.w.add(o);
        Tree t = c.make(0, c.w, (int)r.range(1, 8), 0);
        int n = (int)r.range(120, 300);
        vector<i64> used;
        bool batch = r.chance(0.3);
        vector<std::pair<int, Sub>> ready;
        int form = (int)r.below(7); // 3: all of the first, 4: ranges, 5: pairs, 6: denied opposites
        for(int i = 0; i < n; i++) {
            i64 v = base + r.range(0, span);
            // cover the ends first
            if(i == 0) v = base;
            if(i == 1) v = base + span;
            int f = form == 3 ? (int)r.below(3) : form;
            auto e = mk(EQ);
            e->attr = "sel";
            if(f >= 4) {
                E x = effect_choice(r, d, base, span, v, f);
                if(r.chance(0.3)) {
                    auto b = mk(BVAR);
                    b->attr = "flag";
                    x = r.chance(0.5) ? mkb(AND, x, b) : mkb(AND, b, x);
                }
                if(batch) {
                    if(c.prepare(t, i, (u64)i + 1, x, {}, spell(r, x)) == '1') ready.push_back({ i, { (u64)i + 1, x, {} } });
                }
                else c.insert(t, (u64)i + 1, x, {});
                used.push_back(v);
                continue;
            }
            if(d.ty == IL || d.ty == SL) {
                e->op = f == 0 ? VIN : f == 1 ? ONEOF : ALLOF;
                if(f == 0) {
                    if(d.ty == SL) e->lit.k = 's', e->lit.s = sv(v);
                    else e->lit.i = v;
                }
            }
            else if(f == 1 && (d.ty == I || d.ty == S)) e->op = IN;
            bool neg = e->op == EQ && f == 2;
            if(neg) e->op = NE;
            if(e->op == EQ || e->op == NE) {
                if(d.ty == F) e->lit.k = 'f', e->lit.f = (double)v;
                else if(d.ty == S) e->lit.k = 's', e->lit.s = sv(v);
                else e->lit.i = v;
            }
            if(e->op == IN || e->op == ONEOF || e->op == ALLOF) {
                if(d.ty == S || d.ty == SL) e->lk = 's', e->sl = { sv(v) };
                else e->il = { v };
            }
            E x = e;
            if(neg) x = mkn(x);
            if(r.chance(0.3)) {
                auto b = mk(BVAR);
                b->attr = "flag";
                x = mkb(AND, x, r.chance(0.5) ? E(b) : E(mkn(b)));
            }
            if(batch) {
                if(c.prepare(t, i, (u64)i + 1, x, {}, spell(r, x)) == '1') ready.push_back({ i, { (u64)i + 1, x, {} } });
            }
            else c.insert(t, (u64)i + 1, x, {});
            used.push_back(v);
        }
        for(auto& p : ready) c.put(t, p.first, p.second);
        for(int i = 0; i < 6; i++) {
            Event e(2);
            int si = c.w.find("sel"), fi = c.w.find("flag");
            // a value nothing selects has no place among the strings, only known ones narrow
            i64 v = counted || r.chance(0.7) ? r.pick(used) : base + r.range(0, span);
            e[si].def = true, e[si].i = v, e[si].f = (double)v, e[si].s = sv(v);
            e[si].il = { v }, e[si].sl = { sv(v) };
            e[fi].def = true, e[fi].b = r.chance(0.5);
            EvH h = c.event(c.w, e);
            c.query(t, h, r.chance(0.5) ? 'S' : 's', { "e<=" + str(n / 4) });
        }
        c.nontrivial = true;
    }
    else if(mode == 1) { // decided by an undefined attribute
        c.k.amin = 2, c.k.amax = 5;
        c.k.opt = 0.3;
        c.k.missing = 0;
        c.k.capped = 0;
        c.w = make_world(r, c.k);
        int pos = (int)r.below(3);
        World w2;
        Decl g;
        g.name = "gate";
        g.ty = r.pick(vector<Ty>{ B, I, S, F, IL, SL, IE, SEG, FC });
        bool geo = r.chance(0.1);
        if(geo) g.ty = F;
        g = make_decl(r, c.k, geo ? r.chance(0.5) ? "latitude" : "longitude" : g.ty == FC ? "frequency_caps" : g.ty == SEG && r.chance(0.5) ? "segments_with_timestamp" : "gate", g.ty);
        g.allow = true;
        // what else the gate reads; either of the two may be the undefined one
        Decl g2;
        string undef = g.name;
        if(geo || g.ty == SEG || g.ty == FC) {
            g2 = make_decl(r, c.k, geo ? g.name == "latitude" ? "longitude" : "latitude" : "now", geo ? F : I);
            g2.allow = r.chance(0.5);
            if(g2.allow && r.chance(0.5)) undef = g2.name;
            if(!geo) g2.hasMin = g2.hasMax = false, g2.ip = { 0, 10, 100, 1000, 1500, 2000 };
        }
        if(geo) g.hasMin = g.hasMax = g2.hasMin = g2.hasMax = false, g.fp = g2.fp = { 0, 45, -45, 10.25, 10.5 };
        int fill = pos == 2 ? (int)r.range(60, 70) : 0;
        for(int i = 0; i < fill; i++) {
            Decl f;
            f.name = "pad" + str(i);
            f.ty = B;
            w2.add(f);
        }
        if(pos == 0) w2.add(g);
        for(auto& d : c.w.d) w2.add(d);
        if(pos != 0) w2.add(g);
        if(!g2.name.empty()) w2.add(g2);
        c.w = w2;
        World only;
        only.add(g);
        if(!g2.name.empty()) only.add(g2);
        Knobs k2 = c.k;
        k2.nullp = 0, k2.litb = 0;
        Tree t = c.make(0, c.w);
        int n = (int)r.range(3, 30);
        for(int i = 0; i < n; i++) {
            E gate = geo ? gen_geo(r) : gen_atom(r, k2, only);
            while(!geo && !g2.name.empty() && gate->op != SEGW && gate->op != SEGB && gate->op != FREQ) gate = gen_atom(r, k2, only);
            E e = c.expr((int)r.below(3));
            e = r.chance(0.5) ? mkb(AND, gate, e) : mkb(AND, e, gate);
            if(r.chance(0.3)) e = mkb(AND, e, c.expr(1));
            c.insert(t, (u64)i + 1, e, c.consts_for(e));
        }
        int gi = c.w.find(undef);
        for(int i = 0; i < 4; i++) {
            Event e = gen_event(r, c.k, c.w, c.geos);
            e[gi] = Val();
            EvH h = c.event(c.w, e);
            c.query(t, h, r.chance(0.5) ? 'S' : 's', { "S=e" });
        }
        c.nontrivial = true;
    }
    else if(mode == 2) { // repeated sub-expressions
        c.k.amin = 2, c.k.amax = 4;
        c.k.opt = 0;
        c.k.missing = 0;
        c.k.litb = 0, c.k.nullp = 0;
        c.k.capped = 0;
        c.k.bounded = 0;
        c.k.seg = r.chance(0.3), c.k.fc = r.chance(0.3), c.k.geo = r.chance(0.3);
        c.w = make_world(r, c.k);
        Tree t = c.make(0, c.w, 64, 0);
        E sub = c.k.geo && r.chance(0.5) ? gen_geo(r) : gen_atom(r, c.k, c.w);
        if(sub->op == GEO) c.geos.push_back(sub);
        Consts cs = c.consts_for(sub);
        int n = (int)r.range(5, 25);
        bool bare = r.chance(0.3);
        for(int i = 0; i < n; i++) {
            // the shared part decides nothing about the rest, whichever side is tried first
            E e = bare ? sub : r.chance(0.5) ? mkb(AND, sub, sub) : mkb(OR, sub, mkb(AND, sub, sub));
            c.insert(t, (u64)i + 1, e, cs, r.chance(0.3) ? WILD : PLAIN);
        }
        for(int i = 0; i < 4; i++) {
            EvH h = c.random_event();
            // all but the first expression met can reuse
            c.query(t, h, r.chance(0.5) ? 'S' : 's', { "m>=" + str(n - 1) });
        }
        c.nontrivial = true;
    }
    else { // counters on ordinary collections
        p_mixed(c);
        return;
    }
}

// ----------------------------------------------------------------------- main
struct Profile {
    const char* name;
    void (*fn)(Case&);
};
static const Profile PROFILES[] = { { "mixed", p_mixed }, { "shape", p_shape }, { "undef", p_undef }, { "share", p_share }, { "exists", p_exists },
    { "repeat", p_repeat }, { "events", p_events }, { "required", p_required }, { "refuse", p_refuse }, { "spell", p_spell }, { "lists", p_lists },
    { "numeric", p_numeric }, { "bounds", p_bounds }, { "strings", p_strings }, { "freq", p_freq }, { "seg", p_seg }, { "geostr", p_geostr },
    { "fuzz", p_fuzz }, { "par", p_par }, { "multi", p_multi }, { "multipar", p_multipar }, { "scale", p_scale }, { "volume", p_volume }, { "volumesmall", p_volume_small }, { "volstrings", p_vol_strings }, { "volpreds", p_vol_preds }, { "vollists", p_vol_lists },
    { "volattrs", p_vol_attrs }, { "volspecial", p_vol_special }, { "volleaves", p_vol_leaves }, { "volleaf", p_vol_leaf }, { "volhistory", p_vol_history }, { "memory", p_memory }, { "decl", p_decl },
    { "effect", p_effect } };

int main(int argc, char** argv)
{
    string prof, hfile;
    u64 seed = 1, from = 0, count = 1;
    for(int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if(a == "--profile") prof = v;
        else if(a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if(a == "--from") from = strtoull(v.c_str(), nullptr, 10);
        else if(a == "--count") count = strtoull(v.c_str(), nullptr, 10);
        else if(a == "--hashes") hfile = v;
        else return 2;
    }
    const Profile* p = nullptr;
    for(auto& x : PROFILES)
        if(prof == x.name) p = &x;
    if(!p) {
        fprintf(stderr, "unknown profile %s\n", prof.c_str());
        return 2;
    }
    for(u64 i = from; i < from + count; i++) {
        u64 h = fnv(prof, 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull));
        Rng mix(h + i * 0xD1B54A32D192ED03ull);
        Case c(mix.next(), i);
        size_t start = out.buf.size();
        out.line({ "CASE", str(i), prof });
        size_t body = out.buf.size();
        p->fn(c);
        stt.cases++;
        if(c.nontrivial || c.sawrefuse) {
            stt.nontrivial++;
            hashes.insert(fnv(out.buf.substr(body)));
        }
        (void)start;
        if(out.buf.size() > (1 << 20)) {
            fwrite(out.buf.data(), 1, out.buf.size(), stdout);
            out.buf.clear();
        }
    }
    fwrite(out.buf.data(), 1, out.buf.size(), stdout);
    fflush(stdout);
    if(!hfile.empty()) {
        FILE* f = fopen(hfile.c_str(), "wb");
        for(u64 h : hashes) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    fprintf(stderr,
        "{\"cases\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"queries\":%lu,\"true\":%lu,\"false\":%lu,\"accepted\":%lu,\"refused\":%lu,\"unspecified\":%lu,"
        "\"events\":%lu,\"refused_events\":%lu}\n",
        stt.cases, stt.nontrivial, hashes.size(), stt.queries, stt.truths, stt.falses, stt.accepted, stt.refused, stt.unspecified, stt.events,
        stt.refused_events);
    return 0;
}

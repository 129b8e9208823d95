// Debug-support worlds (C15): the same histories on the debug build, with a pool of iterators of any lifetime, ended by
// one misuse.  World id = simrun world id + 40, so that functional findings can be compared with the release build.
#include "world.hpp"
#include "gen.hpp"
#include "debug_rt.hpp"
#include <cstdlib>
#define STR2(x) #x
#define STR(x) STR2(x)

namespace sim {

template <int K, bool SO, template <class> class A> struct D : W<K, SO, A> {
    typedef W<K, SO, A> B; typedef typename B::CB CB; typedef typename B::E E; typedef typename B::Al Al; typedef typename B::iterator It; typedef typename B::const_iterator Ct;
    using B::P; using B::R; using B::m; using B::cb; using B::k; using B::copyable; using B::is_class;
    enum St { EMPTY, ELEM, END, INVALID, UNKNOWN, DEFAULT };
    struct Slot { St st = EMPTY; bool cst = false; int c = 0; long idx = 0; };
    static const int NS = 10;
    Slot s[NS]; static char* mem0;
    D(const Plan& p, RunResult& r) : B(p, r) { memset(mem0, 0xDD, NS * 64); }
    void* at(int i) { return mem0 + 64 * i; }
    It& it(int i) { return *static_cast<It*>(at(i)); }
    Ct& ct(int i) { return *static_cast<Ct*>(at(i)); }
    void drop(int i) {
        if (s[i].st == EMPTY) return;
        if (s[i].cst) ct(i).~Ct(); else it(i).~It();
        memset(at(i), 0xDD, 64); s[i].st = EMPTY;
    }
    void put(int i, bool cst, const It& v, St st, int c, long idx) {
        drop(i);
        if (cst) ::new (at(i)) Ct(v); else ::new (at(i)) It(v);
        s[i].st = st; s[i].cst = cst; s[i].c = c; s[i].idx = idx;
    }
    void copy_slot(int a, int b) {                                  // slot a becomes a copy of slot b
        if (a == b || s[b].st == EMPTY) return;
        bool cst = s[b].cst; drop(a);
        if (cst) ::new (at(a)) Ct(ct(b)); else ::new (at(a)) It(it(b));
        s[a] = s[b];
    }
    void assign_slot(int a, int b) {
        if (s[a].st == EMPTY || s[b].st == EMPTY) return;
        if (!s[a].cst && s[b].cst) return;
        if (s[a].cst) { if (s[b].cst) ct(a) = ct(b); else ct(a) = it(b); } else it(a) = it(b);
        bool cst = s[a].cst; s[a] = s[b]; s[a].cst = cst;
    }
    void bad(const char* what, const std::string& d) { violate(C15 | C14, what, d); }
    void verify() {                                                 // every tracked iterator designates what it should
        for (int i = 0; i < NS; ++i) {
            if (s[i].st != ELEM && s[i].st != END) continue;
            CB& c = *cb[s[i].c]; const CB& cc = c; long n = long(c.size());
            long pos = s[i].cst ? ct(i) - cc.begin() : it(i) - c.begin();
            long want = s[i].st == END ? n : s[i].idx;
            if (pos != want) { bad("kept-iterator-displaced", "position " + std::to_string(pos) + " expected " + std::to_string(want)); return; }
            if (s[i].st == ELEM) { const E* p = s[i].cst ? std::addressof(*ct(i)) : std::addressof(*it(i)); if (p != std::addressof(c[size_t(want)])) { bad("kept-iterator-displaced", "wrong element"); return; } }
            else if (!(s[i].cst ? ct(i) == cc.end() : it(i) == c.end())) { bad("kept-iterator-displaced", "end"); return; }
        }
    }
    void all_of(int c, St st, bool keep_end) { for (auto& x : s) if (x.c == c && (x.st == ELEM || x.st == UNKNOWN || x.st == END)) { if (x.st == END && keep_end) continue; x.st = x.st == UNKNOWN && st == INVALID ? UNKNOWN : st; } }
    Model pre;
    void after(const Step& st) {
        int c = st.c % 3, d = st.d % 3;
        // a call that had nothing to do need not invalidate what it is allowed to invalidate
        bool idle = st.op != LINEARIZE && m[c].v == pre.v && m[c].cap == pre.cap && m[c].mincap == pre.mincap; St gone = idle ? UNKNOWN : INVALID;
        if (!B::last_did) return;
        if (k.ctor) { for (auto& x : s) if (x.c == c && x.st != EMPTY && x.st != DEFAULT) x.st = INVALID; if (st.op == CT_MOVE) all_of(d, UNKNOWN, false); return; }
        if (B::last_failed) { if (!k.strong) all_of(c, UNKNOWN, false); return; }
        if (st.op == SWAP || st.op == SWAP_FREE) { all_of(c, INVALID, false); all_of(d, INVALID, false); return; }
        if (st.op == AS_MOVE) { all_of(c, UNKNOWN, false); all_of(d, UNKNOWN, false); return; }
        if (SO && st.op == CHURN) { all_of(c, UNKNOWN, false); return; }
        if (SO && st.op == ROTATE) { all_of(c, UNKNOWN, true); return; }
        if (!k.map_set) return;
        for (auto& x : s) if (x.c == c) {
            if (x.st == ELEM) { long j = size_t(x.idx) < k.map.size() ? k.map[size_t(x.idx)] : -1; if (j < 0) x.st = gone; else x.idx = j; }
            else if (x.st == END && !k.end_stable) x.st = UNKNOWN;
        }
    }
    void pattern() {                                                // storage holding no element carries the documented fill
        if (!is_class || B::had_fault) return;                     // a rolled back construction leaves its bytes
        for (uint32_t b = 1; b < block_count(); ++b) if (block(b).live && block(b).elem) for (uint32_t i = 0; i < block(b).n; ++i) {
            const char* p = block(b).p + size_t(i) * block(b).esz; if (is_live(p)) continue;
            for (uint32_t q = 0; q < block(b).esz; ++q) if (uint8_t(p[q]) != 0xCC) { violate(C15, "uninitialized-memory-not-filled", "slot " + std::to_string(i) + " of " + std::to_string(block(b).n)); return; }
        }
    }
    std::vector<E> some(size_t n) { std::vector<long> v; for (size_t i = 0; i < n; ++i) v.push_back(long(i) + 50); return B::items(v); }

    // ------------------------------------------------------------------ iterator lifetimes
    void keep(const Step& st) {
        int c = st.c % 3, a = int(st.y % NS), b = int(st.z % NS); CB& x = *cb[c]; size_t n = x.size(); bool cst = st.z / NS % 2;
        switch (st.x % 16) {
        case 0: case 1: case 2: case 3: if (n) { size_t j = st.y / NS % n; put(a, cst, st.z & 1 ? x.begin() + j : x.end() - (n - j), ELEM, c, long(j)); } break;
        case 4: case 5: put(a, cst, x.end(), END, c, 0); break;
        case 6: case 7: copy_slot(a, b); break;
        case 8: case 9: assign_slot(a, b); break;
        case 10: drop(a); break;
        case 11: drop(a); if (cst) ::new (at(a)) Ct(); else ::new (at(a)) It(); s[a].st = DEFAULT; s[a].cst = cst; break;
        case 12: { if (a == b || s[a].st == EMPTY || s[b].st == EMPTY || s[a].cst != s[b].cst) break;
            if (s[a].cst) std::swap(ct(a), ct(b)); else std::swap(it(a), it(b));
            std::swap(s[a], s[b]); break; }
        case 13: { NoLib l; std::reverse(x.begin(), x.end()); std::reverse(m[c].v.begin(), m[c].v.end()); break; }
        case 14: temporary(c, a, cst, st, std::integral_constant<bool, copyable>()); break;
        default: {                                                  // many short-lived copies, in vectors that reallocate
            std::vector<It> v; std::vector<Ct> w; for (size_t j = 0; j < n; ++j) { v.push_back(x.begin() + j); w.push_back(v.back()); }
            if (n > 1) { v.erase(v.begin() + long(st.y % n)); w.insert(w.begin() + long(st.z % n), x.end()); }
            std::vector<Ct> u(w); w = u; u.swap(w); break; }
        }
    }
    // a buffer that dies while iterators to it live on
    void temporary(int c, int a, bool cst, const Step& st, std::true_type) {
        const CB& o = *cb[c]; NoLib l; if (o.size() + 3 > P.max_elems) return;
        static char room[sizeof(CB) + 64]; void* p = room + (64 - reinterpret_cast<uintptr_t>(room) % 64) % 64; CB* t;
        switch (st.y / NS % 4) {
        case 0: t = ::new (p) CB(o); break;
        case 1: t = ::new (p) CB(o.begin(), o.end(), Al(0)); break;
        case 2: t = ::new (p) CB(B::mkcap(o.size() + 3, 0), o.begin(), o.end(), Al(0)); t->insert(t->begin(), o.begin(), o.end()); break;
        default: { t = ::new (p) CB(B::mkcap(o.size() + 1, 0), Al(0)); for (Ct i = o.begin(); i != o.end(); ++i) t->push_front(*i); t->assign(o.rbegin(), o.rend()); break; }
        }
        if (st.z & 1 && t->size()) put(a, cst, t->begin() + long(st.z % t->size()), ELEM, 7, 0); else put(a, cst, t->end(), END, 7, 0);
        t->~CB(); memset(p, 0xDD, sizeof(CB)); s[a].st = INVALID;
    }
    void temporary(int, int, bool, const Step&, std::false_type) {}

    // ------------------------------------------------------------------ the misuse
    static void untouched(void* w) { static_cast<D*>(w)->compare_state(); }
    void compare_state() {
        for (int i = 0; i < 3; ++i) {
            if (cb[i]->size() != m[i].v.size() || B::cap_of(*cb[i]) != m[i].cap) { violate(C15, "misuse-took-effect", "size or capacity of #" + std::to_string(i)); return; }
            for (size_t j = 0; j < m[i].v.size(); ++j) { const E* p = std::addressof((*cb[i])[j]); if (is_class && !is_live(p)) { violate(C15, "misuse-took-effect", "element gone", true); return; } if (peek(*p) != m[i].v[j]) { violate(C15, "misuse-took-effect", "element changed"); return; } }
        }
    }
    template <class F> bool mis(const char* name, F&& f) {
        tracef("    misuse: %s", name); ++COV.probes[PR_DEBUG_MISUSE]; mix(0x3151 + uint64_t(name[0]) * 31 + uint64_t(name[1])); what = name;
        uint64_t cs = 1469598103934665603ull; for (const char* q = name; *q; ++q) cs = (cs ^ uint64_t(*q)) * 1099511628211ull;
        cs = (cs ^ (uint64_t(P.world) << 32 ^ m[0].v.size() << 16 ^ m[0].cap << 8 ^ B::cb[0]->array_one().second)) * 1099511628211ull; COV.states.insert(cs);
        dbg::armed = true; { Lib l; f(); } dbg::armed = false;
        violate(C15, "misuse-not-reported", name, true);
        return true;
    }
    const char* what = "";
    int pick(St st, uint32_t r) { int v[NS], n = 0; for (int i = 0; i < NS; ++i) if (s[i].st == st) v[n++] = i; return n ? v[r % uint32_t(n)] : -1; }
    template <class I> bool use_bad(I& i, const Step& st, const char* which, bool isdef) {      // invalid or default iterator of type I
        CB& x = *cb[st.c % 3]; const CB& cx = x; Ct other = cx.begin(); std::string nm;
        auto go = [&](const char* w, auto f) { nm = std::string(which) + " iterator: " + w; static std::string keep_; keep_ = nm; return mis(keep_.c_str(), f); };
        static volatile bool sink; 
        switch (st.y % 16) {
        case 0: return go("dereference", [&] { sink = std::addressof(*i) == nullptr; });
        case 1: return go("arrow", [&] { sink = i.operator->() == nullptr; });
        case 2: return go("++", [&] { ++i; });
        case 3: return go("--", [&] { --i; });
        case 4: return go("i++", [&] { I j = i++; (void)j; });
        case 5: return go("i--", [&] { I j = i--; (void)j; });
        case 6: return go("+= n", [&] { i += long(st.z % 5) + (isdef ? 1 : 0); });
        case 7: return go("-= n", [&] { i -= long(st.z % 5) + (isdef ? 1 : 0); });
        case 8: return go("[]", [&] { sink = std::addressof(i[long(st.z % 3)]) == nullptr; });
        case 9: return go("== valid", [&] { sink = st.z & 1 ? i == other : other == i; });
        case 10: return go("!= valid", [&] { sink = st.z & 1 ? i != other : other != i; });
        case 11: return go("ordering with valid", [&] { switch (st.z % 4) { case 0: sink = other < i; break; case 1: sink = i > other; break; case 2: sink = i <= other; break; default: sink = other >= i; } });
        case 12: return go("valid - bad", [&] { sink = other - i; });
        case 13: if (isdef) return false; return go("bad - valid", [&] { sink = i - other; });
        case 14: if (isdef) return false; return go("bad == bad", [&] { sink = i == i; });
        default: return go("rotate", [&] { x.rotate(i); });
        }
    }
    bool as_position(const It& i, const Step& st, const char* which, bool can_insert) {    // passing it to the members of buffer st.c
        CB& x = *cb[st.c % 3]; static std::string nm; nm = std::string(which) + " as position";
        E e = make<E>(5); size_t n = x.size();
        return mis(nm.c_str(), [&] {
            switch (st.y / 16 % (can_insert ? 8u : 3u)) {
            case 0: x.erase(i); break;
            case 1: x.rerase(i); break;
            case 2: x.rotate(i); break;
            case 3: x.insert(i, std::move(e)); break;
            case 4: x.rinsert(i, std::move(e)); break;
            case 5: if (st.z & 1) x.erase(i, x.end()); else x.erase(x.begin() + long(st.z / 2 % (n + 1)), i); break;
            case 6: if (st.z & 1) x.rerase(i, x.end()); else x.rerase(x.begin() + long(st.z / 2 % (n + 1)), i); break;
            default: fill_at(x, i, st, std::integral_constant<bool, copyable>()); break;
            }
        });
    }
    void fill_at(CB& x, const It& i, const Step& st, std::true_type) { const E e = make<E>(5); std::vector<E> v = some(2); switch (st.z % 4) { case 0: x.insert(i, size_t(2), e); break; case 1: x.rinsert(i, size_t(2), e); break; case 2: x.insert(i, v.data(), v.data() + 2); break; default: x.rinsert(i, v.data(), v.data() + 2); } }
    void fill_at(CB& x, const It& i, const Step&, std::false_type) { x.insert(i, make<E>(5)); }
    bool misuse(const Step& st) {
        int c = st.c % 3; CB& x = *cb[c]; const CB& cx = x; size_t n = x.size(), cap = B::cap_of(x); static volatile bool sink;
        switch (st.x % 16) {
        case 0: case 1: case 2: case 3: case 4: { int i = pick(INVALID, st.z); if (i < 0) return false;
            if (!s[i].cst && st.z / NS % 3 == 0) return as_position(it(i), st, "invalidated", true);
            return s[i].cst ? use_bad(ct(i), st, "invalidated", false) : use_bad(it(i), st, "invalidated", false); }
        case 5: { int i = pick(DEFAULT, st.z); if (i < 0) { i = 0; drop(0); ::new (at(0)) It(); s[0].st = DEFAULT; s[0].cst = false; }
            if (!s[i].cst && st.z / NS % 3 == 0) return as_position(it(i), st, "default", true);
            return s[i].cst ? use_bad(ct(i), st, "default", true) : use_bad(it(i), st, "default", true); }
        case 6: { It e = x.end();
            switch (st.y % 8) {
            case 0: return mis("dereference end", [&] { sink = std::addressof(*e) == nullptr; });
            case 1: return mis("++end", [&] { ++e; });
            case 2: return mis("end += n", [&] { e += 1 + long(st.z % 9); });
            case 3: return mis("end[0]", [&] { sink = std::addressof(e[0]) == nullptr; });
            case 4: if (B::TINY && n > 116) return false; return mis("end -= too much", [&] { e -= long(n) + 1 + long(st.z % 7); });
            default: return as_position(e, st, "end", false); } }
        case 7: case 8: { int i = pick(ELEM, st.z); It v = x.begin(); long idx = 0; CB* y = &x;
            if (i >= 0) { y = cb[s[i].c]; idx = s[i].idx; v = y->begin() + idx; if (!s[i].cst) v = it(i); }
            size_t sz = y->size();
            if (B::TINY && sz > 116) return false;                       // a distance beyond the end has to fit difference_type
            switch (st.y % 6) {
            case 0: { It b = y->begin(); return mis("--begin", [&] { --b; }); }
            case 1: return mis("+= beyond end", [&] { v += long(sz) - idx + 1 + long(st.z % 9); });
            case 2: return mis("-= before begin", [&] { v -= idx + 1 + long(st.z % 9); });
            case 3: return mis("+ beyond end", [&] { It w = v + (long(sz) - idx + 1 + (st.z % 5 ? 0 : 1L << 40)); sink = w == v; });
            case 4: return mis("[] beyond end", [&] { sink = std::addressof(v[long(sz) - idx + long(st.z % 3)]) == nullptr; });
            default: return mis("- before begin", [&] { It w = v - (idx + 1 + (st.z % 5 ? 0 : 1L << 40)); sink = w == v; }); } }
        case 9: case 10: { int d = st.d % 3; if (d == c) return false; CB& y = *cb[d]; It a = x.begin() + long(st.z % (n + 1)), b = y.begin() + long(st.z / 7 % (y.size() + 1)); Ct ca = a, cbb = b;
            switch (st.y % 10) {
            case 0: return mis("== foreign", [&] { sink = a == b; });
            case 1: return mis("!= foreign", [&] { sink = ca != b; });
            case 2: return mis("< foreign", [&] { sink = a < cbb; });
            case 3: return mis("- foreign", [&] { sink = ca - cbb; });
            case 4: return mis(">= foreign", [&] { sink = a >= b; });
            case 5: return mis("erase range ending elsewhere", [&] { if (st.z & 1) x.erase(a, b); else x.rerase(a, b); });
            case 6: return mis("erase range starting elsewhere", [&] { if (st.z & 1) x.erase(b, a); else x.rerase(b, a); });
            default: return as_position(b, st, "foreign", true); } }
        case 11: { if (n < 2) return false; size_t f = st.y % (n - 1), l = f + 1 + st.z % (n - f); if (l > n) l = n; It a = x.begin() + long(f), b = x.begin() + long(l);
            return mis("reversed range", [&] { if (st.z & 1) x.erase(b, a); else x.rerase(b, a); }); }
        case 12: { if (n) return false;
            switch (st.y % 6) {
            case 0: return mis("front of empty", [&] { sink = std::addressof(x.front()) == nullptr; });
            case 1: return mis("back of empty", [&] { sink = std::addressof(x.back()) == nullptr; });
            case 2: return mis("const front of empty", [&] { sink = std::addressof(cx.front()) == nullptr; });
            case 3: return mis("const back of empty", [&] { sink = std::addressof(cx.back()) == nullptr; });
            case 4: return mis("pop_front of empty", [&] { x.pop_front(); });
            default: return mis("pop_back of empty", [&] { x.pop_back(); }); } }
        case 13: { size_t i = n + (st.y % 5 ? st.y / 5 % 4 : size_t(1) << 40); return mis("index out of range", [&] { if (st.z & 1) sink = std::addressof(x[i]) == nullptr; else sink = std::addressof(cx[i]) == nullptr; }); }
        case 14: return counts(x, st, n, cap);
        default: return fills(x, st, std::integral_constant<bool, copyable>()); }
    }
    bool counts(CB& x, const Step& st, size_t n, size_t) { return counts_(x, st, n, std::integral_constant<bool, SO>()); }
    bool counts_(CB& x, const Step& st, size_t n, std::false_type) { size_t q = n + 1 + (st.y % 4 ? st.y / 4 % 5 : size_t(1) << 40); return mis("erase_begin/end of too many", [&] { if (st.z & 1) x.erase_begin(q); else x.erase_end(q); }); }
    bool counts_(CB&, const Step& st, size_t, std::true_type) { size_t c = st.y % 7; return mis("capacity control below its minimum", [&] { typename CB::capacity_type t(c, c + 1 + st.z % 5); (void)t; }); }
    bool fills(CB& x, const Step& st, std::true_type) {
        const E e = make<E>(5); std::vector<E> v = some(3); size_t c = st.z % 7; static char room[sizeof(CB) + 64]; void* p = room + (64 - reinterpret_cast<uintptr_t>(room) % 64) % 64;
        if (B::cap_of(x) > P.max_elems && st.y % 7 > 4) return false;   // "unlimited": refused as too long (length_error) first
        switch (st.y % 7) {
        case 0: return mis("assign of more than the capacity", [&] { x.assign(B::mkcap(c, 0), c + 1 + st.z / 7 % 4, e); });
        case 1: return mis("constructor with more than the capacity", [&] { ::new (p) CB(B::mkcap(c, 0), c + 1 + st.z / 7 % 4, e, Al(0)); });
        case 2: return mis("constructor from reversed range", [&] { ::new (p) CB(v.data() + 2, v.data(), Al(0)); });
        case 3: return mis("assign of reversed range", [&] { x.assign(v.data() + 2, v.data()); });
        case 4: return mis("assign of reversed range with capacity", [&] { x.assign(B::mkcap(4, 0), v.data() + 2, v.data()); });
        case 5: return mis("insert of reversed range", [&] { x.insert(x.begin() + long(st.z % (x.size() + 1)), v.data() + 2, v.data()); });
        default: return mis("rinsert of reversed range", [&] { x.rinsert(x.begin() + long(st.z % (x.size() + 1)), v.data() + 2, v.data()); }); }
    }
    bool fills(CB&, const Step&, std::false_type) { return false; }

    void go() {
        if (!B::start()) return;
        for (size_t i = 0; i < P.steps.size(); ++i) {
            const Step& st = P.steps[i];
            if (st.op == XD || st.op == XC) {
                S.step = int(i); S.step_tags = C15; ++R.steps_run; ++COV.op_runs[st.op];
                tracef("step %zu: %s c=%d x=%u y=%u z=%u", i, op_names[st.op], st.c % 3, st.x, st.y, st.z);
                if (st.op == XD) { keep(st); verify(); if (!B::settle(int(i))) return; continue; }
                if (misuse(st)) { B::settle(int(i)); return; }
                continue;
            }
            pre = m[st.c % 3];
            if (!B::step(int(i), st)) return;
            after(st); verify(); pattern();
            if (!B::settle(int(i))) return;
        }
        for (int i = 0; i < NS; i += 2) drop(i);
        B::finish();
        memset(B::mem, 0xDD, sizeof B::mem);
        for (int i = 0; i < NS; ++i) drop(i);
    }
    static void run(const Plan& p, RunResult& r) {
        begin_run();
        static const bool only = getenv("SIM_DBG_ONLY") != nullptr;
        if (!only) S.extra_tags = C15;
        D* w = new D(p, r);
        dbg::armed = false; dbg::who = w; dbg::check_untouched = &untouched;
        int j = sigsetjmp(dbg::top, 0);
        if (j == 0) { dbg::live = true; w->go(); dbg::live = false; }
        else { r.viol.clear(); w->settle(S.step); }
        dbg::live = false; dbg::armed = false;
        r.hash = S.hash; r.events = S.events;
        S.viol.clear(); S.lib = 0; S.arm = 0;
        if (j == 0) delete w;                                       // after a jump frames of the run were abandoned: leave their memory alone
    }
    static Plan gen(int world, int prop, uint64_t seed) {
        Plan p = generate_for(world, prop, seed); Rng r(seed ^ 0xDEB06);
        for (int i = 0; i < 3; ++i) if (p.caps[i] > 16 && r.chance(9, 10)) p.caps[i] %= 17;
        for (int i = 0; i < 3; ++i) if (p.mins[i] > p.caps[i]) p.mins[i] = p.caps[i];
        std::vector<Step> v;
        auto xd = [&] { Step t; t.op = XD; t.c = uint8_t(r.below(3)); t.d = uint8_t(r.below(3)); t.x = uint32_t(r.next() & 0xffff); t.y = uint32_t(r.next() & 0xffffff); t.z = uint32_t(r.next() & 0xffffff); v.push_back(t); };
        uint32_t rate = r.below(4);
        for (int i = 0; i < 4; ++i) if (rate) xd();
        for (Step& t : p.steps) { while (r.chance(rate, 6)) xd(); v.push_back(t); }
        if (r.chance(3, 4)) for (int i = 0; i < 8; ++i) { Step t; t.op = XC; t.c = uint8_t(r.below(3)); t.d = uint8_t(r.below(3)); t.x = uint32_t(r.next() & 0xffff); t.y = uint32_t(r.next() & 0xffff); t.z = uint32_t(r.next() & 0xffffff); v.push_back(t); }
        p.steps.swap(v); return p;
    }
    static bool supports(int op) { return B::supports(op) || op == XC || op == XD; }
};
template <int K, bool SO, template <class> class A> char* D<K, SO, A>::mem0 = static_cast<char*>(aligned_alloc(64, 64 * 16));

typedef D<WK, WSO, WA> T;
static struct Reg2 { Reg2() { register_world(WID, World{(WSO ? "debug space_optimized<" STR(WK) "," STR(WA) ">" : "debug circular_buffer<" STR(WK) "," STR(WA) ">"), WSO, WK, STR(WA), &T::supports, &T::run, false, &T::gen, 1}); } } reg2;

}  // namespace sim

// One simulated world: a container type x element kind x allocator, driven by a Plan and judged by a reference model.
#pragma once
#include <climits>
#include <iterator>
#include <deque>
#include <list>
#include "plan.hpp"
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <stdexcept>

namespace sim {

struct Model { std::vector<long> v; size_t cap = 0, mincap = 0; int aid = 0; };

template <class E> struct KT { static const bool copyable = std::is_copy_constructible<E>::value; };

enum Exc { X_NONE, X_FAULT, X_RANGE, X_LENGTH, X_ARENA, X_OTHER };
struct Out { Exc x = X_NONE; uint64_t serial = 0; std::string what; };

struct Obs {
    size_t size = 0, cap = 0, mincap = 0, reserve = 0, one = 0; bool empty = true, full = false, lin = false, bad = false; int aid = 0;
    std::vector<long> v; std::vector<const void*> a;
};

inline std::string show(const std::vector<long>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i) { if (i) s += ' '; s += v[i] == MOVED ? "MOVED" : v[i] == DEADID ? "DEAD" : std::to_string(v[i]); }
    return s + "]";
}
inline std::vector<long> keep_last(std::vector<long> v, size_t n) { if (v.size() > n) v.erase(v.begin(), v.begin() + (v.size() - n)); return v; }
inline std::vector<long> keep_first(std::vector<long> v, size_t n) { if (v.size() > n) v.resize(n); return v; }

template <int K, bool SO, template <class> class A> struct W {
    typedef typename KindOf<K>::type E;
    typedef A<E> Al;
    typedef boost::circular_buffer<E, Al> Base;
    typedef typename std::conditional<SO, boost::circular_buffer_space_optimized<E, Al>, Base>::type CB;
    typedef typename CB::iterator iterator;
    typedef typename CB::const_iterator const_iterator;
    typedef typename CB::capacity_type cap_t;
    static const bool copyable = std::is_copy_constructible<E>::value;
    static const bool is_class = K != K6 && K != K8;
    static const bool has_setcap = K != K5;
    static const bool nothrow_move = K == K1 || K == K3 || K == K6 || K == K8;     // ctor and assignment
    static const bool nothrow_mctor = nothrow_move || K == K4;
    static const bool keeps_values = K == K0 || K == K2 || K == K4 || K == K7;     // copyable, moves may throw (or none)
    static const bool stateless = std::is_empty<Al>::value;

    static bool supports(int op) {
        switch (op) {
        case PUSH_BACK_C: case PUSH_FRONT_C: case INS_C: case INS_N: case RINS_C: case RINS_N: case CT_N: case CT_CAPN: case CT_COPY:
        case AS_COPY: case AS_N: case AS_CAPN: case RESIZE_D: case RESIZE_V: case RRESIZE_D: case RRESIZE_V: return copyable;
        case PUSH_BACK_D: case PUSH_FRONT_D: case INS_D: case RINS_D: return is_class;   // a default-initialised built-in has no value to judge
        case SETCAP: case RSETCAP: return has_setcap;
        case ERASE_BEGIN: case ERASE_END: return !SO;
        case REMAP: return shm;
        default: return op < SCHED;
        }
    }

    // ------------------------------------------------------------------ state of a run
    const Plan& P; RunResult& R;
    alignas(64) unsigned char mem[3][sizeof(CB) + 64]; unsigned char* room;      // the containers live here, or in the shared segment
    static const bool shm = std::is_same<Al, ShmAlloc<E> >::value; static const size_t room_size = sizeof(CB) + 64;
    unsigned char* at(int i) { return room + size_t(i) * room_size; }
    CB* cb[3]; Model m[3];
    long next_id = 100;
    bool had_fault = false, last_did = false, last_failed = false, last_fired = false;

    W(const Plan& p, RunResult& r) : P(p), R(r), room(shm ? static_cast<unsigned char*>(arena_reserve(3 * room_size)) : &mem[0][0]) { cb[0] = cb[1] = cb[2] = nullptr; }

    static size_t cap_of(const CB& c) { return size_t(c.capacity()); }
    static size_t min_of(const boost::circular_buffer_space_optimized<E, Al>& c) { return c.capacity().min_capacity(); }
    static size_t min_of(const Base&) { return 0; }
    static cap_t mkcap(size_t c, size_t mn) { return mkcap_(c, mn, std::integral_constant<bool, SO>()); }
    static cap_t mkcap_(size_t c, size_t mn, std::true_type) { return cap_t(c, mn); }
    static cap_t mkcap_(size_t c, size_t, std::false_type) { return c; }
    static std::vector<E> items(const std::vector<long>& ids) { std::vector<E> v; v.reserve(ids.size()); for (long i : ids) emplace(v, i); return v; }
    static void emplace(std::vector<long>& v, long i) { v.push_back(i); }
    static void emplace(std::vector<double>& v, long i) { v.push_back(as_double(i)); }
    template <class X> static void emplace(std::vector<X>& v, long i) { v.emplace_back(typename X::H(), i); }

    // ------------------------------------------------------------------ observation
    uint32_t so() const { return SO ? C16 : 0; }
    Obs observe(int i, uint32_t tags) {
        Obs o; CB& c = *cb[i]; const CB& cc = c;
        o.size = cc.size(); o.cap = cap_of(cc); o.mincap = min_of(cc); o.reserve = cc.reserve(); o.empty = cc.empty(); o.full = cc.full();
        o.lin = cc.is_linearized(); o.aid = cc.get_allocator().ident();
        if (o.size > o.cap) { violate(tags | C01 | so() | (S.fired ? C08 : 0), "size-exceeds-capacity", "size " + std::to_string(o.size) + " capacity " + std::to_string(o.cap)); }
        if (o.size > std::max<size_t>(200000, P.max_elems * 2)) { violate(tags | C01 | (S.fired ? C08 : 0), "size-insane", std::to_string(o.size), true); o.bad = true; return o; }
        for (size_t k = 0; k < o.size; ++k) {
            const E* p = std::addressof(c[k]);
            o.a.push_back(p);
            uint32_t b = block_of(p);
            bool ok = b && block(b).live;
            if (ok && is_class) ok = is_live(p) && reinterpret_cast<const ElemBase*>(p)->chk == reinterpret_cast<const ElemBase*>(p)->good();
            if (!ok) { violate(C10 | tags | so() | (S.fired ? C08 : 0), "visible-element-not-alive", "element " + std::to_string(k) + " of " + std::to_string(o.size), true); o.bad = true; return o; }
            o.v.push_back(peek(*p));
        }
        routes(c, cc, o);
        return o;
    }
    // every read route must agree (C07) and the array views must be the sequence (C06)
    void routes(CB& c, const CB& cc, Obs& o) {
        size_t n = o.size;
        auto diff = [&](const char* w) { violate(C07 | so(), "read-routes-disagree", w); };
        if (o.empty != (n == 0)) violate(C01 | C07 | so(), "empty-disagrees-with-size");
        if (o.full != (n == o.cap)) violate(C01 | C04 | so(), "full-disagrees-with-size");
        if (n <= o.cap && o.reserve != o.cap - n) violate(C01 | C04 | so(), "reserve-disagrees");
        size_t k = 0;
        for (iterator it = c.begin(); it != c.end(); ++it, ++k) { if (k >= n || std::addressof(*it) != o.a[k]) { diff("forward iteration"); break; } }
        if (k != n) diff("forward iteration length");
        k = 0;
        for (const_iterator it = cc.begin(); it != cc.end(); it++, ++k) { if (k >= n || std::addressof(*it) != o.a[k]) { diff("const forward iteration"); break; } }
        if (k != n) diff("const iteration length");
        k = n;
        for (iterator it = c.end(); k > 0;) { --it; --k; if (std::addressof(*it) != o.a[k]) { diff("backward iteration"); break; } if ((k == 0) != (it == c.begin())) { diff("backward iteration end"); break; } }
        k = n;
        for (auto it = c.rbegin(); it != c.rend(); ++it) { if (k == 0) { diff("reverse length"); break; } --k; if (std::addressof(*it) != o.a[k]) { diff("reverse iteration"); break; } }
        k = n;
        for (auto it = cc.rbegin(); it != cc.rend(); ++it) { if (k == 0) { diff("const reverse length"); break; } --k; if (std::addressof(*it) != o.a[k]) { diff("const reverse iteration"); break; } }
        for (k = 0; k < n; ++k) {
            if (std::addressof(cc[k]) != o.a[k] || std::addressof(c.at(k)) != o.a[k] || std::addressof(cc.at(k)) != o.a[k]) { diff("const index / at"); break; }
            if (std::addressof(*(c.begin() + k)) != o.a[k] || std::addressof(c.begin()[k]) != o.a[k] || std::addressof(*(c.end() - (n - k))) != o.a[k]) { diff("iterator arithmetic"); break; }
        }
        if (c.end() - c.begin() != std::ptrdiff_t(n)) diff("end - begin");
        if (n) {
            if (std::addressof(c.front()) != o.a[0] || std::addressof(cc.front()) != o.a[0]) { violate(C07 | C01 | so(), "read-routes-disagree", "front"); }
            if (std::addressof(c.back()) != o.a[n - 1] || std::addressof(cc.back()) != o.a[n - 1]) { violate(C07 | C01 | so(), "read-routes-disagree", "back"); }
        }
        auto one = c.array_one(), two = c.array_two(); auto cone = cc.array_one(), ctwo = cc.array_two();
        o.one = one.second;
        bool bad = one.second + two.second != n || cone.second != one.second || ctwo.second != two.second;
        for (k = 0; !bad && k < n; ++k) {
            const E* p = k < one.second ? raw(one.first) + k : raw(two.first) + (k - one.second);
            const E* q = k < cone.second ? raw(cone.first) + k : raw(ctwo.first) + (k - cone.second);
            if (p != o.a[k] || q != o.a[k]) bad = true;
        }
        if (bad) violate(C06 | C07 | so(), "array-views-disagree", "sizes " + std::to_string(one.second) + "+" + std::to_string(two.second) + " of " + std::to_string(n));
        bool inc = true;
        for (k = 1; k < n; ++k) if (static_cast<const E*>(o.a[k]) != static_cast<const E*>(o.a[k - 1]) + 1) inc = false;
        if (o.lin != inc) violate(C06 | so(), "is_linearized-wrong", n ? "non-empty" : "empty");
        if (o.lin && two.second != 0) violate(C06 | so(), "linearized-but-two-arrays");
        if (n && two.second) ++COV.probes[PR_WRAPPED];
        if (o.full && n) ++COV.probes[PR_FULL];
        if (!n && o.cap && one.first != nullptr && block_of(raw(one.first)) && raw(one.first) != reinterpret_cast<const E*>(block(block_of(raw(one.first))).p)) ++COV.probes[PR_EMPTY_SHIFTED];
    }

    template <class F> static Out call(F&& f) {
        Out o;
        try { Lib l; f(); }
        catch (SimFault& e) { o.x = X_FAULT; o.serial = e.serial; }
        catch (SimBadAlloc& e) { if (e.serial) { o.x = X_FAULT; o.serial = e.serial; } else o.x = X_ARENA; }
        catch (std::out_of_range& e) { o.x = X_RANGE; }
        catch (std::length_error& e) { o.x = X_LENGTH; }
        catch (std::exception& e) { o.x = X_OTHER; o.what = e.what(); }
        catch (...) { o.x = X_OTHER; o.what = "unknown"; }
        S.arm = 0;
        return o;
    }
    void arm(const Step& st, uint32_t nothrow) {
        S.fired = false; S.fired_kind = -1; S.fired_count = 0; S.ordinal = 0; S.first_serial = 0;
        S.work = S.deaths = S.srcwork = S.ptrwork = 0;
        S.fault_tags = (k.fam & (C20 | C01)) | so() | (k.ctor || k.strong ? uint32_t(C09) : 0);
        if (st.mode == M_FAULT) { S.arm = st.mask & F_ALL; S.countdown = std::max(1, st.count); S.sticky = st.sticky; }
        else if (st.mode == M_NOTHROW) { S.arm = nothrow; S.countdown = 1; S.sticky = true; if (nothrow) ++COV.probes[PR_NOTHROW_ARMED]; }
        else { S.arm = 0; S.countdown = 0; S.sticky = false; }
    }

    // ------------------------------------------------------------------ one step
    struct Ctl {                       // what the documentation says about this operation in this state
        uint32_t fam = 0;              // property of the functional outcome
        Model exp;                     // expected target model
        int other = -1; Model exp_other;
        bool refuse_cap = false;       // a refused resize() of a space optimized buffer may have raised its capacity
        Exc expx = X_NONE;
        long ret = -1, ret2 = -1;      // expected returned index (ret2: permitted alternative)
        bool strong = false, ctor = false, noop_other = true;
        std::vector<long> args;        // values supplied to the call
        std::vector<long> map;         // stability: old index -> new index or -1
        bool map_set = false, refs_only = false, end_stable = true;
        int refs_to = -1;              // references now live in this container
        uint32_t nothrow = 0;          // fault kinds that must not matter
        bool resync_other_cap = false; // moved-from
        size_t want_min_alloc = 0; long exact_alloc = -1; bool is_removal = false;
        bool cost_set = false; uint64_t work_max = 0, dead_max = 0, src_max = 0, ptr_max = 0, linear_work = 0;   // documented complexity
    };
    Ctl k; iterator ret; bool has_ret = false;

    template <bool C> using tag = std::integral_constant<bool, C>;
    // documented complexity of the call: linear in lin (0: constant), dropping at most drop old elements; src: items of the source
    void cost(uint64_t lin, uint64_t drop, bool elem_free = false, uint64_t src = 0) {
        k.cost_set = true; k.work_max = elem_free ? 0 : 4 * lin + 8; k.dead_max = elem_free ? drop : 4 * lin + drop + 8;
        k.src_max = 16 * src + 32; k.ptr_max = 60 * (lin + drop + src) + 120;
    }
    // inserting cnt items with reach elements behind (before) the position; seq: one by one because the range is single-pass
    void cost_insert(size_t reach, size_t cnt, bool seq = false) {
        uint64_t n = m_now.v.size(), cap = m_now.cap, in = std::min<uint64_t>(cnt, plus1(cap)), lin = SO ? std::min<uint64_t>(cap, n + in) : std::min<uint64_t>(cap, reach + in);
        if (seq) { k.linear_work = 4 * lin + 8; lin = (SO ? n + in : std::min<uint64_t>(cap, reach + in)) * (cnt + 1) + cnt; }        // known finding: not linear for a single-pass range
        cost(lin, SO ? n : 0, false, cnt);
    }
    // one constant-time call: its pointer and element steps
    uint64_t worst_one = 0;
    struct Once { uint64_t& w; uint64_t a; explicit Once(uint64_t& x) : w(x), a(S.ptrwork + S.work + S.srcwork + S.deaths) {} ~Once() { w = std::max(w, S.ptrwork + S.work + S.srcwork + S.deaths - a); } };
    template <class F> void one(F f) { Once o(worst_one); f(); }
    void constant(const char* what, uint64_t bound = 24) {
        if (worst_one > bound) violate(C21, "cost-above-documented-complexity", std::string(what) + " not constant: " + std::to_string(worst_one) + " steps, bound " + std::to_string(bound)); worst_one = 0;
    }
    static size_t plus1(size_t x) { return x + 1 ? x + 1 : x; }
    void keep_all(size_t n) { k.map.resize(n); for (size_t i = 0; i < n; ++i) k.map[i] = long(i); k.map_set = true; }
    void keep_none(size_t n) { k.map.assign(n, -1); k.map_set = true; }
    long fresh() { return ++next_id; }
    size_t small(uint32_t y, size_t cap) { size_t lim = std::min<size_t>(cap, std::max<size_t>(TINY ? 127 : 64, big)) + 4; return y % lim; }
    size_t newcap(uint32_t y) { return y % 5 == 0 ? y / 5 % span() : y / 5 % 14; }
    size_t span() const { return TINY ? 129 : std::max<size_t>(70, big); }
    // sizes are of the allocator's size_type; its largest values have to be refused, not misunderstood
    typedef typename CB::size_type Sz;
    enum { TINY = sizeof(Sz) == 1 };
    static size_t huge(uint32_t i) { const size_t mx = Sz(-1), h[] = {mx, mx / 2 + 1, mx / 2 + 6, mx - 3, mx - 1, size_t(4294967301ull), size_t(2147483651ull), size_t(4294967296ull)}; return h[i % (TINY ? 5 : 8)]; }
    bool huge_cap(uint32_t z) const { return SO && !TINY && z % 29 == 0; }      // a space optimized buffer "without limit"
    size_t big = 0;                  // plans with large buffers: the largest capacity there

    // a buffer of the caller for the duration of one call; what it costs does not count
    struct Tmp {
        alignas(64) unsigned char room[sizeof(CB) + 64]; CB* p = nullptr;
        ~Tmp() { if (!p) return; const uint64_t w[4] = {S.work, S.deaths, S.srcwork, S.ptrwork}; { Lib l; p->~CB(); } S.work = w[0]; S.deaths = w[1]; S.srcwork = w[2]; S.ptrwork = w[3]; }
        void fill(const std::vector<long>& w, size_t cap, size_t mn, size_t rot, int aid) {
            scrub(room, sizeof room);
            call([&] { p = ::new (room) CB(mkcap(cap, mn), Al(aid)); });
            if (p) call([&] {
                if (cap) for (size_t i = 0, e = rot % (cap + 1); i < e; ++i) { p->push_back(make<E>(7)); p->pop_front(); }
                for (long id : w) p->push_back(make<E>(id));
            });
        }
    };
    bool may_tmp(size_t n) const { return (P.world < 20 || P.world >= 40) && n + 3 < P.max_elems && n + 3 < size_t(Sz(-1)) / 2; }
    template <class F> Out narrow(const std::vector<int>& v, F&& f, std::true_type) { return call([&] { f(v.data(), v.data() + v.size()); }); }
    template <class F> Out narrow(const std::vector<int>&, F&&, std::false_type) { return Out(); }
    // a range of vast length: what the buffer has room for comes last (or first), the rest is never needed
    uint64_t vast = 0; bool vast_tail = false;
    size_t go_vast(uint32_t z, size_t room, size_t cap, bool tail = false) {
        static const uint64_t base[] = {1ull << 31, 1ull << 32, 1ull << 33, 1ull << 62};
        const size_t cnt = std::max<size_t>(room, 1); const uint32_t w = z / 64;
        vast = w % 5 == 4 ? (~0ull >> 1) - w / 5 % 3 : base[w % 5] + w / 5 % (cap + 3); vast_tail = tail; ++COV.probes[PR_VAST_RANGE]; return cnt;
    }
    bool may_vast(int cat, uint32_t z, size_t cap) const { return copyable && !TINY && cat == 0 && z % 37 == 5 && cap <= P.max_elems && cap < 2000; }
    template <class F> Out with_vast(const std::vector<long>& ids, F&& f) {
        const std::vector<E> v = items(ids); const std::ptrdiff_t n = std::ptrdiff_t(v.size()), b = vast_tail ? 0 : std::ptrdiff_t(n - std::ptrdiff_t(vast));
        VastIter<E> i(&v, b), e(&v, vast_tail ? std::ptrdiff_t(vast) : n);
        return call([&] { f(i, e); });
    }
    uint32_t src_kind = 0;           // multi-pass ranges: iterators of our own, pointers, list or buffer iterators
    template <class F> Out own_range(const std::vector<long>& ids, F&& f, int cat) {
        if (K == K6 && src_kind % 4 == 1 && src_kind & 128) { const std::vector<int> v(ids.begin(), ids.end()); ++COV.probes[PR_SEED_RANGE]; return narrow(v, f, tag<K == K6>()); }
        if (src_kind % 4 == 1 && cat == 0) { const std::vector<E> v = items(ids); return call([&] { f(v.data(), v.data() + v.size()); }); }
        if (src_kind % 4 == 2) { std::vector<E> v = items(ids); std::list<E> l(v.begin(), v.end()); ++COV.probes[PR_LIST_RANGE]; return call([&] { f(l.begin(), l.end()); }); }
        const uint32_t a = S.arm; S.arm = 0; const uint64_t w[4] = {S.work, S.deaths, S.srcwork, S.ptrwork};
        std::vector<long> w2(ids); if (!(src_kind & 64)) std::reverse(w2.begin(), w2.end());
        Tmp t; t.fill(w2, ids.size() + src_kind / 4 % 3, 0, src_kind / 12, stateless ? 0 : 5);
        S.work = w[0]; S.deaths = w[1]; S.srcwork = w[2]; S.ptrwork = w[3];
        if (!t.p) return call([] { throw SimBadAlloc(0); });
        S.arm = a; ++COV.probes[PR_BUFFER_RANGE];
        const CB& c = *t.p;
        return call([&] { if (src_kind & 64) f(c.begin(), c.end()); else f(c.rbegin(), c.rend()); });
    }
    template <class Cat, int Mv, class F> Out with_source(const std::vector<long>& ids, F&& f) {
        Source<E> src; src.items = items(ids);
        return with_source_(src, std::forward<F>(f), static_cast<SrcIter<E, E, Cat, Mv>*>(nullptr), Cat());
    }
    template <class Cat, int Mv, class F> Out with_seeds(const std::vector<long>& ids, F&& f) {      // items an element is made from
        Source<Seed<E> > src; for (long id : ids) src.items.push_back(Seed<E>(id));
        ++COV.probes[PR_SEED_RANGE];
        return with_source_(src, std::forward<F>(f), static_cast<SrcIter<E, Seed<E>, Cat, Mv>*>(nullptr), Cat());
    }
    template <class V, class F, class It, class Cat> Out with_source_(Source<V>& src, F&& f, It*, Cat) {
        It a(src.items.data()), b(src.items.data() + src.items.size());
        return call([&] { f(a, b); });
    }
    template <class V, class F, class It> Out with_source_(Source<V>& src, F&& f, It*, std::input_iterator_tag) {
        ++COV.probes[PR_INPUT_RANGE]; src.stash = src_kind >> 3 & 1;
        It a(&src), b;
        return call([&] { f(a, b); });
    }
    // cat: 0 random access, 1 forward, 2 single pass, 3 random access move iterator
    template <bool MultiOk, class F> Out ranged(int cat, const std::vector<long>& ids, F&& f) {
        return ranged_<MultiOk>(cat, ids, std::forward<F>(f), std::integral_constant<bool, copyable>());
    }
    template <bool MultiOk, class F> Out ranged_(int cat, const std::vector<long>& ids, F&& f, std::true_type) {
        switch (cat) {
        case 0: if (vast) return with_vast(ids, f); if (src_kind % 4 && may_tmp(ids.size())) return own_range(ids, f, 0); if (src_kind & 128) return with_seeds<std::random_access_iterator_tag, COPY>(ids, f); return with_source<std::random_access_iterator_tag, COPY>(ids, f);
        case 1: if (src_kind % 4 && may_tmp(ids.size())) return own_range(ids, f, 1); if (src_kind & 128) return with_seeds<std::forward_iterator_tag, COPY>(ids, f); return with_source<std::forward_iterator_tag, COPY>(ids, f);
        case 3: if (K == K1) return with_source<std::random_access_iterator_tag, K == K1 ? int(MOVE) : int(COPY)>(ids, f);  // fallthrough
        default:
            if (src_kind % 8 == 5) return with_seeds<std::input_iterator_tag, VALUE>(ids, f);
            if (src_kind % 8 == 6) return with_source<std::input_iterator_tag, VALUE>(ids, f);
            return with_source<std::input_iterator_tag, COPY>(ids, f);
        }
    }
    template <bool MultiOk, class F> Out ranged_(int cat, const std::vector<long>& ids, F&& f, std::false_type) {
        return ranged_mo<MultiOk>(cat, ids, f, std::integral_constant<bool, MultiOk>());
    }
    template <bool MultiOk, class F> Out ranged_mo(int cat, const std::vector<long>& ids, F& f, std::true_type) {
        if (cat <= 1 && src_kind % 4 == 1) { std::vector<E> v = items(ids); return call([&] { f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); }); }
        if (cat <= 1) return with_source<std::random_access_iterator_tag, MOVE>(ids, f);
        return with_source<std::input_iterator_tag, MOVE>(ids, f);
    }
    template <bool MultiOk, class F> Out ranged_mo(int, const std::vector<long>& ids, F& f, std::false_type) {
        return with_source<std::input_iterator_tag, MOVE>(ids, f);
    }

    // dispatch helpers for operations a kind cannot compile
    struct T1 {}; struct T0 {};

    void insert_rule(size_t idx, size_t n_ins, bool fwd) {      // documented stability of insert / rinsert (plain container)
        size_t n = m_now.v.size(), cap = m_now.cap;
        k.map.assign(n, -1); k.map_set = true;
        if (fwd) {
            size_t copy = cap - (n - idx); size_t ni = std::min(n_ins, copy);
            size_t drop = n + ni > cap ? n + ni - cap : 0;
            for (size_t i = 0; i < idx; ++i) k.map[i] = i >= drop ? long(i - drop) : -1;
        } else {
            size_t copy = cap - idx; size_t ni = std::min(n_ins, copy);
            for (size_t i = idx; i < n; ++i) k.map[i] = i + ni < cap ? long(i + ni) : -1;
        }
    }
    Model m_now;
    std::vector<long> splice(size_t idx, const std::vector<long>& ids) {
        std::vector<long> v(m_now.v); v.insert(v.begin() + idx, ids.begin(), ids.end()); return v;
    }

    // returns false if the step is skipped in this state
    bool exec(const Step& st, Out& out) {
        int c = st.c % 3, d = st.d % 3;
        CB& b = *cb[c];
        m_now = m[c];
        const size_t n = m_now.v.size(), cap = m_now.cap;
        k = Ctl(); k.exp = m_now; has_ret = false; vast = 0; src_kind = P.world < 20 || P.world >= 40 ? st.z >> 12 : 0;
        const uint32_t noalloc = SO ? 0 : fbit(F_ALLOC);
        const uint32_t movers = nothrow_move ? (fbit(F_CCTOR) | fbit(F_CASSIGN) | fbit(F_MCTOR) | fbit(F_MASSIGN) | fbit(F_DCTOR)) : 0;
        k.nothrow = noalloc;
        switch (st.op) {
        case PUSH_BACK_C: case PUSH_BACK_M: case PUSH_BACK_D: case PUSH_FRONT_C: case PUSH_FRONT_M: case PUSH_FRONT_D: {
            bool back = st.op <= PUSH_BACK_D; int var = back ? st.op - PUSH_BACK_C : st.op - PUSH_FRONT_C;
            k.fam = C01; long id = var == 2 ? 0 : var == 0 ? pick_arg(st) : fresh(); k.args.push_back(id);
            cost(SO ? n : 0, SO ? n : 0);
            if (cap) {
                if (back) { k.exp.v.push_back(id); k.exp.v = keep_last(k.exp.v, cap); } else { k.exp.v.insert(k.exp.v.begin(), id); k.exp.v = keep_first(k.exp.v, cap); }
                k.map.assign(n, -1); k.map_set = true;
                size_t drop = n == cap;
                for (size_t i = 0; i < n; ++i) { if (back) { if (i >= drop) k.map[i] = long(i - drop); } else if (i + drop < n) k.map[i] = long(i + 1); }
                if (drop) ++COV.probes[PR_OVERWRITE];
            } else keep_all(n);
            if (var == 1) k.nothrow |= movers; else if (var == 2) k.nothrow |= movers & ~fbit(F_DCTOR);
            if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            if (var == 0) push_c(b, back, id, st, out, tag<copyable>());
            else if (var == 1) { E it = make<E>(id); arm(st, k.nothrow); out = call([&] { if (back) b.push_back(std::move(it)); else b.push_front(std::move(it)); }); }
            else { arm(st, k.nothrow); out = call([&] { if (back) b.push_back(); else b.push_front(); }); }
            return true; }
        case POP_BACK: case POP_FRONT: {
            if (!n) return false;
            k.fam = C01; k.is_removal = true; keep_all(n);
            if (SO) cost(n, n); else cost(0, 1, true);
            if (st.op == POP_BACK) { k.exp.v.pop_back(); k.map[n - 1] = -1; } else { k.exp.v.erase(k.exp.v.begin()); for (size_t i = 0; i < n; ++i) k.map[i] = long(i) - 1; }
            k.nothrow = SO ? (nothrow_mctor ? F_ELEM : 0) : F_ALL;
            if (SO) keep_none(n);
            arm(st, k.nothrow);
            out = call([&] { if (st.op == POP_BACK) b.pop_back(); else b.pop_front(); });
            return true; }
        case INS_C: case INS_M: case INS_D: case RINS_C: case RINS_M: case RINS_D: {
            bool fwd = st.op <= INS_D; int var = fwd ? st.op - INS_C : st.op - RINS_C;
            size_t idx = st.x % (n + 1); long id = var == 2 ? 0 : var == 0 ? pick_arg(st) : fresh();
            k.fam = C02; k.args.push_back(id); cost_insert(fwd ? n - idx : idx, 1);
            if (fwd) { k.exp.v = keep_last(splice(idx, {id}), cap); k.ret = n == cap ? (idx ? long(idx) - 1 : 0) : long(idx); }
            else { k.exp.v = keep_first(splice(idx, {id}), cap); k.ret = (n == cap && idx == n) ? long(n) : long(idx); }
            insert_rule(idx, 1, fwd);
            if (var == 1) k.nothrow |= movers; else if (var == 2) k.nothrow |= movers & ~fbit(F_DCTOR);
            if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            has_ret = true;
            if (var == 0) ins_c(b, fwd, idx, id, st, out, tag<copyable>());
            else if (var == 1) { E it = make<E>(id); arm(st, k.nothrow); out = call([&] { iterator p = b.begin() + idx; ret = fwd ? b.insert(p, std::move(it)) : b.rinsert(p, std::move(it)); }); }
            else { arm(st, k.nothrow); out = call([&] { iterator p = b.begin() + idx; ret = fwd ? b.insert(p) : b.rinsert(p); }); }
            return true; }
        case INS_N: case RINS_N: {
            bool fwd = st.op == INS_N; size_t idx = st.x % (n + 1); long id = pick_arg(st); size_t cnt = small(st.y, cap);
            bool unlimited = cap > P.max_elems;
            if (st.z % 31 == 0 || (unlimited && st.z % 5 == 0)) { cnt = st.z / 31 % 5 == 3 && !unlimited && !TINY ? 100000 : huge(st.z / 31); ++COV.probes[PR_HUGE_COUNT]; }
            const bool refuse = n + std::min(cnt, cap - n) > P.max_elems;
            k.fam = C02; k.args.push_back(id);
            size_t lim = refuse ? 0 : std::min<size_t>(cnt, plus1(cap)); cost_insert(fwd ? n - idx : idx, lim);
            std::vector<long> ids(lim, id);
            k.exp.v = fwd ? keep_last(splice(idx, ids), cap) : keep_first(splice(idx, ids), cap);
            if (cnt > cap - n) ++COV.probes[PR_INSERT_CLIPPED];
            if (refuse) { k.expx = X_LENGTH; ++COV.probes[PR_LENGTH_ERROR]; }
            insert_rule(idx, lim, fwd);
            if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            ins_n(b, fwd, idx, cnt, id, st, out, tag<copyable>());
            return true; }
        case INS_RANGE: case RINS_RANGE: {
            bool fwd = st.op == INS_RANGE; size_t idx = st.x % (n + 1); size_t cnt = small(st.y, cap);
            int cat = st.z % 4;
            bool single = !copyable || cat == 2 || (cat == 3 && K != K1);
            if (TINY && !(single && SO) && st.y % 9 == 4) cnt = 120 + st.y / 9 % 500;      // more than size_type can count
            if (single && big > 950) cnt %= 16;                            // (the known finding: every item moves the whole tail)
            if (may_vast(cat, st.z, cap)) cnt = go_vast(st.y, cap, cap, !fwd);
            std::vector<long> ids; for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh());
            k.fam = C02 | (single ? C20 : 0); k.args = ids; cost_insert(fwd ? n - idx : idx, cnt, single);
            k.exp.v = fwd ? keep_last(splice(idx, ids), cap) : keep_first(splice(idx, ids), cap);
            if (cnt + n > cap) ++COV.probes[PR_INSERT_CLIPPED];
            insert_rule(idx, cnt, fwd);
            if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            arm(st, k.nothrow);
            if (fwd) out = ranged<false>(cat, ids, [&](auto f, auto l) { b.insert(b.begin() + idx, f, l); });
            else out = ranged<false>(cat, ids, [&](auto f, auto l) { b.rinsert(b.begin() + idx, f, l); });
            return true; }
        case ERASE: case RERASE: {
            if (!n) return false;
            size_t idx = st.x % n; k.fam = C03; k.is_removal = true; cost(SO ? n : st.op == ERASE ? n - idx : idx, SO ? n : 1);
            k.exp.v.erase(k.exp.v.begin() + idx); k.map.assign(n, -1); k.map_set = true; has_ret = true;
            if (st.op == ERASE) { for (size_t i = 0; i < idx; ++i) k.map[i] = long(i); k.ret = long(idx); }
            else { for (size_t i = idx + 1; i < n; ++i) k.map[i] = long(i) - 1; k.ret = idx ? long(idx) - 1 : 0; }
            k.nothrow |= movers; if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            arm(st, k.nothrow);
            out = call([&] { iterator p = b.begin() + idx; ret = st.op == ERASE ? b.erase(p) : b.rerase(p); });
            return true; }
        case ERASE_R: case RERASE_R: {
            size_t f = st.x % (n + 1), l = f + st.y % (n - f + 1); k.fam = C03; k.is_removal = true; cost(SO ? n : st.op == ERASE_R ? n - f : l, SO ? n : 0);
            k.exp.v.erase(k.exp.v.begin() + f, k.exp.v.begin() + l); k.map.assign(n, -1); k.map_set = true; has_ret = true;
            if (f == l) { keep_all(n); k.ret = long(f); k.ret2 = st.op == RERASE_R && f ? long(f) - 1 : long(f); }
            else if (st.op == ERASE_R) { for (size_t i = 0; i < f; ++i) k.map[i] = long(i); k.ret = long(f); }
            else { for (size_t i = l; i < n; ++i) k.map[i] = long(i - (l - f)); k.ret = f ? long(f) - 1 : 0; }
            k.nothrow |= movers; if (SO) { keep_none(n); k.nothrow &= ~fbit(F_ALLOC); }
            arm(st, k.nothrow);
            out = call([&] { iterator p = b.begin() + f, q = b.begin() + l; ret = st.op == ERASE_R ? b.erase(p, q) : b.rerase(p, q); });
            return true; }
        case ERASE_BEGIN: case ERASE_END: {
            size_t cnt = st.x % (n + 1); k.fam = C03; k.is_removal = true; if (is_class) cost(st.op == ERASE_BEGIN ? cnt : cnt, cnt, true); else cost(0, 0); k.map.assign(n, -1); k.map_set = true;
            if (st.op == ERASE_BEGIN) { k.exp.v.erase(k.exp.v.begin(), k.exp.v.begin() + cnt); for (size_t i = cnt; i < n; ++i) k.map[i] = long(i - cnt); }
            else { k.exp.v.resize(n - cnt); for (size_t i = 0; i < n - cnt; ++i) k.map[i] = long(i); }
            k.nothrow |= movers;
            arm(st, k.nothrow);
            erase_n(b, st.op == ERASE_BEGIN, cnt, out, tag<!SO>());
            return true; }
        case CLEAR: {
            k.fam = C03; k.is_removal = true; k.exp.v.clear(); keep_none(n); if (SO) cost(n, n); else cost(0, is_class ? n : 0, true);
            k.nothrow = SO ? (nothrow_mctor ? F_ELEM : 0) : F_ALL;
            arm(st, k.nothrow); out = call([&] { b.clear(); }); return true; }
        case SETCAP: case RSETCAP: {
            size_t nc = newcap(st.y), nm = 0;
            if (SO) { nc = std::min<size_t>(nc, P.max_elems); nm = st.z % 3 ? st.z / 3 % (nc + 1) : 0; if (huge_cap(st.z)) { nc = huge(st.z / 29); ++COV.probes[PR_HUGE_COUNT]; } }
            if (!SO && st.z % 23 == 0) nc = st.z / 23 % 2 ? P.max_elems + 1 + st.y % 7 : size_t(Sz(-1)) - st.y % 7;
            if (!SO && st.z % 19 == 0) nc = cap;
            k.fam = C04; k.strong = true;
            k.exp.cap = nc; k.exp.mincap = nm; k.exp.v = st.op == SETCAP ? keep_first(m_now.v, nc) : keep_last(m_now.v, nc);
            if (!SO && nc > P.max_elems && nc != cap) { k.expx = X_LENGTH; k.exp = m_now; keep_all(n); ++COV.probes[PR_LENGTH_ERROR]; }
            else if (!SO && nc == cap) { keep_all(n); k.nothrow = F_ALL; }
            else { keep_none(n); k.nothrow = nothrow_mctor ? F_ELEM : 0; if (!SO && nc == 0) k.nothrow |= fbit(F_ALLOC); }
            k.want_min_alloc = nm; if (!SO && nc == cap) cost(0, 0, true); else cost(std::min(n, nc), n);
            setcap(b, st.op == SETCAP, nc, nm, st, out, tag<has_setcap>());
            return true; }
        case RESIZE_D: case RESIZE_V: case RRESIZE_D: case RRESIZE_V: {
            bool r = st.op >= RRESIZE_D, dv = st.op == RESIZE_D || st.op == RRESIZE_D;
            size_t ns = st.y % 5 == 0 ? newcap(st.y / 5) : st.y / 5 % (std::min<size_t>(cap, std::max<size_t>(40, big)) + 1); long id = dv ? 0 : pick_arg(st);
            if (SO && TINY) ns = std::min<size_t>(ns, P.max_elems);
            if ((!SO || !TINY) && st.z % 23 == 0) ns = st.z / 23 % 2 ? P.max_elems + 1 + st.y % 7 : huge(st.y);
            k.fam = C04; k.args.push_back(id);
            if (ns > P.max_elems && ns > n) { k.expx = X_LENGTH; if (SO && ns > cap) { k.exp.cap = ns; k.refuse_cap = true; } keep_all(n); ++COV.probes[PR_LENGTH_ERROR]; }
            else {
                if (ns > cap) k.exp.cap = ns;
                if (ns > n) { if (r) k.exp.v.insert(k.exp.v.begin(), ns - n, id); else k.exp.v.insert(k.exp.v.end(), ns - n, id); }
                else if (r) k.exp.v = keep_last(m_now.v, ns); else k.exp.v.resize(ns);
                if (ns > cap) keep_none(n);
                else { k.map.assign(n, -1); k.map_set = true; for (size_t i = 0; i < n; ++i) { long j = r ? long(i) + long(ns) - long(n) : long(i); if (j >= 0 && j < long(ns)) k.map[i] = j; } }
                k.is_removal = ns <= n;
                k.nothrow = (!SO && ns <= cap) ? fbit(F_ALLOC) : 0;
            }
            if (SO) keep_none(n);
            if (k.expx == X_NONE) cost(std::max(ns, SO && ns < n ? n : 0), n);   // linear in the new size, plus what is removed
            resize(b, r, dv, ns, id, st, out, tag<copyable>());
            return true; }
        case LINEARIZE: {
            k.fam = C06; bool lin = b.is_linearized() || n == 0;
            if (lin) keep_all(n); else { keep_none(n); ++COV.probes[PR_LINEARIZE_WRAPPED]; }
            k.nothrow = lin ? F_ALL : fbit(F_ALLOC) | movers; if (lin) cost(0, 0, true); else cost(n, 0);
            arm(st, k.nothrow);
            const E* p = nullptr;
            out = call([&] { p = raw(b.linearize()); });
            if (out.x == X_NONE) {
                if (!b.is_linearized()) violate(C06 | so(), "not-linearized-after-linearize", n ? "" : "empty buffer");
                if (n == 0 ? p != nullptr : p != std::addressof(b[0])) violate(C06 | so(), "linearize-returned-wrong-pointer");
                if (n && p) for (size_t i = 0; i < n && i < b.size(); ++i) if (std::addressof(b[i]) != p + i) { violate(C06 | so(), "linearized-array-not-contiguous"); break; }
            }
            return true; }
        case ROTATE: {
            if (!n) return false;
            size_t nb = st.x % n; k.fam = C06;
            bool full_store = !SO && n == cap;
            std::rotate(k.exp.v.begin(), k.exp.v.begin() + nb, k.exp.v.end());
            k.map.assign(n, -1); k.map_set = true;
            size_t mm = n - nb;
            if (full_store || nb == 0) for (size_t i = 0; i < n; ++i) k.map[i] = long((i + n - nb) % n);
            else if (mm < nb) for (size_t i = 0; i < n - mm; ++i) k.map[i] = long(i + mm);
            else for (size_t i = nb; i < n; ++i) k.map[i] = long(i - nb);
            if (full_store) { ++COV.probes[PR_ROT_FULL]; k.end_stable = true; } else if (mm < nb) ++COV.probes[PR_ROT_LEFT]; else ++COV.probes[PR_ROT_RIGHT];
            if (SO && nb) k.map.assign(n, -1);       // whether the storage is physically full is not observable: demand the values only
            k.nothrow = (full_store || nb == 0) ? F_ALL : fbit(F_ALLOC) | movers; if (full_store || nb == 0) cost(0, 0, true); else cost(std::min(mm, nb), 0);
            arm(st, k.nothrow);
            out = call([&] { const_iterator p = const_cast<const CB&>(b).begin() + nb; b.rotate(p); });
            return true; }
        case SWAP: case SWAP_FREE: {
            k.fam = C05; k.nothrow = F_ALL; cost(0, 0, true);
            if (d == c) { ++COV.probes[PR_SELF]; keep_all(n); k.refs_only = true; }
            else { k.other = d; k.exp = m[d]; k.exp_other = m_now; k.refs_only = true; keep_all(n); k.refs_to = d; if (m[c].aid != m[d].aid) ++COV.probes[PR_ALLOC_SWAP_UNEQUAL]; }
            k.end_stable = false;
            arm(st, k.nothrow);
            CB& e = *cb[d];
            out = call([&] { if (st.op == SWAP) b.swap(e); else swap(b, e); });
            return true; }
        case AS_COPY: as_copy(b, c, d, st, out, tag<copyable>()); return true;
        case AS_MOVE: {
            if (d == c) return false;
            k.fam = C05; k.exp = m[d]; k.other = d; k.exp_other = m[d]; k.exp_other.v.clear(); k.resync_other_cap = true; k.end_stable = false;
            k.nothrow = F_ALL; CB& e = *cb[d]; cost(0, is_class ? n : 0, true);
            arm(st, k.nothrow); out = call([&] { b = std::move(e); }); return true; }
        case AS_N: case AS_CAPN: as_n(b, st, out, tag<copyable>()); return true;
        case AS_RANGE: case AS_CAPRANGE: {
            bool wc = st.op == AS_CAPRANGE; size_t cnt = st.x % 4 == 0 ? cap % span() : small(st.x / 4, std::max<size_t>(cap, 6));
            std::vector<long> ids; for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh());
            int cat = st.z % 4; bool single = copyable ? cat == 2 || (cat == 3 && K != K1) : cat > 1;
            if (TINY && !single && st.x % 9 == 4) { cnt = 120 + st.x / 9 % 500; ids.clear(); for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh()); }
            size_t nc = wc ? (st.y % 3 == 0 ? std::min<size_t>(cap, span()) : newcap(st.y / 3)) : cnt;
            if (SO && wc) nc = std::min<size_t>(nc, P.max_elems);
            size_t nm = (SO && wc) ? st.z / 4 % (nc + 1) : 0;
            if (wc && !single && huge_cap(st.z)) nc = huge(st.z / 29);
            if (may_vast(cat, st.z, nc)) {
                cnt = go_vast(st.x, nc, nc); ids.clear(); for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh());
                if (!wc) { nc = vast; nm = 0; }
            }
            if (SO && single && cnt > P.max_elems) return false;
            k.fam = C05 | (single ? C20 : 0); k.args = ids; k.exp.cap = nc; k.exp.mincap = nm; k.exp.v = keep_last(ids, nc); keep_none(n);
            k.nothrow = 0; k.want_min_alloc = nm; k.exact_alloc = long(std::max(nm, k.exp.v.size())); cost(cnt, n, false, cnt);
            if ((!SO || !wc) && nc > P.max_elems) { k.expx = X_LENGTH; k.exp = m_now; ++COV.probes[PR_LENGTH_ERROR]; }
            else if (single && cnt > P.max_elems) return false;
            arm(st, k.nothrow);
            if (wc) out = ranged<true>(cat, ids, [&](auto f, auto l) { b.assign(mkcap(nc, nm), f, l); });
            else out = ranged<true>(cat, ids, [&](auto f, auto l) { b.assign(f, l); });
            return true; }
        case CT_DEFAULT: case CT_CAP: case CT_N: case CT_CAPN: case CT_RANGE: case CT_CAPRANGE: case CT_COPY: case CT_MOVE:
            return construct_op(st, c, d, out);
        case WRITE: return write_op(b, c, st, out);
        case AT_OOR: {
            k.fam = C07; size_t idx = n + (st.x % 5 == 0 ? ~size_t(0) - n - st.x % 3 : st.x % 9); keep_all(n); k.expx = X_RANGE; k.strong = true;
            k.nothrow = F_ALL; arm(st, k.nothrow);
            const CB& cc = b; cost(0, 0, true);
            out = call([&] { if (st.y & 1) (void)peek(b.at(idx)); else (void)peek(cc.at(idx)); });
            return true; }
        case COMPARE: return compare_op(b, c, d, st, out);
        case ITERWALK: return walk_op(b, c, st, out);
        case ALGO: return algo_op(b, d, st, out, std::integral_constant<bool, TINY>());
        case CHURN: return churn_op(b, st, out);
        case OBSERVE: {
            k.fam = C07; keep_all(n); k.nothrow = F_ALL; cost(n, 0, true); arm(st, k.nothrow);
            const CB& cc = b;
            out = call([&] {
                one([&] { (void)cc.size(); }); one([&] { (void)cc.empty(); }); one([&] { (void)cc.full(); }); one([&] { (void)cc.reserve(); }); one([&] { (void)cc.capacity(); }); one([&] { (void)cc.is_linearized(); }); one([&] { (void)cc.max_size(); });
                one([&] { (void)cc.array_one(); }); one([&] { (void)cc.array_two(); }); one([&] { (void)b.array_one(); }); one([&] { (void)b.array_two(); }); one([&] { (void)cc.get_allocator(); }); one([&] { (void)b.get_allocator(); });
                one([&] { (void)b.begin(); }); one([&] { (void)b.end(); }); one([&] { (void)cc.begin(); }); one([&] { (void)cc.end(); }); one([&] { (void)b.rbegin(); }); one([&] { (void)b.rend(); }); one([&] { (void)cc.rbegin(); }); one([&] { (void)cc.rend(); });
                for (size_t i = 0; i < n && i < cc.size(); ++i) { one([&] { (void)peek(cc[i]); }); one([&] { (void)peek(cc.at(i)); }); one([&] { (void)peek(b[i]); }); one([&] { (void)peek(b.at(i)); }); }
                if (n) { one([&] { (void)peek(cc.front()); }); one([&] { (void)peek(cc.back()); }); one([&] { (void)peek(b.front()); }); one([&] { (void)peek(b.back()); }); }
            });
            constant("observer");
            if (b.max_size() != std::min<size_t>(S.max_elems, size_t(std::numeric_limits<typename CB::difference_type>::max()))) violate(C04 | C11, "max_size-ignores-allocator");
            return true; }
        }
        return false;
    }

    // ---- pieces that exist only for copyable kinds
    // the argument: an element of the caller, or (own >= 0) one stored in the buffer itself
    long own = -1;
    long pick_arg(const Step& st) {
        size_t n = m_now.v.size(); own = -1;
        if (!copyable || !n || st.z % 6 != 5) return fresh();
        own = long(st.z / 6 % n); ++COV.probes[PR_OWN_ELEMENT];
        return m_now.v[size_t(own)];
    }
    template <class F> void with_arg(CB& b, long id, const Step& st, F f) {
        if (own >= 0) { const E* p; { NoLib l; p = std::addressof(b[size_t(own)]); } arm(st, k.nothrow); f(*p); return; }
        const E it = make<E>(id); arm(st, k.nothrow);
        f(it);
        check_arg(it, id);
    }
    void push_c(CB& b, bool back, long id, const Step& st, Out& out, std::true_type) {
        with_arg(b, id, st, [&](const E& it) { out = call([&] { if (back) b.push_back(it); else b.push_front(it); }); });
    }
    void push_c(CB&, bool, long, const Step&, Out&, std::false_type) {}
    void check_arg(const E& it, long id) { if (peek(it) != id) violate(k.fam | (S.fired ? C08 : 0), "const-argument-modified"); }
    void ins_c(CB& b, bool fwd, size_t idx, long id, const Step& st, Out& out, std::true_type) {
        with_arg(b, id, st, [&](const E& it) { out = call([&] { iterator p = b.begin() + idx; ret = fwd ? b.insert(p, it) : b.rinsert(p, it); }); });
    }
    void ins_c(CB&, bool, size_t, long, const Step&, Out&, std::false_type) {}
    void ins_n(CB& b, bool fwd, size_t idx, size_t cnt, long id, const Step& st, Out& out, std::true_type) {
        with_arg(b, id, st, [&](const E& it) {
            if (K == K6 && (st.z & 8) && cnt < 200000) ins_int(b, fwd, idx, long(cnt), it, out, tag<K == K6>());
            else out = call([&] { iterator p = b.begin() + idx; if (fwd) b.insert(p, cnt, it); else b.rinsert(p, cnt, it); });
        });
    }
    void ins_n(CB&, bool, size_t, size_t, long, const Step&, Out&, std::false_type) {}
    void erase_n(CB& b, bool front, size_t cnt, Out& out, std::true_type) { out = call([&] { if (front) b.erase_begin(cnt); else b.erase_end(cnt); }); }
    void erase_n(CB&, bool, size_t, Out&, std::false_type) {}
    void setcap(CB& b, bool fwd, size_t nc, size_t nm, const Step& st, Out& out, std::true_type) {
        arm(st, k.nothrow); out = call([&] { if (fwd) b.set_capacity(mkcap(nc, nm)); else b.rset_capacity(mkcap(nc, nm)); });
    }
    void setcap(CB&, bool, size_t, size_t, const Step&, Out&, std::false_type) {}
    void resize(CB& b, bool r, bool dv, size_t ns, long id, const Step& st, Out& out, std::true_type) {
        if (dv) { arm(st, k.nothrow); out = call([&] { if (r) b.rresize(ns); else b.resize(ns); }); return; }
        with_arg(b, id, st, [&](const E& it) { out = call([&] { if (r) b.rresize(ns, it); else b.resize(ns, it); }); });
    }
    void resize(CB&, bool, bool, size_t, long, const Step&, Out&, std::false_type) {}
    void as_copy(CB& b, int c, int d, const Step& st, Out& out, std::true_type) {
        size_t n = m[c].v.size();
        k.fam = C05; k.strong = true; int aid = m[c].aid;
        k.exp = m[d]; k.exp.aid = aid;
        if (c == d) { keep_all(n); k.nothrow = F_ALL; ++COV.probes[PR_SELF]; cost(0, 0, true); } else { cost(m[d].v.size(), n); keep_none(n); k.nothrow = 0; k.exact_alloc = long(m[d].v.size()); }
        const CB& e = *cb[d];
        arm(st, k.nothrow); out = call([&] { b = e; });
    }
    void as_copy(CB&, int, int, const Step&, Out&, std::false_type) {}
    void as_n(CB& b, const Step& st, Out& out, std::true_type) {
        size_t cap = m_now.cap, n = m_now.v.size();
        bool wc = st.op == AS_CAPN; long id = fresh();
        size_t nc = wc ? (st.y % 3 == 0 ? std::min<size_t>(cap, span()) : newcap(st.y / 3)) : 0;
        size_t cnt = wc ? st.x % (nc + 1) : (st.x % 4 == 0 ? cap % span() : newcap(st.x / 4)); if (!wc) nc = cnt;
        if (SO) nc = std::min<size_t>(nc, P.max_elems), cnt = std::min(cnt, nc); if (!wc) nc = cnt;
        size_t nm = (SO && wc) ? st.z % (nc + 1) : 0;
        if (wc && huge_cap(st.z)) nc = huge(st.z / 29);
        bool len = false;
        if (!SO && st.z % 23 == 0) { len = true; nc = P.max_elems + 1; if (!wc) cnt = nc; cnt = std::min(cnt, nc); }
        k.fam = C05; k.args.push_back(id); k.exp.cap = nc; k.exp.mincap = nm; k.exp.v.assign(len ? 0 : cnt, id); keep_none(n); k.nothrow = 0; k.want_min_alloc = nm; k.exact_alloc = long(std::max(cnt, nm)); cost(cnt, n);
        if (!SO && nc > P.max_elems) { k.expx = X_LENGTH; k.exp = m_now; k.fam |= C04; ++COV.probes[PR_LENGTH_ERROR]; }
        const E it = make<E>(id); arm(st, k.nothrow);
        if (wc) { bool l = K == K6 && (st.z & 2) && cnt < 100000; if (l) as_cap_int(b, nc, nm, long(cnt), it, out, tag<K == K6>()); else out = call([&] { b.assign(mkcap(nc, nm), cnt, it); }); } else as_n2(b, cnt, it, st, out);
        check_arg(it, id);
    }
    void as_n(CB&, const Step&, Out&, std::false_type) {}
    // integral arguments must not be taken for iterators
    template <class X> void as_cap_int(CB& b, size_t nc, size_t nm, long cnt, const X& it, Out& out, std::true_type) { out = call([&] { b.assign(mkcap(nc, nm), cnt, it); }); }
    template <class X> void as_cap_int(CB&, size_t, size_t, long, const X&, Out&, std::false_type) {}
    template <class X> void ins_int(CB& b, bool fwd, size_t idx, long cnt, const X& it, Out& out, std::true_type) { out = call([&] { iterator p = b.begin() + idx; if (fwd) b.insert(p, cnt, it); else b.rinsert(p, cnt, it); }); }
    template <class X> void ins_int(CB&, bool, size_t, long, const X&, Out&, std::false_type) {}
    template <class X> void ct_int(int c, bool wc, size_t nc, size_t nm, long cnt, const X& it, const Al& al, Out& out, std::true_type) {
        if (wc) out = call([&] { ::new (at(c)) CB(mkcap(nc, nm), cnt, it, al); }); else out = call([&] { ::new (at(c)) CB(long(nc), it, al); });
    }
    template <class X> void ct_int(int, bool, size_t, size_t, long, const X&, const Al&, Out&, std::false_type) {}
    template <class X> void as_n2(CB& b, size_t cnt, const X& it, const Step&, Out& out) { out = call([&] { b.assign(cnt, it); }); }
    void as_n2(CB& b, size_t cnt, const long& it, const Step& st, Out& out) {
        if (st.z & 1) out = call([&] { b.assign(long(cnt), long(it)); });       // integral arguments must not be taken for iterators
        else out = call([&] { b.assign(cnt, it); });
    }

    // ---- construction in place of container c
    bool construct_op(const Step& st, int c, int d, Out& out) {
        if ((st.op == CT_COPY || st.op == CT_MOVE) && c == d) return false;
        int aid = stateless ? 0 : 1 + int(st.z % 4);
        // destroying the old object is part of the step
        { Out o = call([&] { cb[c]->~CB(); }); (void)o; }
        cb[c] = nullptr; scrub(at(c), room_size);            // what a constructor leaves unset is garbage, the same every time
        k.ctor = true; k.fam = C05; k.end_stable = false; k.exp = Model(); k.exp.aid = aid;
        Al al(aid);
        size_t nc = newcap(st.y); if (SO) nc = std::min<size_t>(nc, P.max_elems);
        size_t nm = SO ? st.x / 7 % (nc + 1) : 0; const bool hc = huge_cap(st.x / 11); const size_t hn = huge(st.x / 319);
        bool len = !SO && st.z / 8 % 29 == 0;
        k.nothrow = 0; keep_none(0);
        long live0 = S.live_arena, blocks0 = S.live_blocks;
        switch (st.op) {
        case CT_DEFAULT: k.nothrow = F_ALL; cost(0, 0, true); arm(st, k.nothrow); out = call([&] { ::new (at(c)) CB(al); }); break;
        case CT_CAP: if (len) nc = P.max_elems + 1; if (hc) nc = hn; k.exp.cap = nc; k.exp.mincap = nm; k.want_min_alloc = nm; k.exact_alloc = long(nm);
            if ((SO ? nm : nc) == 0) k.nothrow = F_ALL; else k.nothrow = F_ELEM;
            expect_len(nc); cost(0, 0, true); arm(st, k.nothrow); out = call([&] { ::new (at(c)) CB(mkcap(nc, nm), al); }); break;
        case CT_N: case CT_CAPN: ct_n(st, c, nc, nm, len, hc ? hn : 0, al, out, tag<copyable>()); break;
        case CT_RANGE: case CT_CAPRANGE: {
            size_t cnt = st.x % 3 == 0 ? nc : st.x / 3 % 12; std::vector<long> ids; for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh());
            int cat = st.z / 4 % 4; bool wc = st.op == CT_CAPRANGE; bool single = copyable ? cat == 2 || (cat == 3 && K != K1) : cat > 1;
            if (TINY && !single && st.x % 9 == 4) { cnt = 120 + st.x / 9 % 500; ids.clear(); for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh()); }
            if (single) k.fam |= C20;
            const bool fits = wc ? !hc && nc <= P.max_elems : true;
            if (fits && may_vast(cat, st.z, wc ? nc : cnt)) {
                cnt = go_vast(st.x, wc ? nc : cnt, nc); ids.clear(); for (size_t i = 0; i < cnt; ++i) ids.push_back(fresh());
                if (!wc) cnt = vast;
            }
            if (!wc) { nc = cnt; nm = 0; } else if (hc && !single) nc = hn;
            k.args = ids; k.exp.cap = nc; k.exp.mincap = nm; k.exp.v = keep_last(ids, nc); k.want_min_alloc = nm; k.exact_alloc = long(std::max(nm, k.exp.v.size()));
            expect_len(nc, SO && !wc); cost(cnt, 0, false, cnt);
            arm(st, k.nothrow);
            if (wc) out = ranged<true>(cat, ids, [&](auto f, auto l) { ::new (at(c)) CB(mkcap(nc, nm), f, l, al); });
            else out = ranged<true>(cat, ids, [&](auto f, auto l) { ::new (at(c)) CB(f, l, al); });
            break; }
        case CT_COPY: k.exp = m[d]; k.exact_alloc = long(m[d].v.size()); cost(m[d].v.size(), 0); ct_copy(st, c, d, out, tag<copyable>()); break;
        case CT_MOVE: k.exp = m[d]; k.other = d; k.exp_other = m[d]; k.exp_other.v.clear(); k.resync_other_cap = true; k.nothrow = F_ALL; cost(0, 0, true);
            arm(st, k.nothrow); out = call([&] { ::new (at(c)) CB(std::move(*cb[d])); }); break;
        }
        if (out.x == X_NONE) cb[c] = reinterpret_cast<CB*>(at(c));
        else {
            uint32_t t = C09 | (S.fired ? C08 : 0);
            if (S.live_arena != live0) violate(t | C10, "failed-constructor-left-elements", std::to_string(S.live_arena - live0) + " elements alive");
            if (S.live_blocks != blocks0) violate(t | C11, "failed-constructor-leaked-memory", std::to_string(S.live_blocks - blocks0) + " blocks");
            ++COV.probes[PR_CTOR_FAIL];
            // replace by an empty buffer so that the history can continue
            NoLib nl; uint32_t a = S.arm; S.arm = 0;
            scrub(at(c), room_size); cb[c] = ::new (at(c)) CB(Al(aid)); S.arm = a;
            m[c] = Model(); m[c].aid = aid;
        }
        return true;
    }
    void expect_len(size_t nc, bool always = false) { if ((always || !SO) && nc > P.max_elems) { k.expx = X_LENGTH; k.fam |= C04; ++COV.probes[PR_LENGTH_ERROR]; } }
    void ct_n(const Step& st, int c, size_t nc, size_t nm, bool len, size_t hn, const Al& al, Out& out, std::true_type) {
        bool wc = st.op == CT_CAPN; size_t cnt = wc ? st.x % (nc + 1) : nc; long id = fresh();
        if (len) { nc = P.max_elems + 1; if (!wc) cnt = nc; cnt = std::min(cnt, nc); }
        bool ints = K == K6 && (st.x / 3 & 1) && nc < 200000 && !len;
        if (SO && !wc) { nm = ints ? 0 : st.x / 7 % (nc + 1); }            // (capacity_ctrl, item): filled with copies
        if (!SO && !wc) nm = 0;
        if (hn && wc && !ints) nc = hn;
        k.args.push_back(id); k.exp.cap = nc; k.exp.mincap = nm; k.exp.v.assign(len ? 0 : (wc ? cnt : nc), id); k.want_min_alloc = nm; k.exact_alloc = long(std::max(nm, k.exp.v.size()));
        expect_len(nc); cost(wc ? cnt : nc, 0);
        const E it = make<E>(id);
        arm(st, k.nothrow);
        if (ints) ct_int(c, wc, nc, nm, long(cnt), it, al, out, tag<K == K6>());
        else if (wc) out = call([&] { ::new (at(c)) CB(mkcap(nc, nm), cnt, it, al); });
        else ct_n2(c, nc, nm, it, al, out, tag<SO>());
        check_arg(it, id);
    }
    void ct_n(const Step&, int, size_t, size_t, bool, size_t, const Al&, Out&, std::false_type) {}
    void ct_n2(int c, size_t nc, size_t nm, const E& it, const Al& al, Out& out, std::true_type) { out = call([&] { ::new (at(c)) CB(mkcap(nc, nm), it, al); }); }
    void ct_n2(int c, size_t nc, size_t, const E& it, const Al& al, Out& out, std::false_type) { out = call([&] { ::new (at(c)) CB(nc, it, al); }); }
    void ct_copy(const Step& st, int c, int d, Out& out, std::true_type) { arm(st, k.nothrow); out = call([&] { ::new (at(c)) CB(const_cast<const CB&>(*cb[d])); }); }
    void ct_copy(const Step&, int, int, Out&, std::false_type) {}

    // ---- element writes through every route
    static void put(long& e, long id) { e = id; }
    static void put(double& e, long id) { e = make<double>(id); }
    static void put(ElemBase& e, long id) { e.id = id; }
    bool write_op(CB& b, int, const Step& st, Out& out) {
        size_t n = m_now.v.size(); if (!n) return false;
        size_t idx = st.x % n; long id = fresh(); k.fam = C07; keep_all(n); k.exp.v[idx] = id; k.nothrow = F_ALL; k.args.push_back(id);
        uint32_t via = st.y % 8; cost(0, 0, true); if (via == 7) k.fam |= C06;
        arm(st, k.nothrow);
        out = call([&] {
            switch (via) {
            case 0: put(b[idx], id); break;
            case 1: put(b.at(idx), id); break;
            case 2: put(*(b.begin() + idx), id); break;
            case 3: put(*(b.end() - (n - idx)), id); break;
            case 4: put(b.begin()[idx], id); break;
            case 5: put(*(b.rbegin() + (n - 1 - idx)), id); break;
            case 6: if (idx == 0) put(b.front(), id); else if (idx == n - 1) put(b.back(), id); else put(b[idx], id); break;
            default: { auto o = b.array_one(), t = b.array_two(); if (idx < o.second) put(*(o.first + idx), id); else put(*(t.first + (idx - o.second)), id); }
            }
        });
        return true;
    }
    bool compare_op(CB& b, int, int d, const Step& st, Out& out) {
        const std::vector<long>& u = m_now.v; std::vector<long> w = m[d].v; const CB& x = b;
        // half of the time with a near copy laid out differently: one element other, missing or more
        Tmp t;
        if (st.y % 2 && may_tmp(u.size())) {
            w = u; uint32_t how = st.y / 2 % 5; size_t at = w.empty() ? 0 : st.z % 3 ? st.x % w.size() : w.size() - 1;
            if (how < 2 && !w.empty()) w[at] += how ? 1 : -1; else if (how == 2 && !w.empty()) w.pop_back(); else if (how == 3) w.push_back(7);
            S.step_tags = C01 | C05;
            t.fill(w, w.size() + st.z / 3 % 3, st.z / 9 % 2 ? w.size() + st.z / 3 % 3 : 0, st.z / 18, stateless ? 0 : m[d].aid);
            S.step_tags = C07 | so();
        }
        const CB& y = t.p ? *t.p : *cb[d];
        k.fam = C07; keep_all(u.size()); k.nothrow = F_ALL & ~fbit(F_CMP); cost(2 * std::max(u.size(), w.size()), 0, true, 2 * std::max(u.size(), w.size()));
        bool eq = false, ne = false, lt = false, gt = false, le = false, ge = false;
        arm(st, k.nothrow);
        out = call([&] { eq = x == y; ne = x != y; lt = x < y; gt = x > y; le = x <= y; ge = x >= y; });
        if (out.x == X_NONE && (eq != (u == w) || ne != (u != w) || lt != (u < w) || gt != (u > w) || le != (u <= w) || ge != (u >= w)))
            violate(C07 | so(), "comparison-wrong", show(u) + " vs " + show(w));
        return true;
    }
    // random walk of iterators checked against index arithmetic
    // standard algorithms over (reverse) iterators of the buffer: the same as over any other random-access sequence
    struct Less { template <class X> bool operator()(const X& a, const X& b) const { return peek(a) < peek(b); } };
    struct Odd { uint32_t m; template <class X> bool operator()(const X& a) const { return (peek(a) & m) != 0; } };
    template <class It> static long algo(It f, It l, size_t i, uint32_t which, uint32_t arg) {
        switch (which) {
        case 0: std::sort(f, l, Less()); return 0;
        case 1: std::stable_sort(f, l, Less()); return 0;
        case 2: std::reverse(f, l); return 0;
        case 3: return std::rotate(f, f + i, l) - f;
        case 4: return std::stable_partition(f, l, Odd{1u << arg % 4}) - f;
        case 5: return std::partition(f, l, Odd{1u << arg % 4}) - f;
        case 6: std::make_heap(f, l, Less()); std::sort_heap(f, l, Less()); return 0;
        case 7: std::sort(f, f + i, Less()); std::sort(f + i, l, Less()); std::inplace_merge(f, f + i, l, Less()); return 0;
        case 8: { size_t m = std::min<size_t>(i, size_t(l - f) - i); return std::swap_ranges(f, f + m, l - m) - f; }
        case 9: return std::max_element(f, l, Less()) - std::min_element(f, l, Less());
        case 10: return std::find_if(f, l, Odd{1u << arg % 9}) - f;
        case 11: std::nth_element(f, f + i, l, Less()); std::sort(f, f + i, Less()); std::sort(f + i, l, Less()); return 0;
        case 12: std::partial_sort(f, f + i, l, Less()); std::sort(f + i, l, Less()); return 0;
        case 13: { std::sort(f, l, Less()); return std::upper_bound(f, l, *(f + i / 2), Less()) - f; }
        case 14: return std::adjacent_find(f, l, Less()) - f;
        default: return std::is_sorted_until(f, l, Less()) - f;
        }
    }
    template <class F, class C2> static void copy_algo(F f, const C2& from, size_t n, uint32_t how, std::true_type) {
        if (how == 0) std::copy(from.begin(), from.begin() + n, f);
        else if (how == 1) std::copy(from.rbegin(), from.rbegin() + n, f);
        else std::copy_backward(from.end() - n, from.end(), f + n);
    }
    template <class F, class C2> static void copy_algo(F, const C2&, size_t, uint32_t, std::false_type) {}
    bool algo_op(CB&, int, const Step&, Out&, std::true_type) { return false; }     // (algorithms compute with int in place of a tiny difference_type)
    bool algo_op(CB& b, int d, const Step& st, Out& out, std::false_type) {
        size_t n = m_now.v.size(); if (n > 1000) return false;
        size_t lo = st.x % 3 ? 0 : st.x / 3 % (n + 1), hi = st.y % 3 ? n : lo + st.y / 3 % (n - lo + 1), i = hi > lo ? st.z / 64 % (hi - lo) : 0; uint32_t which = st.z % 20, arg = st.z / 32;
        Step s = st; s.mode = M_NONE;                  // (what an algorithm leaves behind when it fails is not the buffer's affair)
        k.fam = C07; keep_all(n); S.stored_blocks.clear();
        long got = 0, want = 0;
        if (which >= 18) {                             // copying from a buffer: another one, or an earlier part of this one
            if (!copyable || cb[d] == &b) return false;
            size_t q = std::min(n, m[d].v.size()); uint32_t how = arg % 3;
            copy_algo(k.exp.v.begin(), m[d].v, q, how, std::true_type());
            const CB& from = *cb[d]; for (long v : m[d].v) k.args.push_back(v);
            arm(s, 0); out = call([&] { copy_algo(b.begin(), from, q, how, std::integral_constant<bool, copyable>()); });
            return true;
        }
        if (i == 0 && hi == lo && which > 2) return false;
        auto v = k.exp.v.begin(); const bool rev = st.z & 0x100000;
        if (which >= 16) which = which == 16 ? 0 : 2;
        if (rev) { auto r = std::make_reverse_iterator(v + hi); want = algo(r, r + (hi - lo), i, which, arg); } else want = algo(v + lo, v + hi, i, which, arg);
        arm(s, 0);
        out = call([&] { if (rev) { auto r = b.rend() - hi; got = algo(r, r + (hi - lo), i, which, arg); } else got = algo(b.begin() + lo, b.begin() + hi, i, which, arg); });
        if (out.x == X_NONE && got != want) violate(C07 | so(), "algorithm-result-differs", "algorithm " + std::to_string(which) + " returned " + std::to_string(got) + ", expected " + std::to_string(want));
        return true;
    }
    // a long stretch of pushes and pops in one step (whatever counts them may wrap around)
    bool churn_op(CB& b, const Step& st, Out& out) {
        const size_t n = m_now.v.size(), cap = m_now.cap;
        if (cap > P.max_elems || cap > 3000 || (P.world >= 20 && P.world < 40)) return false;
        k.fam = C01; keep_none(n); k.end_stable = false;
        size_t N = st.x % 300; if (st.x / 300 % 13 == 0) N = 300 + st.x / 3900 % 600;
        if (K == K6 && !SO && !TINY && st.x % 101 == 7) { N = 65000 + st.x / 101 % 3000; ++COV.probes[PR_LONG_CHURN]; }
        Step s = st; s.mode = M_NONE; arm(s, 0);
        std::deque<std::pair<long, long>> d; for (size_t i = 0; i < n; ++i) d.emplace_back(m_now.v[i], long(i)); Rng r(st.y); const uint32_t mix = st.z % 6; std::string bad;
        out = call([&] {
            for (size_t i = 0; i < N && bad.empty(); ++i) {
                if (i % 64 == 0) S.step_events = 0;
                uint32_t what = mix == 0 ? 0 : mix == 1 ? 1 : mix == 2 ? (i & 1 ? 2 : 0) : mix == 3 ? (i & 1 ? 3 : 1) : mix == 4 ? r.below(4) : (i / (cap + 1) & 1 ? 2 + r.below(2) : r.below(2));
                if (what >= 2 && d.empty()) continue;
                if (what < 2) {
                    const long id = fresh(); if (what) b.push_front(make<E>(id)); else b.push_back(make<E>(id));
                    if (cap) { if (what) d.emplace_front(id, -1L); else d.emplace_back(id, -1L); if (d.size() > cap) { if (what) d.pop_back(); else d.pop_front(); } }
                } else if (what == 2) { b.pop_front(); d.pop_front(); } else { b.pop_back(); d.pop_back(); }
                if (b.size() != d.size() || (!d.empty() && (peek(b.front()) != d.front().first || peek(b.back()) != d.back().first))) bad = "after " + std::to_string(i + 1) + " pushes and pops";
                else if (i % 16 == 0 && !d.empty()) { const size_t j = i / 16 % d.size(); if (peek(b[Sz(j)]) != d[j].first) bad = "element " + std::to_string(j) + " after " + std::to_string(i + 1) + " pushes and pops"; }
            }
        });
        if (!bad.empty()) violate(C01 | so(), "long-history-diverged", bad);
        k.exp.v.clear(); for (size_t i = 0; i < d.size(); ++i) { k.exp.v.push_back(d[i].first); if (!SO && d[i].second >= 0) k.map[size_t(d[i].second)] = long(i); }
        return true;
    }
    bool walk_op(CB& b, int, const Step& st, Out& out) {
        size_t n = m_now.v.size(); k.fam = C07; keep_all(n); k.nothrow = F_ALL; arm(st, k.nothrow);
        const char* bad = nullptr;
        out = call([&] {
            Rng r(st.x * 977 + st.y);
            iterator i1 = b.begin(); const_iterator i2 = const_cast<const CB&>(b).begin(); long p1 = 0, p2 = 0, N = long(n);
            if (n) { long t = long(r.below(n + 1)); i2 = i2 + t; p2 = t; }
            for (int s = 0; s < 24 && !bad; ++s) {
                Once guard(worst_one);
                long t = long(r.below(n + 1));
                switch (r.below(14)) {
                case 0: if (p1 < N) { ++i1; ++p1; } break;
                case 1: if (p1 > 0) { --i1; --p1; } break;
                case 2: if (p2 < N) { const_iterator o = i2++; if (o - i2 != -1) bad = "post-increment"; ++p2; } break;
                case 3: if (p2 > 0) { const_iterator o = i2--; if (o - i2 != 1) bad = "post-decrement"; --p2; } break;
                case 4: i1 += t - p1; p1 = t; break;
                case 5: i2 -= p2 - t; p2 = t; break;
                case 6: i1 = i1 + (t - p1); p1 = t; break;
                case 7: i2 = i2 - (p2 - t); p2 = t; break;
                case 8: i1 = (t - p1) + i1; p1 = t; break;
                case 9: i2 = i1; p2 = p1; break;
                case 10: if ((i1 == i2) != (p1 == p2) || (i1 != i2) != (p1 != p2)) bad = "equality"; break;
                case 11: if ((i1 < i2) != (p1 < p2) || (i1 > i2) != (p1 > p2) || (i1 <= i2) != (p1 <= p2) || (i1 >= i2) != (p1 >= p2) || (i2 < i1) != (p2 < p1)) bad = "ordering"; break;
                case 12: if (i2 - i1 != p2 - p1 || i1 - i2 != p1 - p2 || i1 - b.begin() != p1 || b.end() - i1 != N - p1) bad = "difference"; break;
                default:
                    if (p1 < N && (std::addressof(*i1) != std::addressof(b[p1]) || raw(i1.operator->()) != std::addressof(b[p1]))) bad = "dereference";
                    if (n && (t < N) && std::addressof(i1[t - p1]) != std::addressof(b[t])) bad = "subscript";
                    if ((p1 == N) != (i1 == b.end()) || (p1 == 0) != (i1 == b.begin())) bad = "begin/end identity";
                }
            }
        });
        if (bad) violate(C07 | so(), "iterator-law-broken", bad);
        constant("iterator operations", 48);
        return true;
    }

    // ------------------------------------------------------------------ verdicts of a step
    struct Held { std::vector<iterator> it; iterator end; std::vector<const void*> a; std::vector<long> v; };
    Held hold(int i) {
        Held h; CB& c = *cb[i]; size_t n = std::min<size_t>(c.size(), 20000);
        for (size_t j = 0; j < n; ++j) { h.it.push_back(c.begin() + j); h.a.push_back(std::addressof(c[j])); h.v.push_back(peek(c[j])); }
        h.end = c.end(); return h;
    }
    void stable(int where, const Held& h, const std::vector<long>& map, bool refs_only, bool end_ok, uint32_t tags, const char* what) {
        CB& c = *cb[where]; size_t n = c.size();
        for (size_t i = 0; i < map.size() && i < h.a.size(); ++i) {
            if (map[i] < 0) continue;
            size_t j = size_t(map[i]);
            if (j >= n) continue;                                        // reported as a content mismatch
            if (std::addressof(c[j]) != h.a[i]) { violate(tags, "reference-disturbed", std::string(what) + ": element " + std::to_string(i)); return; }
            if (!refs_only) {
                if (h.it[i] != c.begin() + j || std::addressof(*h.it[i]) != h.a[i] || h.it[i] - c.begin() != long(j)) { violate(tags, "iterator-disturbed", std::string(what) + ": element " + std::to_string(i)); return; }
            }
        }
        if (end_ok && !refs_only && h.end != c.end()) violate(tags, "end-iterator-disturbed", what);
    }
    void accounting(bool failed, bool strongish) {
        long total = 0; long withcap = 0, nonempty = 0; 
        for (int i = 0; i < 3; ++i) { total += long(cb[i]->size()); if (cap_of(*cb[i])) ++withcap; if (cb[i]->size()) ++nonempty; }
        uint32_t t = (S.fired ? C08 | S.fault_tags : 0) | (failed && strongish ? C09 : 0);
        if (is_class && S.live_arena != total) violate(C10 | t, S.live_arena > total ? "elements-leaked" : "elements-missing", std::to_string(S.live_arena) + " alive, " + std::to_string(total) + " owned");
        if (is_class && S.live_other != other_base) { violate(C10 | t, "temporary-elements-leaked", std::to_string(S.live_other - other_base)); other_base = S.live_other; }
        bool bad = SO ? (S.live_blocks > 3 || S.live_blocks < nonempty) : S.live_blocks != withcap;
        if (bad) violate(C11 | t | (SO ? C17 : 0), S.live_blocks > withcap ? "memory-leaked" : "memory-missing", std::to_string(S.live_blocks) + " blocks live, " + std::to_string(withcap) + " buffers with capacity");
        if (SO) { // per-container attribution is done in memory_bounds
        }
    }
    long other_base = 0;

    long slots_of(int i) {           // storage slots currently held by container i, -1 unknown
        CB& c = *cb[i];
        if (c.size()) { uint32_t b = block_of(std::addressof(c[0])); return b ? long(block(b).n) : -1; }
        if (stateless) return -1;
        for (int j = 0; j < 3; ++j) if (j != i && cb[j]->get_allocator().ident() == c.get_allocator().ident()) return -1;
        long s = 0; int aid = c.get_allocator().ident();
        for (uint32_t b = 1; b < block_count(); ++b) if (block(b).live && block(b).elem && block(b).aid == aid && block(b).owner == S.tid) s += block(b).n;
        return s;
    }

    bool allowed_after_failure(long v, const std::vector<long>& before, bool rvalue_ok) {
        if (v == MOVED) return rvalue_ok;
        if (std::find(before.begin(), before.end(), v) != before.end()) return true;
        return std::find(k.args.begin(), k.args.end(), v) != k.args.end();
    }

    uint64_t seen_tags() { uint64_t t = 0; for (auto& v : S.viol) t |= v.tags; return t; }

    // returns false when the run must stop
    bool settle(int step) {
        if (S.viol.empty()) return true;
        uint32_t want = P.prop ? bit(P.prop) : ~0u;
        bool mine = false;
        for (auto& v : S.viol) if (v.tags & (want | bit(31))) mine = true;
        if (mine) { for (auto& v : S.viol) if (v.tags & (want | bit(31))) { R.viol.push_back(v); R.viol.back().step = step; } return false; }
        R.foreign += S.viol.size();
        S.viol.clear();
        if (S.fatal) { R.aborted = true; return false; }
        return true;
    }

    bool step(int si, const Step& st) {
        S.step = si; S.step_events = 0; S.stored_blocks.clear(); S.moved_from_stored = 0; S.fault_tags = 0; last_did = false;
        if (!supports(st.op)) return true;
        if (st.op == REMAP) return remap_op(si);
        int c = st.c % 3;
        Held h[3]; std::vector<long> before_v[3]; size_t before_cap[3], before_min[3]; long before_slots[3];
        for (int i = 0; i < 3; ++i) {
            h[i] = hold(i); before_v[i] = m[i].v; before_cap[i] = m[i].cap; before_min[i] = m[i].mincap; before_slots[i] = SO ? slots_of(i) : 0;
            if (!h[i].a.empty()) { uint32_t b = block_of(h[i].a[0]); if (b) S.stored_blocks.push_back(b); }
        }
        (void)before_min;
        mix(0x57E9 + st.op * 131 + c);
        S.step_tags = family_of(st.op) | so();
        Out out;
        bool was_full = m[c].v.size() == m[c].cap;
        size_t one0 = cb[c]->array_one().second;
        tracef("step %d: %s on #%d x=%u y=%u z=%u d=#%d mode=%d mask=%x count=%d sticky=%d | before %s cap=%zu", si, op_names[st.op], c, st.x, st.y, st.z, st.d % 3, st.mode, st.mask, st.count, st.sticky, show(m[c].v).c_str(), m[c].cap);
        bool did = exec(st, out);
        S.arm = 0; const uint64_t wk[4] = {S.work, S.deaths, S.srcwork, S.ptrwork};
        if (!did) { S.stored_blocks.clear(); return settle(si); }
        ++R.steps_run; ++COV.op_runs[st.op];
        if (S.exhausted) { R.aborted = true; return false; }
        bool fired = S.fired;
        if (fired) { ++R.faults; ++COV.op_fault[st.op]; if (had_fault) ++COV.probes[PR_SECOND_FAULT]; had_fault = true; }
        uint32_t fam = k.fam | so();
        S.step_tags = fam;

        // --- which exception came out?
        bool failed = out.x != X_NONE;
        last_did = true; last_failed = failed; last_fired = fired;
        if (fired) {
            if (st.mode == M_NOTHROW) violate(C12 | (failed ? fam & C05 : C08), failed ? "no-throw-operation-failed" : "no-throw-operation-hit-failing-call", std::string(fault_names[S.fired_kind]) + " in " + op_names[st.op]);
            else if (!failed) violate(C08, "failure-swallowed", fault_names[S.fired_kind]);
            if (failed && !(out.x == X_FAULT && out.serial >= S.first_serial && out.serial < S.first_serial + S.fired_count)) violate(C08, "failure-translated", out.what);
        } else if (out.x != k.expx) {
            if (out.x == X_ARENA) { R.aborted = true; return false; }
            violate(fam | (k.expx == X_LENGTH || out.x == X_LENGTH ? C04 : 0) | (k.expx == X_RANGE ? C07 : 0), "unexpected-exception-outcome", "expected " + std::to_string(k.expx) + " got " + std::to_string(out.x) + " " + out.what);
        }
        if (S.moved_from_stored && keeps_values && !(K == K4 && (st.op == SETCAP || st.op == RSETCAP))) {
            if (K == K2 || K == K7) violate(C13, "moved-from-stored-element", op_names[st.op]);
        }

        // --- observe
        Obs o[3];
        for (int i = 0; i < 3; ++i) { o[i] = observe(i, (i == c || i == k.other ? fam : C05) | (fired ? C08 | S.fault_tags : 0)); if (o[i].bad) return settle(si); }
        if (S.trace) tracef("    -> %s %s cap=%zu", failed ? "throws" : "ok", show(o[c].v).c_str(), o[c].cap);
        for (int i = 0; i < 3; ++i) for (long v : o[i].v) mix(uint64_t(v)), mix(o[i].cap);

        // --- bystanders
        for (int i = 0; i < 3; ++i) if (i != c && i != k.other) {
            if (o[i].v != m[i].v || o[i].cap != m[i].cap || o[i].mincap != m[i].mincap || o[i].aid != m[i].aid)
                violate(C05 | fam | (fired ? C08 : 0), "other-buffer-changed", "#" + std::to_string(i) + " " + show(m[i].v) + " -> " + show(o[i].v));
            else { std::vector<long> id(m[i].v.size()); for (size_t j = 0; j < id.size(); ++j) id[j] = long(j); stable(i, h[i], id, false, true, C14 | C05, "bystander"); }
        }
        if (!failed && !fired && k.cost_set) judge_cost(st.op, wk);
        if (!failed && !fired) {
            compare_model(c, o[c], k.exp, fam, "target");
            if (k.other >= 0) compare_model(k.other, o[k.other], k.exp_other, fam, "source", k.resync_other_cap);
            if (has_ret && o[c].v == k.exp.v) {
                long idx = -2; { idx = ret - cb[c]->begin(); }
                if (idx != k.ret && idx != k.ret2) violate(fam, "wrong-returned-position", "expected " + std::to_string(k.ret) + " got " + std::to_string(idx));
            }
            if (!k.ctor && k.map_set && k.refs_to < 0) stable(c, h[c], k.map, k.refs_only, k.end_stable, C14 | (st.op == AS_COPY ? C05 : 0), op_names[st.op]);
            if (k.refs_to >= 0) {
                std::vector<long> idc(h[c].a.size()), idd(h[k.refs_to].a.size());
                for (size_t j = 0; j < idc.size(); ++j) idc[j] = long(j);
                for (size_t j = 0; j < idd.size(); ++j) idd[j] = long(j);
                stable(k.refs_to, h[c], idc, true, false, C14 | C05, "swap"); stable(c, h[k.refs_to], idd, true, false, C14 | C05, "swap");
            }
            if (st.op == AS_MOVE || st.op == CT_MOVE) {
                int s = st.d % 3; std::vector<long> id(h[s].a.size()); for (size_t j = 0; j < id.size(); ++j) id[j] = long(j);
                stable(c, h[s], id, true, false, C14 | C05, "move");
            }
        } else if (k.ctor) {
            compare_model(c, o[c], m[c], fam, "replacement");
            if (k.other >= 0) compare_model(k.other, o[k.other], m[k.other], fam | C08, "source after failed construction");
        } else {
            if (fired && (k.strong || st.mode == M_NOTHROW)) {
                ++COV.probes[PR_STRONG_FAIL];
                if (k.strong) {
                    if (o[c].v != m[c].v || o[c].cap != m[c].cap || o[c].mincap != m[c].mincap) violate(C09 | C08, "strong-guarantee-broken", show(m[c].v) + " cap " + std::to_string(m[c].cap) + " -> " + show(o[c].v) + " cap " + std::to_string(o[c].cap));
                    else { std::vector<long> id(m[c].v.size()); for (size_t j = 0; j < id.size(); ++j) id[j] = long(j); stable(c, h[c], id, false, true, C09 | C14, "failed strong operation"); }
                }
            } else if (fired) ++COV.probes[PR_BASIC_FAIL];
            if (!fired && k.expx != X_NONE && failed) {      // documented refusal: no effect
                if (o[c].v != m[c].v || (o[c].cap != m[c].cap && !(k.refuse_cap && o[c].cap == k.exp.cap))) violate(fam | C04 | (k.strong ? C09 : 0), "refused-request-had-effect", show(m[c].v) + " -> " + show(o[c].v));
            }
            // values must be old or supplied; a moved-from residue only where moves cannot lose values silently
            std::vector<long> pool(before_v[c]);
            for (long v : o[c].v) if (!allowed_after_failure(v, pool, !keeps_values && is_class)) {
                violate(v == MOVED && keeps_values ? C13 | C08 | S.fault_tags : C08 | S.fault_tags, v == MOVED ? "value-lost-to-throwing-move" : "garbage-value-after-failure", show(before_v[c]) + " -> " + show(o[c].v)); break; }
            for (long v : o[c].v) if (v == MOVED) { ++COV.probes[PR_MOVED_RESIDUE]; break; }
            if (o[c].cap != before_cap[c] && o[c].cap != k.exp.cap) violate(C08 | so(), "capacity-garbage-after-failure", std::to_string(o[c].cap));
            if (k.other >= 0 && o[k.other].v != m[k.other].v) violate(C08 | fam, "source-changed-by-failed-operation");
        }
        accounting(failed, k.strong || k.ctor);
        if (SO) memory_bounds(c, st, failed, before_slots);

        // coverage: what kind of execution point was this?
        uint64_t cs = 1469598103934665603ull; auto add = [&](uint64_t v) { cs = (cs ^ v) * 1099511628211ull; };
        add(P.world); add(st.op); add(std::min<size_t>(before_cap[c], 40)); add(before_v[c].size()); add(one0 % 41); add(fired ? 1 + S.fired_kind : 0);
        add(fired ? std::min(S.fired_count + S.ordinal, 24) : 0); add(failed); add(was_full); add(o[c].one % 41); add(o[c].v.size() % 41);
        if (COV.states.size() < 6000000) COV.states.insert(cs);
        if (had_fault && !fired && !failed) ++COV.probes[PR_AFTER_FAULT_OK];
        if (SO && before_slots[c] >= 0) { long s = slots_of(c); if (s > before_slots[c]) ++COV.probes[PR_GROW]; else if (s >= 0 && s < before_slots[c]) ++COV.probes[PR_SHRINK]; }

        // resynchronise the model with what is there (differences were judged above)
        for (int i = 0; i < 3; ++i) { m[i].v = o[i].v; m[i].cap = o[i].cap; m[i].mincap = o[i].mincap; m[i].aid = o[i].aid; }
        return settle(si);
    }

    // shared memory: buffers and storage are found at another address from now on (another process), nothing may depend on the old one
    bool remap_op(int si) {
        mix(0x57E9 + REMAP * 131); S.step_tags = C11 | so(); k = Ctl();
        tracef("step %d: %s", si, op_names[REMAP]);
        const std::ptrdiff_t by = arena_move(); room += by;
        for (int i = 0; i < 3; ++i) if (cb[i]) cb[i] = reinterpret_cast<CB*>(reinterpret_cast<char*>(cb[i]) + by);
        ++R.steps_run; ++COV.op_runs[REMAP];
        for (int i = 0; i < 3; ++i) { Obs o = observe(i, C11); if (o.bad) break; compare_model(i, o, m[i], C11 | so(), "mapped elsewhere"); }
        return settle(si);
    }
    void judge_cost(int op, const uint64_t* w) {
        static const char* const what[] = {"element constructions and assignments", "element destructions", "source accesses and comparisons", "pointer steps"};
        const uint64_t mx[4] = {k.work_max, k.dead_max, k.src_max, k.ptr_max};
        ++COV.probes[PR_COST]; if (k.linear_work && w[0] > k.linear_work) ++COV.probes[PR_KNOWN_SEQ];
        for (int i = 0; i < 4; ++i) if (w[i] > mx[i]) { violate(C21, "cost-above-documented-complexity", std::string(op_names[op]) + ": " + std::to_string(w[i]) + " " + what[i] + ", bound " + std::to_string(mx[i]) + " (size " + std::to_string(m_now.v.size()) + ", capacity " + std::to_string(m_now.cap) + ")"); return; }
    }
    void compare_model(int i, const Obs& o, const Model& e, uint32_t tags, const char* who, bool moved_from = false) {
        uint32_t t = tags | (had_fault ? C08 : 0);
        if (o.v != e.v) violate(t, "contents-differ-from-model", std::string(who) + " #" + std::to_string(i) + " expected " + show(e.v) + " got " + show(o.v));
        if (moved_from) return;
        if (o.cap != e.cap) violate(t, "capacity-differs-from-model", std::string(who) + " expected " + std::to_string(e.cap) + " got " + std::to_string(o.cap));
        if (SO && o.mincap != e.mincap) violate(t | C17, "min-capacity-differs-from-model", "expected " + std::to_string(e.mincap) + " got " + std::to_string(o.mincap));
        if (!stateless && o.aid != e.aid) violate(C05 | C11, "allocator-differs-from-model", "expected " + std::to_string(e.aid) + " got " + std::to_string(o.aid));
    }
    long quiet_ops[3] = {LONG_MAX / 2, LONG_MAX / 2, LONG_MAX / 2}; bool shrunk[3] = {};
    void memory_bounds(int c, const Step& st, bool failed, const long* before) {
        for (int i = 0; i < 3; ++i) {
            long s = slots_of(i); if (s < 0) continue;
            if (s < long(cb[i]->size())) violate(C17, "storage-below-size");
            if (size_t(s) > cap_of(*cb[i]) && !(failed && i == c)) violate(C17, "storage-above-capacity", std::to_string(s) + " slots, capacity " + std::to_string(cap_of(*cb[i])));
        }
        long s = slots_of(c);
        // storage changes caused by single insertions and removals are spread out (no oscillation); everything else starts afresh
        const bool one = st.op <= INS_D || (st.op >= RINS_C && st.op <= RINS_D) || st.op == ERASE || st.op == RERASE;
        if (failed || !one || s < 0 || before[c] < 0) quiet_ops[c] = LONG_MAX / 2; else if (s == before[c]) ++quiet_ops[c];
        else {
            if (quiet_ops[c] < before[c] / 32 && !(shrunk[c] && s < before[c])) violate(C17, "storage-oscillates", std::to_string(quiet_ops[c]) + " single insertions or removals between two changes of the storage, now from " + std::to_string(before[c]) + " to " + std::to_string(s) + " slots");
            quiet_ops[c] = 0; shrunk[c] = s < before[c];             // (a second step down may follow at once: a failure may have left far too much)
        }
        if (!one && k.other >= 0) quiet_ops[k.other] = LONG_MAX / 2;
        if (failed || s < 0) return;
        if (size_t(s) < k.want_min_alloc) violate(C17, "guaranteed-minimum-not-provided", std::to_string(s) + " slots, minimum " + std::to_string(k.want_min_alloc));
        if (k.exact_alloc >= 0 && s != k.exact_alloc) violate(C17, "storage-not-the-documented-amount", std::to_string(s) + " slots, documented " + std::to_string(k.exact_alloc));
        long mn = long(min_of(*cb[c])), need = 4 * long(cb[c]->size()) + 8;
        if (k.exact_alloc < 0 && k.other < 0 && st.op != SWAP && before[c] >= 0 && s > std::max(std::max(before[c], mn), need)) violate(C17, "storage-grew-beyond-contents", std::to_string(s) + " slots, before " + std::to_string(before[c]) + ", " + std::to_string(cb[c]->size()) + " elements, minimum " + std::to_string(mn));
        if (k.is_removal) {
            if (before[c] >= 0 && s < std::min(before[c], mn)) violate(C17, "storage-dropped-below-minimum", std::to_string(s) + " slots, minimum " + std::to_string(mn));
            if (s > std::max(mn, 4 * long(cb[c]->size()) + 8)) violate(C17, "storage-not-released", std::to_string(s) + " slots for " + std::to_string(cb[c]->size()) + " elements, minimum " + std::to_string(mn));
        }
        (void)st;
    }
    static uint32_t family_of(int op) {
        if (op <= POP_FRONT) return C01; if (op <= RINS_RANGE) return C02; if (op <= CLEAR) return C03; if (op <= RRESIZE_V) return C04;
        if (op <= SWAP_FREE) return C05; if (op <= ROTATE) return C06; return op == CHURN ? C01 : C07;
    }

    bool start() {
        for (int i = 0; i < 3; ++i) if (P.caps[i] > 150) big = std::max<size_t>(big, P.caps[i]);
        if (big) S.event_budget *= 20;
        S.max_elems = P.max_elems; S.cbso = SO; S.elem_size = sizeof(E);
        other_base = S.live_other;
        for (int i = 0; i < 3; ++i) {
            size_t cap = std::min<size_t>(P.caps[i], P.max_elems), mn = std::min<size_t>(P.mins[i], cap);
            m[i].aid = stateless ? 0 : i + 1;
            S.step_tags = C05 | so();
            scrub(at(i), room_size);
            call([&] { cb[i] = ::new (at(i)) CB(mkcap(cap, mn), Al(m[i].aid)); });
            m[i].cap = cap; m[i].mincap = SO ? mn : 0;
            if (!cb[i]) { R.aborted = true; return false; }
            if (cap) {
                S.step_tags = C01 | so();
                for (uint32_t r = 0; r < P.rot[i] % (cap + 1); ++r) { E e = make<E>(7); call([&] { cb[i]->push_back(std::move(e)); }); call([&] { cb[i]->pop_front(); }); }
                for (uint32_t f = 0; f < P.fill[i] % (cap + 1); ++f) { long id = fresh(); E e = make<E>(id); call([&] { cb[i]->push_back(std::move(e)); }); m[i].v.push_back(id); }
            }
        }
        S.step_tags = C01;
        for (int i = 0; i < 3; ++i) { Obs o = observe(i, C01 | C05); if (!o.bad) compare_model(i, o, m[i], C01 | so(), "initial"); }
        return settle(-1);
    }
    void go() {
        if (!start()) return;
        for (size_t i = 0; i < P.steps.size(); ++i) if (!step(int(i), P.steps[i])) return;
        finish();
    }
    void finish() {
        // the end: everything must go away
        S.step = int(P.steps.size()); S.step_tags = C10; S.fired = false;
        for (int i = 0; i < 3; ++i) { S.step_events = 0; call([&] { cb[i]->~CB(); }); }
        if (is_class && S.live_arena != 0) violate(C10, "elements-outlive-their-buffer", std::to_string(S.live_arena));
        if (S.live_blocks != 0) violate(C11, "memory-leaked", std::to_string(S.live_blocks) + " blocks after destruction");
        arena_final_check();
        settle(int(P.steps.size()));
    }
    static void run(const Plan& p, RunResult& r) {
        begin_run();
        W* w = new W(p, r);
        w->go();
        r.hash = S.hash; r.events = S.events;
        S.viol.clear(); S.lib = 0; S.arm = 0;
        delete w;
    }
};

template <int K, bool SO, template <class> class A> struct Reg {
    Reg(int id, const char* name, const char* alloc) {
        typedef W<K, SO, A> T;
        register_world(id, World{name, SO, K, alloc, &T::supports, &T::run, false, nullptr, 1});
    }
};

}  // namespace sim

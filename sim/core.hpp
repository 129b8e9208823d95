// Deterministic simulation core: PRNG, arena, faults, element kinds, allocators, source iterators.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <iterator>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <memory>

namespace sim {

// ------------------------------------------------------------------ PRNG (the only source of choice)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// ------------------------------------------------------------------ properties as bits
constexpr uint32_t bit(int p) { return 1u << p; }
enum : uint32_t {
    C01 = bit(1), C02 = bit(2), C03 = bit(3), C04 = bit(4), C05 = bit(5), C06 = bit(6), C07 = bit(7), C08 = bit(8),
    C09 = bit(9), C10 = bit(10), C11 = bit(11), C12 = bit(12), C13 = bit(13), C14 = bit(14), C15 = bit(15),
    C16 = bit(16), C17 = bit(17), C18 = bit(18), C19 = bit(19), C20 = bit(20), C21 = bit(21)
};

// ------------------------------------------------------------------ faults
enum FaultKind { F_ALLOC, F_DCTOR, F_CCTOR, F_MCTOR, F_CASSIGN, F_MASSIGN, F_ITER, F_CMP, F_NKINDS };
extern const char* const fault_names[F_NKINDS];
constexpr uint32_t fbit(int k) { return 1u << k; }
constexpr uint32_t F_ALL = (1u << F_NKINDS) - 1;
constexpr uint32_t F_ELEM = fbit(F_DCTOR) | fbit(F_CCTOR) | fbit(F_MCTOR) | fbit(F_CASSIGN) | fbit(F_MASSIGN);

struct SimFault { int kind; uint64_t serial; };                    // thrown by element / iterator seams
struct SimBadAlloc : std::bad_alloc { uint64_t serial; explicit SimBadAlloc(uint64_t s) : serial(s) {} };

constexpr long MOVED = -7777777;   // value id left in a moved-from element
constexpr long DEADID = -9999999;

struct Violation { std::string kind; uint32_t tags = 0; int step = -1; std::string detail; };

struct Block { char* p; uint32_t n; uint32_t esz; int aid; bool live; uint32_t serial; uint32_t bytes; bool elem; int owner; };

struct State {
    // fault arming
    uint32_t arm = 0; int countdown = 0; bool sticky = false;
    bool fired = false; int fired_kind = -1; int fired_count = 0; uint64_t serial = 0, first_serial = 0; int ordinal = 0;
    int lib = 0;                                  // >0: library code is running
    int core = 0;                                 // >0: simulator code called from library code
    int tid = 0;                                  // simulated thread
    uint64_t hash = 0, events = 0, step_events = 0, event_budget = 400000;
    // current step context for tagging
    uint32_t fault_tags = 0;                      // properties that speak about a failure of the running operation
    uint32_t step_tags = 0;                       // functional family of the running operation
    int step = -1;
    bool cbso = false;
    // element accounting
    long live_arena = 0, live_other = 0;
    size_t max_elems = 1u << 20;
    size_t elem_size = 0;
    const void* constructing = nullptr; const void* destroying = nullptr;
    std::vector<uint32_t> stored_blocks;          // storage blocks of the containers when the step began
    uint64_t moved_from_stored = 0;
    bool exhausted = false;
    // log
    bool trace = false;
    uint64_t fault_fired[F_NKINDS] = {0};
    uint64_t allocs = 0, frees = 0; long live_blocks = 0; long live_elem_blocks = 0;
    std::vector<Violation> viol;
    uint64_t work = 0, deaths = 0, srcwork = 0, ptrwork = 0;   // cost of the running call: constructions+assignments, destructions, source/compare, pointer steps
    uint32_t extra_tags = 0;                      // added to every violation
    bool fatal = false;                           // memory-model violation: state no longer trustworthy
    void (*yield)(int) = nullptr;                 // fiber scheduler hook
};
extern State S;

void begin_run();                                  // resets arena and State (keeps cumulative fault counters)
void scrub(void* p, size_t n);                      // memory about to hold a buffer: garbage, the same in every run
void violate(uint32_t tags, const char* kind, const std::string& detail = "", bool fatal = false);
void tracef(const char* fmt, ...);

inline void mix(uint64_t v) { S.hash = (S.hash ^ v) * 0x100000001B3ull; S.hash ^= S.hash >> 29; }

// an event in library code; may throw the armed fault
void event(int kind, bool may_throw, uint64_t info);
inline void tick(uint64_t info) { if (S.lib) { event(-1, false, info); } }

struct Core { Core() { ++S.core; } ~Core() { --S.core; } };
struct Lib { Lib() { ++S.lib; } ~Lib() { --S.lib; } };
struct NoLib { int l; NoLib() : l(S.lib) { S.lib = 0; } ~NoLib() { S.lib = l; } };

// ------------------------------------------------------------------ arena
bool in_arena(const void* p);
uint32_t block_of(const void* p);                  // 0 = none
Block& block(uint32_t i);
uint32_t block_count();
void* arena_alloc(size_t n, size_t esz, int aid, bool elem);
void arena_free(void* p, size_t n, size_t esz, int aid);
void arena_final_check();                          // freed blocks untouched, guards intact
void mark_live(const void* p);                     // element lifetime shadow
bool is_live(const void* p);
void mark_dead(const void* p);
size_t slot_offset(const void* p);                 // deterministic name of an address (offset in arena), 0 outside
size_t arena_used();
void arena_protect(bool readonly);
void* arena_reserve(size_t n);                     // room for the containers themselves (shared memory)
std::ptrdiff_t arena_move();                       // the segment is mapped somewhere else from now on, its old addresses are gone
uint32_t lifetime_tags();

// ------------------------------------------------------------------ element kinds
struct ElemBase {
    long id; uint64_t chk;
    uint64_t good() const { return uint64_t(reinterpret_cast<uintptr_t>(this)) ^ 0x5AFEC0DE12345678ull; }
    void born(long v);
    void use(const char* what) const;              // must be live here
    void dies();
    static void note_move(const ElemBase* src);
};

enum Kind { K0, K1, K2, K3, K4, K5, K6, K7, K8 };
template <int K> struct Elem;

// what an element is made from: the items of a range need not be elements, converting them may fail like copying them
template <class E> struct Seed { long id; explicit Seed(long v) : id(v) {} };
template <> struct Seed<long> { long id; explicit Seed(long v) : id(v) {} operator long() const { event(F_CCTOR, true, 0x18); return id; } };
inline double as_double(long v);
template <> struct Seed<double> { long id; explicit Seed(long v) : id(v) {} operator double() const { event(F_CCTOR, true, 0x18); return as_double(id); } };
#define SIM_ELEM_COMMON(K) \
    struct H {}; \
    Elem(const Seed<Elem>& s) { event(F_CCTOR, true, 0x18); born(s.id); } \
    Elem() { event(F_DCTOR, true, 0x11); born(0); } \
    Elem(H, long v) { NoLib n; born(v); } \
    ~Elem() { dies(); }
#define SIM_COPY(K) \
    Elem(const Elem& o) : ElemBase() { o.use("copy-construct from"); event(F_CCTOR, true, 0x12); born(o.id); } \
    Elem& operator=(const Elem& o) { use("assign to"); o.use("assign from"); event(F_CASSIGN, true, 0x13); id = o.id; return *this; }
#define SIM_MCTOR(K, NE) \
    Elem(Elem&& o) noexcept(NE) : ElemBase() { o.use("move-construct from"); event(F_MCTOR, !NE, 0x14); note_move(&o); born(o.id); o.id = MOVED; }
#define SIM_MASSIGN(K, NE) \
    Elem& operator=(Elem&& o) noexcept(NE) { use("move-assign to"); o.use("move-assign from"); event(F_MASSIGN, !NE, 0x15); \
        if (this != &o) { note_move(&o); id = o.id; o.id = MOVED; } return *this; }

template <> struct Elem<K0> : ElemBase { SIM_ELEM_COMMON(K0) SIM_COPY(K0) };
template <> struct Elem<K1> : ElemBase { SIM_ELEM_COMMON(K1) SIM_COPY(K1) SIM_MCTOR(K1, true) SIM_MASSIGN(K1, true) };
template <> struct Elem<K2> : ElemBase { SIM_ELEM_COMMON(K2) SIM_COPY(K2) SIM_MCTOR(K2, false) SIM_MASSIGN(K2, false) };
template <> struct Elem<K3> : ElemBase { SIM_ELEM_COMMON(K3) SIM_MCTOR(K3, true) SIM_MASSIGN(K3, true) };
template <> struct Elem<K4> : ElemBase { SIM_ELEM_COMMON(K4) SIM_COPY(K4) SIM_MCTOR(K4, true) SIM_MASSIGN(K4, false) };
template <> struct Elem<K5> : ElemBase { SIM_ELEM_COMMON(K5) SIM_MCTOR(K5, false) SIM_MASSIGN(K5, false) };
template <> struct Elem<K7> : ElemBase { SIM_ELEM_COMMON(K7) SIM_COPY(K7) SIM_MCTOR(K7, false) SIM_MASSIGN(K7, true) };

inline long peek(const ElemBase& e) { return e.id; }
inline long peek(const long& v) { return v; }
inline double as_double(long v) { return v ? double(v) + 0.25 : 0.0; }          // never a whole number, so that no detour through one goes unnoticed
inline long peek(const double& v) { const long l = long(v); return as_double(l) == v ? l : l ^ 0x40000000; }
template <int K> bool operator==(const Elem<K>& a, const Elem<K>& b) { a.use("compare"); b.use("compare"); event(F_CMP, true, 0x16); return a.id == b.id; }
template <int K> bool operator<(const Elem<K>& a, const Elem<K>& b) { a.use("compare"); b.use("compare"); event(F_CMP, true, 0x17); return a.id < b.id; }

template <class E> E make(long v) { return E(typename E::H(), v); }
template <> inline long make<long>(long v) { return v; }
template <> inline double make<double>(long v) { return as_double(v); }

template <int K> struct KindOf { typedef Elem<K> type; };
template <> struct KindOf<K6> { typedef long type; };
template <> struct KindOf<K8> { typedef double type; };

// ------------------------------------------------------------------ fancy pointer (deref checked)
void fancy_check(const void* p, size_t sz);
template <class T> struct FP {
    typedef T element_type; typedef typename std::remove_cv<T>::type value_type;
    typedef std::ptrdiff_t difference_type; typedef typename std::add_lvalue_reference<T>::type reference;
    typedef FP pointer; typedef std::random_access_iterator_tag iterator_category;
    template <class U> using rebind = FP<U>;
    T* p;
    FP(T* q = nullptr) : p(q) {}
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value && !std::is_same<U, T>::value>::type>
    FP(const FP<U>& o) : p(o.p) {}
    template <class U = T, class = typename std::enable_if<!std::is_void<U>::value>::type>
    static FP pointer_to(U& r) { return FP(std::addressof(r)); }
    static void w() { if (S.lib) ++S.ptrwork; }
    reference operator*() const { w(); fancy_check(p, sizeof(T)); return *p; }
    T* operator->() const { return p; }
    reference operator[](difference_type n) const { fancy_check(p + n, sizeof(T)); return p[n]; }
    explicit operator bool() const { return p != nullptr; }
    FP& operator++() { w(); ++p; return *this; }
    FP operator++(int) { w(); FP t = *this; ++p; return t; }
    FP& operator--() { w(); --p; return *this; }
    FP operator--(int) { w(); FP t = *this; --p; return t; }
    FP& operator+=(difference_type n) { w(); p += n; return *this; }
    FP& operator-=(difference_type n) { w(); p -= n; return *this; }
    friend FP operator+(FP a, difference_type n) { w(); return FP(a.p + n); }
    friend FP operator+(difference_type n, FP a) { return FP(a.p + n); }
    friend FP operator-(FP a, difference_type n) { w(); return FP(a.p - n); }
};
template <class T, class U> std::ptrdiff_t operator-(const FP<T>& a, const FP<U>& b) { return a.p - b.p; }
#define SIM_FPCMP(op) \
    template <class T, class U> bool operator op(const FP<T>& a, const FP<U>& b) { return a.p op b.p; } \
    template <class T> bool operator op(const FP<T>& a, std::nullptr_t) { return a.p op (T*)nullptr; } \
    template <class T> bool operator op(std::nullptr_t, const FP<T>& a) { return (T*)nullptr op a.p; }
SIM_FPCMP(==) SIM_FPCMP(!=) SIM_FPCMP(<) SIM_FPCMP(>) SIM_FPCMP(<=) SIM_FPCMP(>=)
template <class T> bool operator==(const FP<T>& a, int) { return a.p == nullptr; }
template <class T> bool operator!=(const FP<T>& a, int) { return a.p != nullptr; }

// ------------------------------------------------------------------ pointer into shared memory: relative to the segment, and an object of its own
uintptr_t place_name(const void* p); void* place_at(uintptr_t name); void bytewise_pointer();
template <class T> struct SP {
    typedef T element_type; typedef typename std::remove_cv<T>::type value_type;
    typedef std::ptrdiff_t difference_type; typedef typename std::add_lvalue_reference<T>::type reference;
    typedef SP pointer; typedef std::random_access_iterator_tag iterator_category;
    template <class U> using rebind = SP<U>;
    uintptr_t v, me;
    T* get() const { if (S.lib && me != place_name(this)) bytewise_pointer(); return static_cast<T*>(place_at(v)); }
    SP(T* q = nullptr) : v(place_name(q)), me(place_name(this)) {}
    SP(const SP& o) : v(place_name(o.get())), me(place_name(this)) {}
    SP& operator=(const SP& o) { v = place_name(o.get()); me = place_name(this); return *this; }
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value && !std::is_same<U, T>::value>::type>
    SP(const SP<U>& o) : v(place_name(static_cast<T*>(o.get()))), me(place_name(this)) {}
    template <class U = T, class = typename std::enable_if<!std::is_void<U>::value>::type>
    static SP pointer_to(U& r) { return SP(std::addressof(r)); }
    static void w() { if (S.lib) ++S.ptrwork; }
    reference operator*() const { w(); fancy_check(get(), sizeof(T)); return *get(); }
    T* operator->() const { return get(); }
    reference operator[](difference_type n) const { fancy_check(get() + n, sizeof(T)); return get()[n]; }
    explicit operator bool() const { return v != 0; }
    SP& operator+=(difference_type n) { w(); v = place_name(get() + n); return *this; }
    SP& operator-=(difference_type n) { return *this += -n; }
    SP& operator++() { return *this += 1; }
    SP operator++(int) { SP t = *this; *this += 1; return t; }
    SP& operator--() { return *this += -1; }
    SP operator--(int) { SP t = *this; *this += -1; return t; }
    friend SP operator+(const SP& a, difference_type n) { w(); return SP(a.get() + n); }
    friend SP operator+(difference_type n, const SP& a) { return SP(a.get() + n); }
    friend SP operator-(const SP& a, difference_type n) { w(); return SP(a.get() - n); }
};
template <class T, class U> std::ptrdiff_t operator-(const SP<T>& a, const SP<U>& b) { return a.get() - b.get(); }
#define SIM_SPCMP(op) \
    template <class T, class U> bool operator op(const SP<T>& a, const SP<U>& b) { return a.get() op b.get(); } \
    template <class T> bool operator op(const SP<T>& a, std::nullptr_t) { return a.get() op (T*)nullptr; } \
    template <class T> bool operator op(std::nullptr_t, const SP<T>& a) { return (T*)nullptr op a.get(); }
SIM_SPCMP(==) SIM_SPCMP(!=) SIM_SPCMP(<) SIM_SPCMP(>) SIM_SPCMP(<=) SIM_SPCMP(>=)
template <class T> bool operator==(const SP<T>& a, int) { return a.v == 0; }
template <class T> bool operator!=(const SP<T>& a, int) { return a.v != 0; }

template <class T> T* raw(T* p) { return p; }
template <class T> T* raw(const FP<T>& p) { return p.p; }
template <class T> T* raw(const SP<T>& p) { return p.get(); }

// ------------------------------------------------------------------ allocators
void on_construct(const void* p, int aid); void on_constructed();
void on_destroy(const void* p, int aid); void on_destroyed();
template <class T> struct is_elem : std::integral_constant<bool, std::is_base_of<ElemBase, T>::value || std::is_same<T, long>::value || std::is_same<T, double>::value> {};

template <class Self, class T, class Size = std::size_t, class Diff = std::ptrdiff_t> struct AllocOps {
    typedef T value_type; typedef Size size_type; typedef Diff difference_type;
    template <class U, class... A> void construct(U* p, A&&... a) {
        struct G { const void* o; ~G() { S.constructing = o; } } g{S.constructing};
        on_construct(p, static_cast<const Self*>(this)->ident());
        if (S.lib && in_arena(p)) S.constructing = p;
        ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    }
    template <class U> void destroy(U* p) {
        struct G { const void* o; ~G() { S.destroying = o; } } g{S.destroying};
        on_destroy(p, static_cast<const Self*>(this)->ident());
        if (S.lib && in_arena(p)) S.destroying = p;
        p->~U();
    }
    size_type max_size() const { return size_type(std::min<std::size_t>(is_elem<T>::value ? S.max_elems : (std::size_t(1) << 40) / sizeof(T), std::size_t(size_type(-1)))); }
};
template <class T> struct RawAlloc : AllocOps<RawAlloc<T>, T> {
    typedef T* pointer; typedef const T* const_pointer;
    template <class U> struct rebind { typedef RawAlloc<U> other; };
    int id;
    RawAlloc() : id(0) {}
    explicit RawAlloc(int i) : id(i) {}
    template <class U> RawAlloc(const RawAlloc<U>& o) : id(o.id) {}
    int ident() const { return id; }
    T* allocate(std::size_t n) { return static_cast<T*>(arena_alloc(n, sizeof(T), id, is_elem<T>::value)); }
    void deallocate(T* p, std::size_t n) { arena_free(p, n, sizeof(T), id); }
    template <class U> bool operator==(const RawAlloc<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const RawAlloc<U>& o) const { return id != o.id; }
};
// sizes of eight bits: every limit of the size arithmetic is within reach
template <class T> struct TinyAlloc : AllocOps<TinyAlloc<T>, T, unsigned char, signed char> {
    typedef T* pointer; typedef const T* const_pointer;
    template <class U> struct rebind { typedef TinyAlloc<U> other; };
    int id;                                          // not default constructible either
    explicit TinyAlloc(int i) : id(i) {}
    template <class U> TinyAlloc(const TinyAlloc<U>& o) : id(o.id) {}
    int ident() const { return id; }
    T* allocate(std::size_t n) { return static_cast<T*>(arena_alloc(n, sizeof(T), id, is_elem<T>::value)); }
    void deallocate(T* p, std::size_t n) { arena_free(p, n, sizeof(T), id); }
    template <class U> bool operator==(const TinyAlloc<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const TinyAlloc<U>& o) const { return id != o.id; }
};
template <class T> struct FancyAlloc : AllocOps<FancyAlloc<T>, T> {
    typedef FP<T> pointer; typedef FP<const T> const_pointer;
    template <class U> struct rebind { typedef FancyAlloc<U> other; };
    int id;
                                                     // not default constructible: the requirements do not ask for it
    explicit FancyAlloc(int i) : id(i) {}
    template <class U> FancyAlloc(const FancyAlloc<U>& o) : id(o.id) {}
    int ident() const { return id; }
    FP<T> allocate(std::size_t n) { return FP<T>(static_cast<T*>(arena_alloc(n, sizeof(T), id, is_elem<T>::value))); }
    void deallocate(FP<T> p, std::size_t n) { arena_free(p.p, n, sizeof(T), id); }
    template <class U> bool operator==(const FancyAlloc<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const FancyAlloc<U>& o) const { return id != o.id; }
};
template <class T> struct ShmAlloc : AllocOps<ShmAlloc<T>, T> {
    typedef SP<T> pointer; typedef SP<const T> const_pointer;
    template <class U> struct rebind { typedef ShmAlloc<U> other; };
    int id;
                                                     // (as above)
    explicit ShmAlloc(int i) : id(i) {}
    template <class U> ShmAlloc(const ShmAlloc<U>& o) : id(o.id) {}
    int ident() const { return id; }
    SP<T> allocate(std::size_t n) { return SP<T>(static_cast<T*>(arena_alloc(n, sizeof(T), id, is_elem<T>::value))); }
    void deallocate(SP<T> p, std::size_t n) { arena_free(p.get(), n, sizeof(T), id); }
    template <class U> bool operator==(const ShmAlloc<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const ShmAlloc<U>& o) const { return id != o.id; }
};
template <class T> struct NilAlloc : AllocOps<NilAlloc<T>, T> {   // stateless
    typedef T* pointer; typedef const T* const_pointer;
    template <class U> struct rebind { typedef NilAlloc<U> other; };
    NilAlloc() = default;
    explicit NilAlloc(int) {}
    template <class U> NilAlloc(const NilAlloc<U>&) {}
    int ident() const { return 0; }
    T* allocate(std::size_t n) { return static_cast<T*>(arena_alloc(n, sizeof(T), 0, is_elem<T>::value)); }
    void deallocate(T* p, std::size_t n) { arena_free(p, n, sizeof(T), 0); }
    template <class U> bool operator==(const NilAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const NilAlloc<U>&) const { return false; }
};

// ------------------------------------------------------------------ caller's ranges
// stash: as with istream_iterator an item lives in the iterator only until it is advanced
template <class E> struct Source { std::vector<E> items; size_t next = 0; bool past_end = false; bool stash = false; std::deque<E> kept; };
inline void spoil(ElemBase& e) { e.id = -424242; }
inline void spoil(long& v) { v = -424242; }
inline void spoil(double& v) { v = -424242; }
template <class E> void spoil(Seed<E>& v) { v.id = -424242; }

// iterators of facade libraries have a category of their own that derives from the standard one
template <class Cat> struct OwnCategory : Cat {};
template <class E, class Cat> struct CategoryOf { typedef Cat type; };
template <class Cat> struct CategoryOf<Elem<K1>, Cat> { typedef OwnCategory<Cat> type; };
template <class Cat> struct CategoryOf<Elem<K4>, Cat> { typedef OwnCategory<Cat> type; };

// copying an iterator may fail, too (it is not counted as a read of the source)
inline void src_copied() { const uint64_t w = S.srcwork; event(F_ITER, true, 0x29); S.srcwork = w; }

enum { COPY = 0, MOVE = 1, VALUE = 2 };                        // what reading gives: the item, the item to be moved from, a new one
template <class E, class V> struct Given { static V of(const V& v) { return v; } };
template <class E> struct Given<E, E> { static E of(const E& v) { return make<E>(peek(v)); } };
template <class E, class V, class Cat, int Move> struct SrcIter {      // multi-pass categories
    typedef typename CategoryOf<E, Cat>::type iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type;
    typedef typename std::conditional<Move == MOVE, V&&, const V&>::type reference; typedef const V* pointer;
    V* p;
    explicit SrcIter(V* q = nullptr) : p(q) {}
    SrcIter(const SrcIter& o) : p(o.p) { src_copied(); }
    SrcIter& operator=(const SrcIter& o) { src_copied(); p = o.p; return *this; }
    reference operator*() const { event(F_ITER, true, 0x21); return static_cast<reference>(*p); }
    pointer operator->() const { return p; }
    SrcIter& operator++() { event(F_ITER, true, 0x22); ++p; return *this; }
    SrcIter operator++(int) { SrcIter t = *this; ++*this; return t; }
    SrcIter& operator--() { event(F_ITER, true, 0x23); --p; return *this; }
    SrcIter operator--(int) { SrcIter t = *this; --*this; return t; }
    SrcIter& operator+=(difference_type n) { event(F_ITER, true, 0x24); p += n; return *this; }
    SrcIter& operator-=(difference_type n) { event(F_ITER, true, 0x25); p -= n; return *this; }
    friend SrcIter operator+(SrcIter a, difference_type n) { a += n; return a; }
    friend SrcIter operator-(SrcIter a, difference_type n) { a -= n; return a; }
    friend difference_type operator-(const SrcIter& a, const SrcIter& b) { return a.p - b.p; }
    reference operator[](difference_type n) const { return *(*this + n); }
    friend bool operator==(const SrcIter& a, const SrcIter& b) { event(F_ITER, true, 0x2a); return a.p == b.p; }
    friend bool operator!=(const SrcIter& a, const SrcIter& b) { event(F_ITER, true, 0x2a); return a.p != b.p; }
    friend bool operator<(const SrcIter& a, const SrcIter& b) { return a.p < b.p; }
    friend bool operator>(const SrcIter& a, const SrcIter& b) { return a.p > b.p; }
    friend bool operator<=(const SrcIter& a, const SrcIter& b) { return a.p <= b.p; }
    friend bool operator>=(const SrcIter& a, const SrcIter& b) { return a.p >= b.p; }
};
// a computed sequence of any length (its items repeat): only its length is vast, nobody can visit all of it
template <class E> struct VastIter {
    typedef std::random_access_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type;
    typedef const E& reference; typedef const E* pointer;
    const std::vector<E>* v; difference_type i;
    VastIter(const std::vector<E>* w = nullptr, difference_type j = 0) : v(w), i(j) {}
    static void step() { event(F_ITER, true, 0x2b); }
    reference operator*() const { step(); const difference_type n = difference_type(v->size()); return (*v)[size_t((i % n + n) % n)]; }
    pointer operator->() const { return &**this; }
    VastIter& operator++() { step(); ++i; return *this; }
    VastIter operator++(int) { VastIter t = *this; ++*this; return t; }
    VastIter& operator--() { step(); --i; return *this; }
    VastIter operator--(int) { VastIter t = *this; --*this; return t; }
    VastIter& operator+=(difference_type n) { step(); i += n; return *this; }
    VastIter& operator-=(difference_type n) { step(); i -= n; return *this; }
    friend VastIter operator+(VastIter a, difference_type n) { a += n; return a; }
    friend VastIter operator+(difference_type n, VastIter a) { a += n; return a; }
    friend VastIter operator-(VastIter a, difference_type n) { a -= n; return a; }
    friend difference_type operator-(const VastIter& a, const VastIter& b) { return a.i - b.i; }
    reference operator[](difference_type n) const { return *(*this + n); }
    friend bool operator==(const VastIter& a, const VastIter& b) { return a.i == b.i; }
    friend bool operator!=(const VastIter& a, const VastIter& b) { return a.i != b.i; }
    friend bool operator<(const VastIter& a, const VastIter& b) { return a.i < b.i; }
    friend bool operator>(const VastIter& a, const VastIter& b) { return a.i > b.i; }
    friend bool operator<=(const VastIter& a, const VastIter& b) { return a.i <= b.i; }
    friend bool operator>=(const VastIter& a, const VastIter& b) { return a.i >= b.i; }
};
// single-pass: behaves like an istream_iterator over a shared stream
template <class E, class V, int Move> struct SrcIter<E, V, std::input_iterator_tag, Move> {
    typedef typename CategoryOf<E, std::input_iterator_tag>::type iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type;
    typedef typename std::conditional<Move == VALUE, V, typename std::conditional<Move == MOVE, V&&, const V&>::type>::type reference; typedef const V* pointer;
    Source<V>* s; size_t cur;                                   // s == nullptr: end
    SrcIter() : s(nullptr), cur(0) {}
    SrcIter(const SrcIter& o) : s(o.s), cur(o.cur) { src_copied(); }
    SrcIter& operator=(const SrcIter& o) { src_copied(); s = o.s; cur = o.cur; return *this; }
    explicit SrcIter(Source<V>* src) : s(src), cur(0) { if (s->next < s->items.size()) cur = s->next++; else s = nullptr; }
    static reference give(V& v, std::true_type) { NoLib n; return Given<E, V>::of(v); }
    static reference give(V& v, std::false_type) { return static_cast<reference>(v); }
    static reference give(V& v) { return give(v, std::integral_constant<bool, Move == VALUE>()); }
    struct Proxy { V* p; reference operator*() const { event(F_ITER, true, 0x26); return give(*p); } };
    reference operator*() const { event(F_ITER, true, 0x27); return give(s->items[cur]); }
    pointer operator->() const { return &s->items[cur]; }
    SrcIter& operator++() {
        event(F_ITER, true, 0x28);
        if (!s) { violate(C20, "source-read-past-end"); return *this; }
        if (Move != MOVE && s->stash) spoil(s->items[cur]);
        if (s->next < s->items.size()) cur = s->next++; else s = nullptr;
        return *this;
    }
    Proxy operator++(int) {
        if (!s) { violate(C20, "source-read-past-end"); static V* none = nullptr; return Proxy{none}; }
        if (Move != MOVE && s->stash) { NoLib n; s->kept.push_back(Given<E, V>::of(s->items[cur])); }
        Proxy q{Move != MOVE && s->stash ? &s->kept.back() : &s->items[cur]}; ++*this; return q;
    }
    friend bool operator==(const SrcIter& a, const SrcIter& b) { event(F_ITER, true, 0x2a); return a.s == b.s && (!a.s || a.cur == b.cur); }
    friend bool operator!=(const SrcIter& a, const SrcIter& b) { return !(a == b); }
};

}  // namespace sim

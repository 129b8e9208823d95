#include "core.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

State S;
const char* const fault_names[F_NKINDS] = {"alloc", "default_ctor", "copy_ctor", "move_ctor", "copy_assign", "move_assign", "source_iterator", "compare"};

static char* const ARENA_AT = reinterpret_cast<char*>(0x610000000000ull);
static const size_t ARENA_SIZE = 64u << 20, GRAN = 8;
static char* g_base = nullptr;
static size_t g_used = 0;
static uint8_t* g_shadow = nullptr;      // per granule: 0 nothing, 2 live element starts here
static uint32_t* g_blk = nullptr;        // per granule: block index
static std::vector<Block> g_blocks;

static void arena_init() {
    if (g_base) return;
    void* p = mmap(ARENA_AT, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap arena"); _exit(77); }
    g_base = static_cast<char*>(p);
    g_shadow = static_cast<uint8_t*>(mmap(nullptr, ARENA_SIZE / GRAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_blk = static_cast<uint32_t*>(mmap(nullptr, ARENA_SIZE / GRAN * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
}
static void map_at(char* to) {
    if (g_base == to) return;
    if (mremap(g_base, ARENA_SIZE, ARENA_SIZE, MREMAP_MAYMOVE | MREMAP_FIXED, to) == MAP_FAILED) { perror("mremap arena"); _exit(77); }
    g_base = to;
}
void begin_run() {
    arena_init(); map_at(ARENA_AT);
    size_t g = (g_used + GRAN - 1) / GRAN;
    memset(g_shadow, 0, g); memset(g_blk, 0, g * 4);
    g_used = 64; g_blocks.clear(); g_blocks.push_back(Block{nullptr, 0, 0, 0, false, 0, 0, false, -1});
    State n;
    memcpy(n.fault_fired, S.fault_fired, sizeof n.fault_fired);
    n.trace = S.trace; n.yield = S.yield;
    S = n;
}
void* arena_reserve(size_t n) { g_used = (g_used + 63) / 64 * 64; void* p = g_base + g_used; g_used += (n + 63) / 64 * 64; return p; }
std::ptrdiff_t arena_move() {
    char* const to = g_base == ARENA_AT ? ARENA_AT + (std::ptrdiff_t(1) << 40) : ARENA_AT; const std::ptrdiff_t by = to - g_base;
    std::vector<ElemBase*> alive;
    for (Block& b : g_blocks) if (b.live && b.elem) for (uint32_t i = 0; i < b.n; ++i) if (is_live(b.p + size_t(i) * b.esz)) alive.push_back(reinterpret_cast<ElemBase*>(b.p + size_t(i) * b.esz));
    for (ElemBase* e : alive) e->chk ^= e->good();
    map_at(to);
    for (ElemBase* e : alive) { e = reinterpret_cast<ElemBase*>(reinterpret_cast<char*>(e) + by); e->chk ^= e->good(); }
    for (Block& b : g_blocks) if (b.p) b.p += by;
    return by;
}
uintptr_t place_name(const void* p) { return in_arena(p) ? uintptr_t(static_cast<const char*>(p) - g_base) | (uintptr_t(1) << 62) : reinterpret_cast<uintptr_t>(p); }
void* place_at(uintptr_t n) { return n >> 62 ? static_cast<void*>(g_base + (n ^ (uintptr_t(1) << 62))) : reinterpret_cast<void*>(n); }
void bytewise_pointer() { violate(lifetime_tags() | C11, "pointer-object-copied-bytewise", "", true); }
void scrub(void* p, size_t n) { memset(p, 0xA5, n); }
bool in_arena(const void* p) { const char* c = static_cast<const char*>(p); return c >= g_base && c < g_base + ARENA_SIZE; }
uint32_t block_of(const void* p) { return in_arena(p) ? g_blk[(static_cast<const char*>(p) - g_base) / GRAN] : 0; }
Block& block(uint32_t i) { return g_blocks[i]; }
uint32_t block_count() { return uint32_t(g_blocks.size()); }
size_t slot_offset(const void* p) { return in_arena(p) ? size_t(static_cast<const char*>(p) - g_base) : 0; }
size_t arena_used() { return g_used; }
void arena_protect(bool ro) {
    size_t len = (g_used + 4095) / 4096 * 4096;
    mprotect(g_base, len ? len : 4096, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

void tracef(const char* fmt, ...) {
    Core core_;
    if (!S.trace) return;
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fputc('\n', stdout); fflush(stdout);
}
void violate(uint32_t tags, const char* kind, const std::string& detail, bool fatal) {
    Core core_;
    if (fatal) S.fatal = true;
    if (S.viol.size() < 32) S.viol.push_back(Violation{kind, tags | S.extra_tags, S.step, detail});
    tracef("    !! %s tags=%x %s", kind, tags, detail.c_str());
}
// What a memory/lifetime error decides: always C10 (elements) — the caller adds C11 — and, because what follows is
// undefined, the property of the operation in which it happened (C08 when a failure was being handled).
uint32_t lifetime_tags() { return C10 | (S.fired ? C08 | S.fault_tags : S.step_tags); }

void event(int kind, bool may_throw, uint64_t info) {
    if (!S.lib) return;
    Core core_;
    ++S.events; ++S.step_events;
    if (kind >= F_DCTOR && kind <= F_MASSIGN) ++S.work; else if (kind == F_ITER || kind == F_CMP) ++S.srcwork; else if (info == 0x18) ++S.deaths;
    mix(info + 0x1000 * uint64_t(kind + 2));
    if (S.step_events > S.event_budget) { fprintf(stderr, "no progress\n"); _exit(66); }
    if (S.yield) S.yield(kind);
    if (kind >= 0 && may_throw && (S.arm & fbit(kind))) {
        ++S.ordinal;
        bool fire = false;
        if (S.fired) fire = S.sticky;
        else if (S.countdown > 0 && --S.countdown == 0) fire = true;
        if (fire) {
            S.fired = true; S.fired_kind = kind; ++S.fired_count; ++S.fault_fired[kind];
            uint64_t ser = ++S.serial;
            if (S.fired_count == 1) S.first_serial = ser;
            mix(0xFA17 + kind);
            tracef("    -- fault %s fires (eligible event %d)", fault_names[kind], S.ordinal);
            if (kind == F_ALLOC) throw SimBadAlloc(ser);
            throw SimFault{kind, ser};
        }
    }
}

// ------------------------------------------------------------------ arena blocks
void* arena_alloc(size_t n, size_t esz, int aid, bool elem) {
    Core core_;
    event(F_ALLOC, true, 0x31 + n * 64);
    const size_t guard = 32;
    if (n > (ARENA_SIZE / 2) / esz) { S.exhausted = true; throw SimBadAlloc(0); }
    size_t bytes = (n * esz + 15) / 16 * 16;
    if (g_used + bytes + 2 * guard > ARENA_SIZE) { S.exhausted = true; throw SimBadAlloc(0); }
    char* p = g_base + g_used;
    memset(p, 0xAB, guard); memset(p + guard, 0xCD, bytes); memset(p + guard + bytes, 0xAB, guard);
    g_used += bytes + 2 * guard;
    uint32_t idx = uint32_t(g_blocks.size());
    g_blocks.push_back(Block{p + guard, uint32_t(n), uint32_t(esz), aid, true, idx, uint32_t(bytes), elem, S.tid});
    for (size_t g = (p + guard - g_base) / GRAN, e = g + (bytes ? bytes / GRAN : 0); g < e; ++g) g_blk[g] = idx;
    ++S.allocs; ++S.live_blocks; if (elem) ++S.live_elem_blocks;
    tracef("    alloc #%u n=%zu esz=%zu aid=%d", idx, n, esz, aid);
    return p + guard;
}
static bool guards_ok(const Block& b) {
    for (int i = 0; i < 32; ++i) if (uint8_t(b.p[-1 - i]) != 0xAB || uint8_t(b.p[b.bytes + i]) != 0xAB) return false;
    for (uint32_t i = b.n * b.esz; i < b.bytes; ++i) { uint8_t c = uint8_t(b.p[i]); if (c != 0xCD && c != 0xDD) return false; }
    return true;
}
void arena_free(void* p, size_t n, size_t esz, int aid) {
    Core core_;
    tick(0x32 + n * 64);
    uint32_t bi = block_of(p);
    tracef("    free  #%u n=%zu aid=%d", bi, n, aid);
    uint32_t t = C11 | (S.fired ? C08 | C09 : 0);
    if (!bi || g_blocks[bi].p != p) {
        // zero-sized blocks have no granule of their own: search
        for (uint32_t i = 1; i < g_blocks.size(); ++i) if (g_blocks[i].p == p) bi = i;
        if (!bi || g_blocks[bi].p != p) { violate(t, "deallocate-unknown-pointer", "", true); return; }
    }
    Block& b = g_blocks[bi];
    if (!b.live) { violate(t, "double-deallocate", "block #" + std::to_string(bi), true); return; }
    if (b.n != n) violate(t, "deallocate-wrong-count", "allocated n=" + std::to_string(b.n) + " returned n=" + std::to_string(n));
    if (b.aid != aid) violate(t, "deallocate-to-unequal-allocator", "block of allocator " + std::to_string(b.aid) + " returned to " + std::to_string(aid));
    if (b.elem) for (uint32_t i = 0; i < b.n; ++i) if (is_live(b.p + size_t(i) * b.esz)) {
        violate(lifetime_tags(), "storage-released-with-live-element", "slot " + std::to_string(i) + " of block #" + std::to_string(bi), true); break; }
    if (!guards_ok(b)) violate(lifetime_tags() | C11, "write-outside-storage", "block #" + std::to_string(bi), true);
    b.live = false; --S.live_blocks; ++S.frees; if (b.elem) --S.live_elem_blocks;
    memset(b.p, 0xDD, b.bytes);
}
void arena_final_check() {
    for (uint32_t i = 1; i < g_blocks.size(); ++i) {
        Block& b = g_blocks[i];
        if (!guards_ok(b)) { violate(C10 | C11, "write-outside-storage", "block #" + std::to_string(i), true); continue; }
        if (!b.live) for (uint32_t k = 0; k < b.bytes; ++k) if (uint8_t(b.p[k]) != 0xDD) { violate(C10 | C11, "write-after-free", "block #" + std::to_string(i), true); break; }
    }
}
void mark_live(const void* p) { g_shadow[(static_cast<const char*>(p) - g_base) / GRAN] = 2; }
void mark_dead(const void* p) { g_shadow[(static_cast<const char*>(p) - g_base) / GRAN] = 0; }
bool is_live(const void* p) { return in_arena(p) && g_shadow[(static_cast<const char*>(p) - g_base) / GRAN] == 2; }

// ------------------------------------------------------------------ elements
void ElemBase::born(long v) {
    Core core_;
    if (in_arena(this)) {
        uint32_t bi = block_of(this);
        if (!bi || !g_blocks[bi].live) violate(lifetime_tags() | C11, "construct-outside-storage", "", true);
        else if ((reinterpret_cast<const char*>(this) - g_blocks[bi].p) % g_blocks[bi].esz) violate(lifetime_tags(), "construct-misplaced", "", true);
        if (is_live(this)) violate(lifetime_tags(), "construct-over-live-element", "id " + std::to_string(id) + " overwritten by construction of " + std::to_string(v), true);
        else ++S.live_arena;
        if (S.lib && S.constructing != this) violate(C11, "constructed-bypassing-allocator");
        mark_live(this);
    } else ++S.live_other;
    id = v; chk = good();
}
void ElemBase::use(const char* what) const {
    if (!S.lib) return;
    Core core_;
    if (in_arena(this)) {
        if (!is_live(this)) { violate(lifetime_tags(), "element-used-outside-lifetime", std::string(what) + " a slot holding no live element", true); return; }
    }
    if (chk != good()) violate(lifetime_tags(), "element-bytes-invalid", std::string(what) + " an object that was never constructed here", true);
}
void ElemBase::dies() {
    Core core_;
    tick(0x18);
    if (in_arena(this)) {
        if (!is_live(this)) { violate(lifetime_tags(), "destroy-of-dead-element", "", true); return; }
        if (chk != good()) violate(lifetime_tags(), "element-bytes-invalid", "destroying an element that was relocated bytewise", true);
        if (S.lib && S.destroying != this) violate(C11, "destroyed-bypassing-allocator");
        mark_dead(this); --S.live_arena;
    } else {
        if (chk != good()) { violate(lifetime_tags(), "destroy-of-dead-element", "object outside storage", true); return; }
        --S.live_other;
    }
    id = DEADID; chk = 0xDEADDEADDEADull;
}
void ElemBase::note_move(const ElemBase* src) {
    Core core_;
    if (!S.lib || S.stored_blocks.empty()) return;
    uint32_t bi = block_of(src);
    if (!bi) return;
    for (uint32_t b : S.stored_blocks) if (b == bi) { ++S.moved_from_stored; return; }
}
void on_construct(const void* p, int aid) {
    Core core_;
    if (!S.lib) return;
    uint32_t bi = block_of(p);
    if (!bi) return;
    if (g_blocks[bi].aid != aid) violate(C11, "constructed-through-unequal-allocator", "block of " + std::to_string(g_blocks[bi].aid) + ", allocator " + std::to_string(aid));
}
void on_destroy(const void* p, int aid) {
    Core core_;
    if (!S.lib) return;
    uint32_t bi = block_of(p);
    if (!bi) return;
    if (g_blocks[bi].aid != aid) violate(C11, "destroyed-through-unequal-allocator", "block of " + std::to_string(g_blocks[bi].aid) + ", allocator " + std::to_string(aid));
}
void fancy_check(const void* p, size_t) {
    Core core_;
    if (!S.lib) return;
    if (S.yield) S.yield(-1);
    if (!in_arena(p)) return;
    uint32_t bi = block_of(p);
    if (!bi || !g_blocks[bi].live) violate(lifetime_tags() | C11, "pointer-dereferenced-outside-live-storage", "", true);
}

}  // namespace sim

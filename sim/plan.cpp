// Names, plan text format and the seeded generator.
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <map>

namespace sim {

const char* const op_names[OP_COUNT] = {
    "push_back(const&)", "push_back(&&)", "push_back()", "push_front(const&)", "push_front(&&)", "push_front()", "pop_back", "pop_front",
    "insert(pos,const&)", "insert(pos,&&)", "insert(pos)", "insert(pos,n,item)", "insert(pos,range)",
    "rinsert(pos,const&)", "rinsert(pos,&&)", "rinsert(pos)", "rinsert(pos,n,item)", "rinsert(pos,range)",
    "erase(pos)", "erase(range)", "rerase(pos)", "rerase(range)", "erase_begin", "erase_end", "clear",
    "set_capacity", "rset_capacity", "resize(n)", "resize(n,item)", "rresize(n)", "rresize(n,item)",
    "ctor()", "ctor(cap)", "ctor(n,item)", "ctor(cap,n,item)", "ctor(range)", "ctor(cap,range)", "ctor(copy)", "ctor(move)",
    "operator=(const&)", "operator=(&&)", "assign(n,item)", "assign(cap,n,item)", "assign(range)", "assign(cap,range)", "swap", "swap(free)",
    "linearize", "rotate", "write", "at(out_of_range)", "compare", "iterator_walk", "std_algorithm", "map_elsewhere", "many pushes and pops", "observe",
    "schedule", "bounded push", "bounded pop", "misuse", "keep iterators"};
const char* const probe_names[PR_COUNT] = {
    "wrapped_storage_seen", "full_buffer_seen", "empty_with_shifted_origin", "push_overwrote", "insert_clipped", "linearize_wrapped", "rotate_left",
    "rotate_right", "rotate_full", "strong_op_failed", "ctor_failed", "basic_op_failed", "moved_from_residue", "nothrow_op_armed", "length_error",
    "so_grow", "so_shrink", "second_fault_in_history", "swap_unequal_allocators", "single_pass_range", "huge_count", "self_assign_or_swap", "spurious_wakeup", "misuse_reported",
    "op_ok_after_fault", "cost_judged", "single_pass_insert_above_linear", "own_element_as_argument", "range_of_list_iterators", "range_of_buffer_iterators", "range_of_convertible_items", "range_of_vast_length", "long_churn"};
Coverage COV;
std::vector<World> worlds;
void register_world(int id, const World& w) { if (int(worlds.size()) <= id) worlds.resize(id + 1, World{nullptr, false, 0, nullptr, nullptr, nullptr, false, nullptr, 1}); worlds[id] = w; }

std::string Plan::text() const {
    std::ostringstream o;
    o << "plan 1\nproperty " << prop << "\nworld " << world << "\nseed " << seed << "\nmax_elems " << max_elems << "\n";
    for (int i = 0; i < 3; ++i) o << "buffer " << i << " cap " << caps[i] << " min " << mins[i] << " rot " << rot[i] << " fill " << fill[i] << "\n";
    for (const Step& s : steps)
        o << "step " << int(s.op) << " c " << int(s.c) << " d " << int(s.d) << " x " << s.x << " y " << s.y << " z " << s.z << " mode " << int(s.mode)
          << " mask " << s.mask << " count " << s.count << " sticky " << int(s.sticky) << " # " << op_names[s.op] << "\n";
    o << "end\n";
    return o.str();
}
bool Plan::parse(const std::string& t) {
    std::istringstream in(t); std::string line; bool ended = false;
    steps.clear();
    while (std::getline(in, line)) {
        std::istringstream l(line.substr(0, line.find('#'))); std::string w; if (!(l >> w)) continue;
        if (w == "plan") { int v; if (!(l >> v) || v != 1) return false; }
        else if (w == "property") l >> prop;
        else if (w == "world") l >> world;
        else if (w == "seed") l >> seed;
        else if (w == "max_elems") l >> max_elems;
        else if (w == "buffer") { int i; std::string k; l >> i; if (i < 0 || i > 2) return false; l >> k >> caps[i] >> k >> mins[i] >> k >> rot[i] >> k >> fill[i]; }
        else if (w == "step") {
            Step s; int op, c, d, mode, st; std::string k;
            l >> op >> k >> c >> k >> d >> k >> s.x >> k >> s.y >> k >> s.z >> k >> mode >> k >> s.mask >> k >> s.count >> k >> st;
            if (!l || op < 0 || op >= OP_COUNT) return false;
            s.op = uint8_t(op); s.c = uint8_t(c); s.d = uint8_t(d); s.mode = uint8_t(mode); s.sticky = uint8_t(st); steps.push_back(s);
        } else if (w == "end") { ended = true; break; }
    }
    return ended && world >= 0;
}

// ------------------------------------------------------------------ generator
static const uint8_t ALL[] = {255};
struct Profile { std::vector<int> ops; int faultfree_pct; int fault_pct; int nothrow_pct; int focus_pct; };

static std::vector<int> range(int a, int b) { std::vector<int> v; for (int i = a; i <= b; ++i) v.push_back(i); return v; }
static std::vector<int> cat(std::vector<int> a, const std::vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static Profile profile(int p) {
    const std::vector<int> all = range(0, OBSERVE);
    switch (p) {
    case 1: return {cat(range(PUSH_BACK_C, POP_FRONT), {CHURN}), 50, 15, 0, 60};
    case 2: return {range(INS_C, RINS_RANGE), 50, 15, 0, 55};
    case 3: return {range(ERASE, CLEAR), 50, 15, 0, 50};
    case 4: return {range(SETCAP, RRESIZE_V), 50, 15, 0, 55};
    case 5: return {range(CT_DEFAULT, SWAP_FREE), 50, 15, 0, 60};
    case 6: return {{LINEARIZE, ROTATE, LINEARIZE, ROTATE, WRITE}, 50, 15, 0, 45};
    case 7: return {range(WRITE, OBSERVE), 50, 12, 0, 40};
    case 8: return {cat(range(0, ROTATE), {}), 0, 45, 0, 80};
    case 9: return {cat(cat(range(CT_DEFAULT, CT_MOVE), {SETCAP, RSETCAP, SETCAP, RSETCAP, SETCAP, RSETCAP, AS_COPY, AS_COPY, AS_COPY}), {}), 0, 55, 0, 60};
    case 10: return {cat(range(0, ROTATE), {}), 30, 30, 0, 80};
    case 11: return {cat(range(CT_DEFAULT, SWAP_FREE), cat(range(SETCAP, RRESIZE_V), cat(range(INS_C, RINS_RANGE), {REMAP, REMAP}))), 30, 30, 0, 70};
    case 12: return {all, 20, 10, 60, 70};
    case 13: return {cat(cat(range(INS_C, RRESIZE_V), {LINEARIZE, ROTATE, LINEARIZE, ROTATE}), range(PUSH_BACK_C, POP_FRONT)), 10, 45, 0, 70};
    case 14: return {all, 60, 8, 0, 70};
    case 16: return {all, 40, 15, 0, 70};
    case 17: return {cat(cat(cat(range(0, POP_FRONT), range(ERASE, RRESIZE_V)), range(INS_C, RINS_RANGE)), range(CT_DEFAULT, AS_CAPRANGE)), 40, 15, 0, 80};
    case 21: return {all, 85, 10, 0, 75};
    case 20: return {{INS_RANGE, RINS_RANGE, CT_RANGE, CT_CAPRANGE, AS_RANGE, AS_CAPRANGE, INS_RANGE, RINS_RANGE}, 40, 25, 0, 60};
    default: return {all, 30, 20, 5, 50};
    }
}
static std::vector<int> world_set(int p) {
    std::vector<int> v; 
    for (int i = 0; i < int(worlds.size()); ++i) {
        if (!worlds[i].run) continue;
        const World& w = worlds[i];
        if ((p == 16 || p == 17) && !w.cbso) continue;
        if (p == 13 && !(w.kind == K2 || w.kind == K0 || w.kind == K4 || w.kind == K7)) continue;
        if (p == 10 && (w.kind == K6 || w.kind == K8)) continue;
        if (p == 21 && (w.kind == K6 || w.kind == K8) && strcmp(w.alloc, "FancyAlloc") != 0) continue;   // nothing to count

        bool any = w.gen != nullptr; for (int o : profile(p).ops) if (w.supports(o)) any = true;
        if (!any) continue;
        int wt = w.weight;
        if (p == 13 && (w.kind == K2 || w.kind == K7)) wt = 4;
        if (p == 12 && !w.cbso) wt = 2;
        if ((p == 11 || p == 21) && strcmp(w.alloc, "FancyAlloc") == 0) wt = 2;
        if (p == 11 && strcmp(w.alloc, "ShmAlloc") == 0) wt = 2;
        if (p == 21 && w.kind == K6) wt = 4;
        for (int k = 0; k < wt; ++k) v.push_back(i);
    }
    return v;
}

uint64_t plan_seed(uint64_t base, int prop, uint64_t i) { Rng r(base * 1000003 + uint64_t(prop) * 7919); uint64_t a = r.next(); Rng q(a ^ (i * 0xD6E8FEB86659FD93ull)); return q.next(); }

static const Profile& profile_of(int prop) { static std::map<int, Profile> pf; auto i = pf.find(prop); if (i == pf.end()) i = pf.emplace(prop, profile(prop)).first; return i->second; }
Plan generate(int prop, uint64_t seed) {
    static std::map<int, std::vector<int>> ws;
    if (!ws.count(prop)) ws[prop] = world_set(prop);
    const std::vector<int>& W = ws[prop];
    Rng r(seed); int w = W[r.below(uint32_t(W.size()))];
    if (worlds[w].gen) return worlds[w].gen(w, prop, seed);
    return generate_for(w, prop, seed);
}
Plan generate_for(int world, int prop, uint64_t seed) {
    const Profile& F = profile_of(prop);
    Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.world = world; r.next();
    const World& w = worlds[p.world];
    static const uint32_t scales[] = {5, 5, 13, 13, 13, 34, 100};
    const bool vast = p.world < 20 && r.chance(1, 400) && strcmp(w.alloc, "TinyAlloc") != 0;   // beyond the limits of 10, 12 and 16 bits
    uint32_t scale = scales[r.below(7)]; if (prop == 21 && scale < 34) scale *= 5;   // costs need sizes to show
    bool large = r.chance(1, 120) && strcmp(w.alloc, "TinyAlloc"); if (large) scale = 900;
    for (int i = 0; i < 3; ++i) {
        p.caps[i] = r.chance(1, 12) ? 0 : r.below(scale);
        p.mins[i] = r.chance(1, 2) ? 0 : r.below(p.caps[i] + 1);
        p.rot[i] = r.next() & 0xffff; p.fill[i] = r.chance(1, 3) ? p.caps[i] : uint32_t(r.next() & 0xffff);
        if (r.chance(1, 8)) p.fill[i] = 0;
    }
    if (!w.cbso && r.chance(1, 4)) p.max_elems = 8 + r.below(70);
    if (!strcmp(w.alloc, "TinyAlloc")) {                                // every size near the limits of eight bits
        if (p.max_elems > 127) p.max_elems = 127;
        for (int i = 0; i < 3; ++i) { uint32_t z = r.below(4); if (z == 0) p.caps[i] = 120 + r.below(8); else if (z == 1) p.caps[i] = 60 + r.below(68); p.mins[i] = p.mins[i] % (p.caps[i] + 1); }
    }
    if (p.max_elems < 128) for (int i = 0; i < 3; ++i) if (p.caps[i] > p.max_elems) p.caps[i] = p.max_elems;
    if (vast) { large = true; uint32_t z = r.below(8), c = r.below(3); p.max_elems = 300000; p.caps[c] = z < 4 ? 1000 + r.below(1500) : z < 7 ? 4000 + r.below(8000) : 65000 + r.below(2000); p.mins[c] = r.chance(1, 2) ? 0 : r.below(p.caps[c] + 1); { uint32_t q = r.below(6); p.rot[c] = q == 0 ? 0 : q == 1 ? p.caps[c] - 1 : q == 2 ? p.caps[c] / 2 : r.below(p.caps[c]); } p.fill[c] = r.chance(1, 2) ? p.caps[c] : r.below(p.caps[c] + 1); p.caps[(c + 1) % 3] = r.chance(1, 2) ? p.caps[c] : p.caps[(c + 1) % 3]; }
    // swarm: random weights
    std::vector<int> menu; std::vector<int> bg;
    for (int o : F.ops) if (w.supports(o)) { int n = r.chance(1, 4) ? 0 : 1 + int(r.below(3)); for (int k = 0; k < n; ++k) menu.push_back(o); }
    if (menu.empty()) for (int o : F.ops) if (w.supports(o)) menu.push_back(o);
    for (int o = 0; o < SCHED; ++o) if (w.supports(o)) {
        int n = r.chance(1, 2) ? 0 : 1 + int(r.below(2));
        if (o <= POP_FRONT) n += int(r.below(4));                       // shapes of the buffer come from pushes and pops
        if (o == CLEAR && n) n = r.chance(1, 3);
        if (o == REMAP) n += 2;
        if (o == CHURN && n) n = r.chance(1, 4);
        for (int k = 0; k < n; ++k) bg.push_back(o);
    }
    if (bg.empty()) bg = menu;
    bool faulty = int(r.below(100)) >= F.faultfree_pct;
    uint32_t steps = 3 + (r.chance(1, 6) && !large ? r.below(60) : r.below(18));
    if (w.cbso && p.world < 20 && strcmp(w.alloc, "TinyAlloc") && r.chance(1, prop == 17 ? 40 : 400)) {         // breathing: a big buffer filled and drained item by item, with reversals
        std::vector<int> in, out; for (int o = 0; o <= RERASE; ++o) if (w.supports(o)) { if (o < POP_BACK || (o >= INS_C && o <= INS_D) || (o >= RINS_C && o <= RINS_D)) in.push_back(o); else if (o == POP_BACK || o == POP_FRONT || o == ERASE || o == RERASE) out.push_back(o); }
        uint32_t n = 150 + r.below(300), c = r.below(3); bool up = r.chance(1, 2);
        p.caps[c] = 96 + r.below(r.chance(1, 6) ? 1100 : 400); p.mins[c] = r.chance(1, 2) ? 0 : r.below(p.caps[c] / 2); p.fill[c] = r.below(p.caps[c] + 1);
        for (uint32_t s = 0; s < n; ++s) {
            if (r.chance(1, 70)) up = !up;
            bool add = r.chance(3, 4) ? up : !up; const std::vector<int>& v = add ? in : out;
            Step t; t.op = uint8_t(v[r.below(uint32_t(v.size()))]); t.c = uint8_t(c); t.d = uint8_t((c + 1) % 3);
            t.x = uint32_t(r.next() & 0xffffff); t.y = uint32_t(r.next() & 0xffffff); t.z = uint32_t(r.next() & 0xffffff);
            if (faulty && r.chance(1, 60)) { t.mode = M_FAULT; t.mask = F_ALL; t.count = 1 + int(r.below(6)); }
            p.steps.push_back(t);
        }
        return p;
    }
    uint32_t main_c = r.below(3); bool focus_one = r.chance(2, 3);
    for (uint32_t s = 0; s < steps; ++s) {
        Step t;
        t.op = uint8_t(int(r.below(100)) < F.focus_pct ? menu[r.below(uint32_t(menu.size()))] : bg[r.below(uint32_t(bg.size()))]);
        t.c = uint8_t(focus_one && r.chance(3, 4) ? main_c : r.below(3)); t.d = uint8_t(r.below(3));
        t.x = uint32_t(r.next() & 0xffffff); t.y = uint32_t(r.next() & 0xffffff); t.z = uint32_t(r.next() & 0xffffff);
        if (r.chance(1, 5)) t.x = r.chance(1, 2) ? 0 : t.x;             // boundary positions more often
        if (prop == 20 && (t.op == INS_RANGE || t.op == RINS_RANGE || t.op == AS_RANGE || t.op == AS_CAPRANGE || t.op == CT_RANGE || t.op == CT_CAPRANGE))
            if (r.chance(5, 6)) t.z = (t.z & ~15u) | (2u << 2) | 2u;
        if (int(r.below(100)) < F.nothrow_pct) t.mode = M_NOTHROW;
        else if (faulty && int(r.below(100)) < F.fault_pct) {
            t.mode = M_FAULT;
            uint32_t k = r.below(10);
            if (k < 4) t.mask = F_ALL; else if (k < 6) t.mask = F_ALL & ~fbit(F_ALLOC); else if (k < 9) t.mask = fbit(int(r.below(F_NKINDS))); else t.mask = uint32_t(r.next()) & F_ALL;
            t.count = 1; while (t.count < 40 && r.chance(3, 4)) ++t.count;
            if (scale >= 34 && r.chance(1, 3)) t.count = 1 + int(r.below(3 * (vast ? 20000 : scale)));      // late in a long operation, too
            t.sticky = r.chance(1, 4);
        }
        p.steps.push_back(t);
    }
    return p;
}

}  // namespace sim

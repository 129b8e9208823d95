// A plan is one complete simulated execution: configuration, operations, faults. It is also the replay file.
#pragma once
#include "core.hpp"
#include <string>
#include <vector>
#include <unordered_set>

namespace sim {

enum Op : uint8_t {
    PUSH_BACK_C, PUSH_BACK_M, PUSH_BACK_D, PUSH_FRONT_C, PUSH_FRONT_M, PUSH_FRONT_D, POP_BACK, POP_FRONT,
    INS_C, INS_M, INS_D, INS_N, INS_RANGE, RINS_C, RINS_M, RINS_D, RINS_N, RINS_RANGE,
    ERASE, ERASE_R, RERASE, RERASE_R, ERASE_BEGIN, ERASE_END, CLEAR,
    SETCAP, RSETCAP, RESIZE_D, RESIZE_V, RRESIZE_D, RRESIZE_V,
    CT_DEFAULT, CT_CAP, CT_N, CT_CAPN, CT_RANGE, CT_CAPRANGE, CT_COPY, CT_MOVE,
    AS_COPY, AS_MOVE, AS_N, AS_CAPN, AS_RANGE, AS_CAPRANGE, SWAP, SWAP_FREE,
    LINEARIZE, ROTATE,
    WRITE, AT_OOR, COMPARE, ITERWALK, ALGO, REMAP, CHURN, OBSERVE,
    SCHED,                                   // not an operation: one decision of the thread scheduler
    XA, XB, XC, XD,                          // operations of special worlds
    OP_COUNT
};
extern const char* const op_names[OP_COUNT];

enum Mode : uint8_t { M_NONE, M_FAULT, M_NOTHROW };   // per step: no fault / scheduled fault / everything that must not matter fails

struct Step {
    uint8_t op = 0, c = 0, d = 0, mode = 0, sticky = 0;
    uint32_t x = 0, y = 0, z = 0, mask = 0;
    int count = 0;
};
struct Plan {
    int prop = 0, world = 0;
    uint64_t seed = 0;
    uint32_t caps[3] = {4, 4, 4}, mins[3] = {0, 0, 0};
    uint32_t max_elems = 1u << 20;
    uint32_t rot[3] = {0, 0, 0};      // initial origin shift (push/pop pairs) of each container
    uint32_t fill[3] = {0, 0, 0};
    std::vector<Step> steps;
    std::string text() const;
    bool parse(const std::string& s);
};

struct RunResult {
    uint64_t switches = 0, interleaving = 0;  // of runs with threads
    std::vector<Violation> viol;
    uint64_t hash = 0, events = 0;
    int steps_run = 0, faults = 0;
    bool aborted = false;            // stopped early (untrustworthy state after a violation of another property)
    uint64_t foreign = 0;            // violations that do not concern the property under check
};
struct Coverage {
    std::unordered_set<uint64_t> states;
    uint64_t op_runs[OP_COUNT] = {0}, op_fault[OP_COUNT] = {0};
    uint64_t probes[64] = {0};
};
extern Coverage COV;
enum Probe {
    PR_WRAPPED, PR_FULL, PR_EMPTY_SHIFTED, PR_OVERWRITE, PR_INSERT_CLIPPED, PR_LINEARIZE_WRAPPED, PR_ROT_LEFT, PR_ROT_RIGHT, PR_ROT_FULL,
    PR_STRONG_FAIL, PR_CTOR_FAIL, PR_BASIC_FAIL, PR_MOVED_RESIDUE, PR_NOTHROW_ARMED, PR_LENGTH_ERROR, PR_GROW, PR_SHRINK,
    PR_SECOND_FAULT, PR_ALLOC_SWAP_UNEQUAL, PR_INPUT_RANGE, PR_HUGE_COUNT, PR_SELF, PR_SPURIOUS, PR_DEBUG_MISUSE, PR_AFTER_FAULT_OK, PR_COST, PR_KNOWN_SEQ, PR_OWN_ELEMENT, PR_LIST_RANGE, PR_BUFFER_RANGE, PR_SEED_RANGE, PR_VAST_RANGE, PR_LONG_CHURN,
    PR_COUNT
};
extern const char* const probe_names[PR_COUNT];

struct World {
    const char* name; bool cbso; int kind; const char* alloc;
    bool (*supports)(int op);
    void (*run)(const Plan&, RunResult&);
    bool isolate;                    // each run in a process of its own
    Plan (*gen)(int world, int prop, uint64_t seed);   // own generator, or null
    int weight;
};
extern std::vector<World> worlds;       // indexed by world id
void register_world(int id, const World& w);

}  // namespace sim

// compiled once per world: -DWID=.. -DWK=.. -DWSO=.. -DWA=..
#include "world.hpp"
#define STR2(x) #x
#define STR(x) STR2(x)
static sim::Reg<sim::WK, WSO, sim::WA> reg(WID, (WSO ? "space_optimized<" STR(WK) "," STR(WA) ">" : "circular_buffer<" STR(WK) "," STR(WA) ">"), STR(WA));

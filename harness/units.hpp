// C35: what the translation units of the program share.  Every unit compiles the operations of unit_body.hpp for itself.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

struct World;    // one instance of every component; complete in unit_body.hpp, in every unit alike

using Trace = std::vector<std::uint64_t>;
struct Unit {
    World* (*make)();
    void (*unmake)(World*);
    void (*op)(World*, unsigned op, std::uint64_t arg, Trace& seen, Unit const* helper);
    void (*raise)(World*, unsigned kind);    // throws one of the library's exceptions
    void (*local)(Trace& seen);              // uses types that exist in this unit only
    std::uint64_t before_main;               // what a run during static initialisation saw
    void (*sizes)(Trace& seen);              // layout as this unit knows it
    void* (*twin)(void* manager, int* heard);    // attaches a module that hears this unit's Twin messages
    void (*untwin)(void*);
    int (*twin_heard)(Unit const& other);    // how often the other's module hears a Twin of this unit
};
static unsigned constexpr unit_ops = 40;
extern Unit unit_1, unit_2, unit_3;
std::uint64_t whole_run(Unit const& u, Trace* t = nullptr);    // a fixed script run within one unit

// Independent readers and writers of the file formats (the model of the parsers).
#pragma once
#include <string>
#include <vector>

#include "plan.h"

enum RefSt { REF_OK, REF_BAD, REF_UNCLEAR };
struct Ref {
    RefSt       st = REF_BAD;
    XInst       x;
    bool        has_init = false;
    XSol        init;   // CVRP only
    std::string why;
};
Ref   ref_instance(std::string const& fmt, std::string const& text);
RefSt ref_solution(std::string const& text, XSol& s);

struct Style {
    uint64_t seed = 1;
};
// Renders an instance. Columns must be sorted. init: CVRP initial solution (may be null).
std::string write_instance(Rng& r, std::string const& fmt, XInst const& x, XSol const* init);
std::string write_sol_text(Rng& r, XSol const& s);
std::string num_text(Rng& r, long double v);
std::string damage(Rng& r, std::string s, std::string const& other);

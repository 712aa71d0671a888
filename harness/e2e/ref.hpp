// Reference meaning of a stencil solution: its equations, evaluated point by point on demand.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
struct RefVar { std::string name; std::vector<std::string> dims; std::vector<int> kind; bool scratch, output; int alloc; }; // kind: 0 step, 1 domain, 2 misc.
struct RefInfo { std::string step; int dir; std::vector<std::string> domain; std::vector<RefVar> vars; };
RefInfo& ref_info(const char* solution);                     // parse the solution.
void ref_run(const int64_t* sizes, int64_t t0, unsigned seed); // a run over a domain of these sizes that starts at step t0.
double ref_init(int var, const int64_t* idx);                // value an element has before the run.
double ref_value(int var, const int64_t* idx, int64_t last);   // value it has after the run has reached step `last`.
bool ref_settled(int var, const int64_t* idx);                 // the value does not depend on storage left over from an earlier step.

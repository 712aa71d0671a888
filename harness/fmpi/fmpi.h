// Control of the forked ranks.
#pragma once
#include <functional>
#include <string>
struct FmpiResult { bool ok; std::string why; long sent, bytes; };
// Run f(rank) in n processes, `node` ranks per node; messages take up to `delay` polls.
FmpiResult fmpi_run(int n, int node, unsigned seed, int delay, std::function<void(int)> f);
void fmpi_fail(const std::string& why); // called by a rank.

// Environment for harnesses that run the real kernel library: a real
// KernelEnv / KernelSettings / StencilContext around the mini solution.
#pragma once

#include "yask_stencil.hpp"
#include "yv.h"
using namespace yask;
struct Ctx {
    KernelEnvPtr env; DimsPtr dims; KernelSettingsPtr req, actl;
    Ctx(DimsPtr d) {
        if (!KernelEnv::_debug) { yask_output_factory f; KernelEnv::_debug = f.new_null_output(); }
        env = std::make_shared<KernelEnv>();
        env->max_threads = 1;
        dims = d;
        req = std::make_shared<KernelSettings>(d, env);
        actl = std::make_shared<KernelSettings>(d, env);
    }
};
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

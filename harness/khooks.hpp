// Default (empty) point calculations for harnesses that do not run stencils.
namespace yask {
bool h_valid_domain(int, const Indices&) { return true; }
bool h_has_domain(int) { return false; }
bool h_valid_step(int, idx_t) { return true; }
bool h_has_step(int) { return false; }
void h_scalar(int, h_core_t*, int, const Indices&) {}
void h_vector(int, h_core_t*, int, idx_t, idx_t, idx_t, idx_t, bit_mask_t) {}
}

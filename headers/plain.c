// The C interface, as a program in plain C sees it.
#include "gmatlib.h"
#include "geqslib.h"
#include "plain.h"

void *c_new(unsigned r, unsigned c) { return new_double_matrix(r, c); }
void *c_identity(unsigned n) { return new_double_identity_matrix(n); }
void *c_clone(void *m) { return clone_double_matrix(m); }
void c_free(void *m) { free_double_matrix(m); }
int c_set(void *m, unsigned i, unsigned j, double v) { return index_mut_double_matrix(m, i, j, v) != 0; }
double c_get(void *m, unsigned i, unsigned j) { return index_double_matrix(m, i, j); }
int c_row_scale(void *m, unsigned r, double v) { return inplace_row_scale(m, r, v) != 0; }
int c_scale(void *m, double v) { return inplace_scale(m, v) != 0; }
int c_row_add(void *m, unsigned r1, unsigned r2) { return inplace_row_add(m, r1, r2) != 0; }
int c_scaled_row_add(void *m, unsigned r1, unsigned r2, double v) { return inplace_scaled_row_add(m, r1, r2, v) != 0; }
void *c_multiply(void *a, void *b) { return multiply_matrix(a, b); }
void *c_augment(void *a, void *b) { return augment_with(a, b); }
void *c_subset(void *m, unsigned r1, unsigned c1, unsigned r2, unsigned c2) { return subset(m, r1, c1, r2, c2); }
double c_trace(void *m) { return trace(m); }
void *c_transpose(void *m) { return transpose(m); }
const char *c_invert(void *m)
{
    switch (try_inplace_invert(m))
    {
    case Ok: return "ok";
    case DeterminantWasZero: return "DeterminantWasZero";
    case SingularValueWasZero: return "SingularValueWasZero";
    case ZeroDuringInversion: return "ZeroDuringInversion";
    case UnknownGmatlibError: return "UnknownGmatlibError";
    default: return "no known status";
    }
}

void *c_context(int full) { return full ? new_default_context_hash_map() : new_context_hash_map(); }
void c_constant(void *c, const char *n, double v) { add_const_to_ctx(c, n, v); }
void c_free_context(void *c) { free_context_hash_map(c); }
char *c_solve(const char *t, void *c, double g, double lo, double hi, double m, unsigned l) { return (char *)solve_equation(t, c, g, lo, hi, m, l); }
void c_free_text(char *t) { free_solution_string(t); }
void *c_builder(const char *t, void *c) { return (void *)new_system_builder(t, c); }
static const char *status(int s)
{
    switch (s)
    {
    case NotConstrained: return "0";
    case Constrained: return "1";
    case ConstraintError: return "error";
    case 2: return "2";
    default: return "no known status";
    }
}
const char *c_offer(void *b, const char *t) { return status(try_constrain_with(b, t)); }
const char *c_full(void *b) { return status(is_fully_constrained(b)); }
void *c_build(void *b) { return (void *)build_system(b); }
void c_free_builder(void *b) { free_system_builder(b); }
int c_specify(void *s, const char *n, double g, double lo, double hi) { return specify_variable(s, n, g, lo, hi) == 1; }
char *c_solve_system(void *s, double m, unsigned l) { return (char *)solve_system(s, m, l); }
void c_free_system(void *s) { free_system(s); }

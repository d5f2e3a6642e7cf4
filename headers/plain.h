// What the driver uses of the plain C flavour; plain.c is compiled as C with both headers.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
void *c_new(unsigned r, unsigned c);
void *c_identity(unsigned n);
void *c_clone(void *m);
void c_free(void *m);
int c_set(void *m, unsigned i, unsigned j, double v);
double c_get(void *m, unsigned i, unsigned j);
int c_row_scale(void *m, unsigned r, double v);
int c_scale(void *m, double v);
int c_row_add(void *m, unsigned r1, unsigned r2);
int c_scaled_row_add(void *m, unsigned r1, unsigned r2, double v);
void *c_multiply(void *a, void *b);
void *c_augment(void *a, void *b);
void *c_subset(void *m, unsigned r1, unsigned c1, unsigned r2, unsigned c2);
double c_trace(void *m);
void *c_transpose(void *m);
const char *c_invert(void *m);

void *c_context(int full);
void c_constant(void *c, const char *n, double v);
void c_free_context(void *c);
char *c_solve(const char *t, void *c, double g, double lo, double hi, double m, unsigned l);
void c_free_text(char *t);
void *c_builder(const char *t, void *c);
const char *c_offer(void *b, const char *t);
const char *c_full(void *b);
void *c_build(void *b);
void c_free_builder(void *b);
int c_specify(void *s, const char *n, double g, double lo, double hi);
char *c_solve_system(void *s, double m, unsigned l);
void c_free_system(void *s);
#ifdef __cplusplus
}
#endif

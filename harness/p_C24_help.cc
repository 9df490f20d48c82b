// C24: lets the Ruby monitor put kinds of data into a container that only C++ code can produce
#include <GenericContainer/GenericContainer.hh>
#include <cstdint>
using namespace GC_namespace;
static GenericContainer & G(void * p) { return *static_cast<GenericContainer *>(p); }
extern "C" {
void H_long(void * p, int64_t v) { G(p).set_long(v); }
void H_complex(void * p, double re, double im) { G(p).set_complex(re, im); }
void H_none(void * p) { G(p).clear(); }
void H_vec_bool(void * p, int32_t const * v, int n) { vec_bool_type & x = G(p).set_vec_bool(n); for (int i = 0; i < n; ++i) x[i] = v[i] != 0; }
void H_vec_int(void * p, int32_t const * v, int n) { vec_int_type & x = G(p).set_vec_int(n); for (int i = 0; i < n; ++i) x[i] = v[i]; }
void H_vec_real(void * p, double const * v, int n) { vec_real_type & x = G(p).set_vec_real(n); for (int i = 0; i < n; ++i) x[i] = v[i]; }
void H_vec_complex(void * p, double const * v, int n) { vec_complex_type & x = G(p).set_vec_complex(n); for (int i = 0; i < n; ++i) x[i] = complex_type(v[2 * i], v[2 * i + 1]); }
void H_mat_real(void * p, double const * v, int nr, int nc) { mat_real_type & x = G(p).set_mat_real(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) x(i, j) = v[i * nc + j]; }
void H_mat_complex(void * p, double const * v, int nr, int nc) { mat_complex_type & x = G(p).set_mat_complex(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) x(i, j) = complex_type(v[2 * (i * nc + j)], v[2 * (i * nc + j) + 1]); }
// 0: nothing stored
int H_type(void * p) { return static_cast<int>(G(p).get_type()); }
}

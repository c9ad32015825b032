// Uses every operation of the vector classes so that the compiler emits it.
#include "ThreeVector.hh"
#include "ThreeMatrix.hh"
typedef ThreeVector V; typedef ThreeMatrix M;
extern "C" {
void v_add(const V& a, const V& b, V& o) { o = a + b; }
void v_sub(const V& a, const V& b, V& o) { o = a - b; }
void v_mul(const V& a, const V& b, V& o) { o = a * b; }
void v_div(const V& a, const V& b, V& o) { o = a / b; }
void v_sadd(double s, const V& b, V& o) { o = s + b; }
void v_ssub(double s, const V& b, V& o) { o = s - b; }
void v_smul(double s, const V& b, V& o) { o = s * b; }
void v_sdiv(double s, const V& b, V& o) { o = s / b; }
void v_adds(const V& a, double s, V& o) { o = a + s; }
void v_subs(const V& a, double s, V& o) { o = a - s; }
void v_muls(const V& a, double s, V& o) { o = a * s; }
void v_divs(const V& a, double s, V& o) { o = a / s; }
void v_cross(const V& a, const V& b, V& o) { o = a.Cross(b); }
void v_norm(const V& a, V& o) { o = a.Norm(); }
void v_dir(const V& a, const V& b, V& o) { o = a.Direction(b); }
double v_dot(const V& a, const V& b) { return a.Dot(b); }
double v_mag(const V& a) { return a.Mag(); }
double v_mag2(const V& a) { return a.Mag2(); }
void v_rot(const V& a, const V& b, const V& x, V& o) { o = a.RotateToAxis(b) * x; }
void v_rotinv(const V& a, const V& b, const V& x, V& o) { o = a.RotateToAxis(b).Inverse() * x; }
void v_rotmat(const V& a, const V& b, double* o) { M m = a.RotateToAxis(b); for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) o[3*i+j] = m[i][j]; }
void v_set(V& a, double s) { a[0] = s; a[1] = s + 1; a[2] = s + 2; }
void v_read(const V& a, double* o) { o[0] = a[0]; o[1] = a[1]; o[2] = a[2]; }
void v_new(double x, double y, double z, V& o) { V t(x, y, z); o = t; }
void v_zero(V& o) { V t; o = t; }
void v_copy(const V& a, V& o) { V t(a); o = t; }
void v_self(V& a) { a = a; }
void v_chain(const V& a, V& b, V& c) { c = b = a; }
static M mk(const double* p) { M m; for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) m[i][j] = p[3*i+j]; return m; }
static void out(const M& m, double* p) { for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 3; j++) p[3*i+j] = m[i][j]; }
void m_add(const double* a, const double* b, double* o) { out(mk(a) + mk(b), o); }
void m_mul(const double* a, const double* b, double* o) { out(mk(a) * mk(b), o); }
void m_muls(const double* a, double s, double* o) { out(mk(a) * s, o); }
void m_inv(const double* a, double* o) { out(mk(a).Inverse(), o); }
double m_det(const double* a) { return mk(a).Determinant(); }
void m_vec(const double* a, const V& v, V& o) { o = mk(a) * v; }
void m_ident(double* o) { M m; m.Ideneity(); out(m, o); }
void m_zeros(const double* a, double* o) { M m = mk(a); m.Zeros(); out(m, o); }
void m_default(double* o) { M m; out(m, o); }
void m_copy(const double* a, double* o) { M x = mk(a); M m(x); M n; n = m; out(n, o); }
}

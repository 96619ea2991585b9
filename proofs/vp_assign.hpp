// contract of an assignment  view(domain) = expr
namespace vp
{
// an arbitrary index of a parent of n elements that (f,s,m), s != 0, does not select:
// before the first, after the last, or strictly between two neighbours
inline I outside(I n, I f, I s, I m)
{
  I e = vp_int("out.e", 1, M1), w = vp_int("out.where", 0, 2), q;
  if (w == 2)
  {
    I j = vp_int("out.j", 0, M1);
    if (s > 0) { vp_assume((e < s) & (j + 1 < m)); q = f + s * j + e;}
    else { vp_assume((e < -s) & (j + 1 < m)); q = f + s * j - e;}
  }
  else if (w == 1) q = s > 0 ? f + (m - 1) * s + e : f + e;
  else q = s > 0 ? f - e : f + (m - 1) * s - e;
  vp_assume((q >= 0) & (q < n));
  return q;
}
template <typename T> struct S1   // plain vector of given length over fresh storage
{
  T *p; Dense<1, T> b; Vector<T> v;
  S1(I n, char const *nm = "b") : p(vp::array<T>(nm, n)), b(Domain<1>(n), p), v(b) { b.admit(true);}
};
template <typename T, typename O = row2_type> struct S2
{
  I c_; T *p; Dense<2, T, O> b; Matrix<T, Dense<2, T, O> > v;
  S2(I r, I c, char const *nm = "b") : c_(c), p(vp::array<T>(nm, r * c)), b(Domain<2>(r, c), p), v(b) { b.admit(true);}
};
template <typename T, typename O = row3_type> struct S3
{
  T *p; Dense<3, T, O> b; Tensor<T, Dense<3, T, O> > v;
  S3(I r, I c, I d, char const *nm = "b") : p(vp::array<T>(nm, r * c * d)), b(Domain<3>(r, c, d), p), v(b) { b.admit(true);}
};
}

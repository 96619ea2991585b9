// C02: applied layouts (compile-time and run-time) place every index of an extent at its own position inside
// total_size() elements: unit stride in the minor dimension, rows no closer than their length, aligned rows aligned
#include <ovxx/library.hpp>
#include <vsip/initfin.hpp>
#include <ovxx/layout.hpp>
#include "vp_views.hpp"
using namespace vp;
template <dimension_type D> vsip::Index<D> ix(I const *k);
template <> vsip::Index<1> ix<1>(I const *k) { return vsip::Index<1>(k[0]);}
template <> vsip::Index<2> ix<2>(I const *k) { return vsip::Index<2>(k[0], k[1]);}
template <> vsip::Index<3> ix<3>(I const *k) { return vsip::Index<3>(k[0], k[1], k[2]);}
template <dimension_type D> Domain<D> dm(I const *s);
template <> Domain<1> dm<1>(I const *s) { return Domain<1>(s[0]);}
template <> Domain<2> dm<2>(I const *s) { return Domain<2>(s[0], s[1]);}
template <> Domain<3> dm<3>(I const *s) { return Domain<3>(s[0], s[1], s[2]);}
struct Ext { I s[3];};
template <dimension_type D> Ext ext()
{
  Ext e; I m = D == 1 ? M1 : D == 2 ? M2 : I(1) << 14;
  e.s[0] = vp_len("s0", 1, m); e.s[1] = D > 1 ? vp_len("s1", 1, m) : 1; e.s[2] = D > 2 ? vp_len("s2", 1, m) : 1;
  return e;
}
// al: row alignment in elements (0: dense, < 0: only no closer than dense)
template <dimension_type D, typename A> void check(A const &a, Ext e, int D0, int D1, int D2, I al)
{
  int o[3] = {D0, D1, D2}; int maj = o[0], mid = D == 3 ? o[1] : o[0], mnr = o[D - 1];
  I k[3], l[3]; k[0] = vp_int("k0", 0, e.s[0] - 1); k[1] = vp_int("k1", 0, e.s[1] - 1); k[2] = vp_int("k2", 0, e.s[2] - 1);
  l[0] = vp_int("l0", 0, e.s[0] - 1); l[1] = vp_int("l1", 0, e.s[1] - 1); l[2] = vp_int("l2", 0, e.s[2] - 1);
  bool ok = true, same_ = true; I at = 0;
  for (int d = 0; d < int(D); ++d) { ok = ok & (I(a.size(d)) == e.s[d]); same_ = same_ & (k[d] == l[d]); at += k[d] * I(a.stride(d));}
  vp_assert(ok, "sizes are the extent's");
  I row = D == 1 ? e.s[0] : I(a.stride(mid)), min = e.s[mnr];
  vp_assert(I(a.stride(mnr)) == 1, "unit stride in the minor dimension");
  if (D > 1) { if (al) vp_assert((row >= min) & (row < min + al) & (row % al == 0), "rows are aligned, with the least padding"); else vp_assert(row == min, "dense rows are adjacent");}
  if (D == 3) vp_assert(I(a.stride(maj)) == e.s[mid] * row, "planes are adjacent");
  I p = a.index(ix<D>(k)), q = a.index(ix<D>(l));
  vp_assert(p == at, "the position is the sum of index times stride");
  vp_assert((p >= 0) & (p < I(a.total_size())), "the position is inside the storage");
  vp_assert((p == q) == same_, "different indices have different positions");
}
template <dimension_type D, typename O, pack_type P> void fixed(I al)
{
  Ext e = ext<D>(); ovxx::Applied_layout<Layout<D, O, P, vsip::array> > a(dm<D>(e.s));
  check<D>(a, e, O::impl_dim0, O::impl_dim1, O::impl_dim2, al);
}
template <typename O, pack_type P> void sizes2(I al)
{
  Ext e = ext<2>(); ovxx::Applied_layout<Layout<2, O, P, vsip::array> > a(e.s[0], e.s[1]);
  check<2>(a, e, O::impl_dim0, O::impl_dim1, O::impl_dim2, al);
  I i = vp_int("i", 0, e.s[0] - 1), j = vp_int("j", 0, e.s[1] - 1);
  vp_assert(I(a.index(i, j)) == i * I(a.stride(0)) + j * I(a.stride(1)), "index(i, j)");
}
typedef tuple<0,1,2> R; typedef tuple<1,0,2> K;
#define F(name, ...) VP_PROOF(fixed_##name) { fixed<__VA_ARGS__;}
F(1_dense, 1, R, dense>(0))
F(1_unit, 1, R, unit_stride>(0))
F(1_al64, 1, R, aligned_64>(64))
F(2_dense, 2, R, dense>(0))
F(2_dense_c, 2, K, dense>(0))
F(2_al8, 2, R, aligned_8>(8))
F(2_al256, 2, R, aligned_256>(256))
F(2_al512, 2, R, aligned_512>(512))
F(2_al16_c, 2, K, aligned_16>(16))
F(2_al1024_c, 2, K, aligned_1024>(1024))
F(3_dense_012, 3, R, dense>(0))
#define VP_COMMA ,
F(3_dense_021, 3, tuple<0 VP_COMMA 2 VP_COMMA 1>, dense>(0))
F(3_dense_102, 3, K, dense>(0))
F(3_dense_201, 3, tuple<2 VP_COMMA 0 VP_COMMA 1>, dense>(0))
F(3_al16_012, 3, R, aligned_16>(16))
F(3_al32_120, 3, tuple<1 VP_COMMA 2 VP_COMMA 0>, aligned_32>(32))
F(3_al8_210, 3, tuple<2 VP_COMMA 1 VP_COMMA 0>, aligned_8>(8))
#define Z2(name, ...) VP_PROOF(sizes_##name) { sizes2<__VA_ARGS__;}
Z2(dense, R, dense>(0))
Z2(dense_c, K, dense>(0))
Z2(al16, R, aligned_16>(16))
Z2(al16_c, K, aligned_16>(16))
Z2(al512_c, K, aligned_512>(512))
// ---- run-time layouts: alignment in bytes, sz bytes per element
template <dimension_type D> void rt(int D0, int D1, int D2, bool aligned_, unsigned al, I sz)
{
  Ext e = ext<D>();
  ovxx::Rt_layout<D> l(aligned_ ? aligned_16 : dense, ovxx::Rt_tuple(D0, D1, D2), vsip::array, al);
  ovxx::Applied_layout<ovxx::Rt_layout<D> > a(l, dm<D>(e.s), sz);
  check<D>(a, e, D0, D1, D2, aligned_ && al ? I(al) / sz : 0);
  vp_assert(a.storage_format() == vsip::array, "storage format");
}
VP_PROOF(rt_1) { rt<1>(0, 1, 2, false, 0, 4);}
VP_PROOF(rt_1_al) { rt<1>(0, 1, 2, true, 16, 4);}
VP_PROOF(rt_2_dense) { rt<2>(0, 1, 2, false, 0, 8);}
VP_PROOF(rt_2_dense_c) { rt<2>(1, 0, 2, false, 16, 8);}
VP_PROOF(rt_2_al16) { rt<2>(0, 1, 2, true, 16, 4);}
VP_PROOF(rt_2_al64_c) { rt<2>(1, 0, 2, true, 64, 8);}
VP_PROOF(rt_2_al16_same) { rt<2>(0, 1, 2, true, 16, 16);}
VP_PROOF(rt_3_dense_120) { rt<3>(1, 2, 0, false, 0, 4);}
VP_PROOF(rt_3_al32_012) { rt<3>(0, 1, 2, true, 32, 4);}
VP_PROOF(rt_3_al16_102) { rt<3>(1, 0, 2, true, 16, 8);}
VP_PROOF(rt_3_al128_201) { rt<3>(2, 0, 1, true, 128, 8);}
VP_PROOF(rt_3_al_unset) { rt<3>(2, 1, 0, true, 0, 8);}
// ---- the alignment a packing stands for
template <pack_type P> bool means(unsigned a)
{ return (ovxx::is_packing_aligned<P>::value == (a != 0)) & (ovxx::is_packing_aligned<P>::alignment == a) & (ovxx::is_aligned(P) == (a != 0)) &
    (ovxx::layout_alignment(Layout<2, R, P, vsip::array>()) == a);}
VP_PROOF(packing_alignment)
{
  vp_assert(means<dense>(0) & means<unit_stride>(0) & means<any_packing>(0), "packings that are not aligned");
  vp_assert(means<aligned_8>(8) & means<aligned_16>(16) & means<aligned_32>(32) & means<aligned_64>(64), "8 to 64");
  vp_assert(means<aligned_128>(128) & means<aligned_256>(256) & means<aligned_512>(512) & means<aligned_1024>(1024), "128 to 1024");
}

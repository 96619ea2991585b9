// sub views parent through phi: same elements, in both directions, and nothing else
template <int DS, int DP, typename P, typename S, typename F>
void alias(P parent, S sub, Ix<DS> ssz, Ix<DP> psz, F phi)
{
  typedef typename P::value_type T;
  vp_assert(has_size(sub, ssz), "size of the subview");
  Ix<DS> k = some("k", ssz); Ix<DP> q = some("q", psz);
  Ix<DP> h = phi(k);
  vp_assert(same(get(sub, k), get(parent, h)), "the subview reads the selected element");
  T x = any<T>("x"), y = any<T>("y"), old = get(parent, q);
  put(sub, k, x);
  vp_assert(same(get(parent, q), eq(q, h) ? x : old), "a write through the subview changes exactly the selected element");
  put(parent, q, y);
  vp_assert(same(get(sub, k), eq(q, h) ? y : x), "a write to the parent shows through the subview");
}


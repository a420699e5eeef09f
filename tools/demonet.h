#pragma once
#include "nntl/nntl.h"
#include "nntl/layer/extensions.h"
#include "nntl/interface/inspectors/dummy.h"
#include "nntl/interface/rng/afrand_mt.h"
using namespace nntl;
typedef double R;
struct NIf : public d_int_nI<R> { typedef inspector::dummy<R> iInspect_t; };
typedef grad_works<NIf> GWk; typedef weights_init::XavierFour WI;
typedef activation::softsign<R, 1000000, 1000000, WI> Soft; typedef activation::identity<R, WI> Idn;
typedef LFC<Soft, GWk> L; typedef LFC<Idn, GWk> LI; typedef layer_input<NIf> In; typedef layer_output<activation::identity_quad_loss<R, WI>, GWk> Out;
typedef math::smatrix_deform<R> MD; typedef math::smatrix<R> MX;
static inline double fr(int k) { double x = k * 0.7548776662; return 2 * (x - std::floor(x)) - 1; }
template<class LY> static void setw(LY& l, int k) { MD w(l.get_neurons_cnt(), l.get_incoming_neurons_cnt() + 1); for (int i = 0; i < (int)w.numel(); i++) w.data()[i] = fr(k + i); l.set_weights(std::move(w)); }

// opts.h - one generated optimizer setting applied to every learnable layer of a network
#pragma once
namespace {
struct Opts { int kind = 0; double mom = 0; bool nest = false, ilr = false, ilrm = false; double lrd = 1, mxn = 0;
	template<class L> std::enable_if_t<nntl::layer_has_gradworks<L>::value> operator()(L& l) const { auto& gw = const_cast<std::decay_t<L>&>(l).get_gradWorks(); typedef std::decay_t<decltype(gw)> GW; static const typename GW::GradType T[9] = { GW::ClassicalConstant, GW::RMSProp_Hinton, GW::RMSProp_Graves, GW::Adam, GW::RProp, GW::ModProp, GW::AdaMax, GW::Nadam, GW::Radam };
		gw.set_type(T[kind]); if (mom > 0) { if (nest) gw.nesterov_momentum(R(mom)); else gw.momentum(R(mom)); } if (ilr) { gw.set_ILR(R(.9), R(1.1), R(.1), R(10)); gw.applyILRToMomentum(ilrm); } if (lrd < 1) gw.LRDropoutPercentActive(R(lrd)); if (mxn > 0) gw.max_norm(R(mxn), false); }
	template<class L> std::enable_if_t<!nntl::layer_has_gradworks<L>::value> operator()(L&) const {}
	bool stateless() const { return kind == 0 && mom == 0 && !ilr; } };
static inline Opts gen_opts(vp::Gen& g) { Opts o; o.kind = g.b(1, 3) ? 0 : (int)g.raw(9); o.mom = g.pick({ 0., 0., .9 }); o.nest = g.b(); o.ilr = g.b(1, 3); o.ilrm = g.b(); if (g.b(1, 5)) o.lrd = g.pick({ .5, .8 }); if (g.b(1, 6)) o.mxn = 2;
	static const char* nm[] = { "SGD", "RMSProp Hinton", "RMSProp Graves", "Adam", "RProp", "ModProp", "AdaMax", "Nadam", "Radam" }; g.label(nm[o.kind]); g.labelif(o.mom > 0, "momentum"); g.labelif(o.ilr, "individual learning rates"); g.labelif(o.lrd < 1, "learning rate dropout"); g.labelif(o.mxn > 0, "max norm"); g.say("optimizer", nm[o.kind], o.mom, o.nest, "ilr", o.ilr, o.ilrm, "lr dropout", o.lrd, "max norm", o.mxn); return o; }
}

// Every flux method, in groups that are compiled apart (-DVPG=k). The including file defines M(name, Type).
#if VPG == 1
M(god_adv, GodAdv) M(god_burgers, GodBurgers) M(hll_shallow, HllShallow)
M(mh_adv, MhAdv<MinMod>) M(mhv_adv, MhAdv<VanLeer>) M(mh_burgers, MhBurgers<MinMod>) M(mhv_burgers, MhBurgers<VanLeer>) M(mh_shallow, MhShallow<MinMod>) M(mhv_shallow, MhShallow<VanLeer>)
#elif VPG == 2
M(hll_gas1, HllGas<1>) M(hll_gas2, HllGas<2>) M(hll_gas3, HllGas<3>) M(hll_mix1, HllMix<1>) M(hll_mix2, HllMix<2>) M(hll_mix3, HllMix<3>)
#elif VPG == 3
M(mh_gas1, MhGas<1, MinMod>) M(mh_gas2, MhGas<2, MinMod>) M(mhv_gas2, MhGas<2, VanLeer>) M(mh_gas3, MhGas<3, MinMod>)
#elif VPG == 4
M(hllem_gas1, HllemGas<1>) M(hllem_gas2, HllemGas<2>) M(hllem_gas3, HllemGas<3>) M(hllem_mix1, HllemMix<1>) M(hllem_mix2, HllemMix<2>)
#elif VPG == 5
M(hlleml_gas1, HllemLGas<1>) M(hlleml_gas2, HllemLGas<2>) M(hlleml_gas3, HllemLGas<3>) M(hlleml_mix1, HllemLMix<1>) M(hlleml_mix2, HllemLMix<2>)
#elif VPG == 6
M(mh2c_gas1, Mh2Cons<PerfectGas<1>, MinModLimiter>) M(mh2c_gas2, Mh2Cons<PerfectGas<2>, VanLeerLimiter>) M(mh2p_gas1, Mh2Prim<PerfectGas<1>, MinModLimiter>) M(mh2p_gas2, Mh2Prim<PerfectGas<2>, VanLeerLimiter>) M(mh2p_gas3, Mh2Prim<PerfectGas<3>, MinModLimiter>)
#elif VPG == 7
M(mh2x_gas1, Mh2Char<PerfectGas<1>, MinModLimiter>) M(mh2x_gas2, Mh2Char<PerfectGas<2>, VanLeerLimiter>) M(mh2x_gas3, Mh2Char<PerfectGas<3>, MinModLimiter>)
M(mh2p_mix1, Mh2Prim<PerfectGasMix<1>, MinModLimiter>) M(mh2x_mix2, Mh2Char<PerfectGasMix<2>, MinModLimiter>)
#endif

// Message of the distributed fluid bus as it travels between simulations.
#ifndef DST_BUSMSG_HH
#define DST_BUSMSG_HH
#include "common.hh"
#include "interop/Distributed2WayBusFluid.hh"
namespace dst {
struct FluidMsg {
    unsigned frame, loop; bool demand; double energy, cap, source; std::vector<double> x, tc;
    int boot;               ///< process incarnation of the sender
    bool flip;              ///< this frame's output flip zeroed the source
    FluidMsg() : frame(0), loop(0), demand(false), energy(0), cap(0), source(0), boot(0), flip(false) {}
    void from(const Distributed2WayBusFluidInterfaceData& d) { frame = d.mFrameCount; loop = d.mFrameLoopback; demand = d.mDemandMode; energy = d.mEnergy; cap = d.mCapacitance; source = d.mSource; x.assign(d.mMoleFractions, d.mMoleFractions + d.getNumFluid()); tc.assign(d.mTcMoleFractions, d.mTcMoleFractions + d.getNumTc()); }
    void to(Distributed2WayBusFluidInterfaceData& d) const { d.mFrameCount = frame; d.mFrameLoopback = loop; d.mDemandMode = demand; d.mEnergy = energy; d.mCapacitance = cap; d.mSource = source; d.setMoleFractions(x.data(), x.size()); d.setTcMoleFractions(tc.data(), tc.size()); }
    bool valid() const { if (frame < 1 || energy <= 0 || cap < 0 || (source < 0 && !demand)) return false; for (double v : x) if (v < 0) return false; for (double v : tc) if (v < 0) return false; return true; }
};
} // namespace dst
#endif

// Records what a network does in a run, and restarts it after chosen steps.
#ifndef DST_TRACE_HH
#define DST_TRACE_HH
#include "dst.hh"
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include <typeinfo>
namespace dst {
struct NetTrace { std::vector<std::vector<double> > steps; std::vector<char> bad; std::set<long> restarts; std::set<std::string> kinds; std::vector<std::string> what; };
inline NetTrace*& netTrace() { static NetTrace* t = 0; return t; }
/// After every major step: bad = a step that documents say nothing reliable about.
inline void traceStep(Gunns& net, bool bad = false) {
    NetTrace* t = netTrace(); if (!t) return;
    std::vector<double> v; const bool first = t->steps.empty();
    auto put = [&](double x, const char* nm, int i) { v.push_back(x); if (first) t->what.push_back(fmt("%s %d", nm, i)); };
    for (int i = 0; i + 1 < net.mNumNodes; ++i) {
        put(net.mNodes[i]->getPotential(), "potential of node", i);
        if (GunnsFluidNode* nd = dynamic_cast<GunnsFluidNode*>(net.mNodes[i])) {
            PolyFluid& c = nd->mContent; put(c.getTemperature(), "temperature of node", i); put(c.getMass(), "mass of node", i);
            for (int k = 0; k < c.mNConstituents; ++k) put(c.getMassFraction(k), "mixture of node", i);
            if (c.mTraceCompounds) for (int k = 0; k < c.mTraceCompounds->mConfig->mNTypes; ++k) put(c.mTraceCompounds->getMasses()[k], "trace compound of node", i);
        }
    }
    for (int i = 0; i < net.mNumLinks; ++i) { GunnsBasicLink& l = *net.mLinks[i]; put(l.mFlux, "flux of link", i); for (int k = 0; k < l.mNumPorts; ++k) put(l.mNodeMap[k], "port of link", i); }
    for (int i = 0; i < net.mNumLinks; ++i) t->kinds.insert(typeid(*net.mLinks[i]).name());
    t->steps.push_back(v); t->bad.push_back(bad);
    if (t->restarts.count((long)t->steps.size())) net.restart();
}
} // namespace dst
#endif

// Shared pieces of the scenario drivers.
#ifndef DST_COMMON_HH
#define DST_COMMON_HH
#include "dst.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicNode.hh"
#include "simulation/hs/TsHsMngr.hh"
#include <algorithm>
#include <cfloat>
#include <memory>

namespace dst {

/// Health & status seam: records messages instead of printing them.
class HsTap : public TsHsMngr {
  public:
    struct Msg { TS_HS_MSG_TYPE type; std::string subsys, text; };
    HsTap() { tsGlobalHsMngr = this; }
    virtual ~HsTap() { tsGlobalHsMngr = 0; }
    virtual void restart() {}
    virtual void update() {}
    virtual void shutdown() {}
    virtual void msg(const std::string&, const int, const std::string&, TS_HS_MSG_TYPE t, const std::string& s, const std::string& m) {
        if (msgs.size() < 100000) msgs.push_back(Msg{t, s, m});
    }
    long count(TS_HS_MSG_TYPE t) const { long n = 0; for (auto& m : msgs) n += m.type == t; return n; }
    long countText(const std::string& sub) const { long n = 0; for (auto& m : msgs) n += m.text.find(sub) != std::string::npos; return n; }
    std::vector<Msg> msgs;
};

inline bool finite(double v) { return std::isfinite(v); }
inline bool near(double a, double b, double rel, double abs) {
    if (a == b) return true;
    if (!finite(a) || !finite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

/// Union-find over small node sets.
struct Uf {
    std::vector<int> p;
    explicit Uf(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; }
    int  f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    void u(int a, int b) { p[f(a)] = f(b); }
};

} // namespace dst
#endif

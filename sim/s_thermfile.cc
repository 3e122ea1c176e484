// T02: a thermal network described by XML files is exactly the network its valid entries describe, whatever
// entries are damaged and whatever happens to the files; heater wiring, capacitance groups and reloads included.
#include "common.hh"
#include "disk.hh"
#include "aspects/thermal/network/ThermalNetwork.hh"
#include "math/UnitConversion.hh"
#include <unistd.h>
#include <sys/stat.h>

namespace dst {
namespace {

enum Bad { OKAY = 0, NOTAG, UNKNOWN, EMPTY, SUFFIX, WORD, NBAD };

void genPorts(Rng& r, int n, std::vector<double>& v) {
    std::set<int> used; const int k = r.irange(1, std::min(3, n)); double left = 1.0;
    for (int i = 0; i < k; ++i) {
        int nd = r.irange(0, n - 1); while (used.count(nd)) nd = (nd + 1) % n; used.insert(nd);
        const double f = i + 1 == k ? left : left * r.irange(1, 7) / 8.0; left -= f;
        v.push_back(nd); v.push_back(f);
    }
}
void genTF(Rng& r, Plan& p, bool deep) {
    const int n = r.irange(2, deep ? 9 : 6);
    const double pb = r.chance(0.4) ? 0.0 : r.range(0.05, 0.5);
    auto bad = [&] { return r.chance(pb) ? (double)r.irange(NOTAG, NBAD - 1) : 0.0; };
    p.set("groups", r.irange(0, 3)); p.set("dup", r.chance(0.2) ? r.irange(0, n - 1) : -1);
    for (int i = 0; i < n; ++i) p.add("node", {r.range(150, 450), r.logRange(10, 1e5), r.chance(0.6) ? (double)r.irange(0, 3) : -1.0, r.chance(pb * 0.5) ? (double)r.irange(NOTAG, SUFFIX) : 0.0});
    auto pair = [&](double& a, double& b) { a = r.irange(0, n); b = r.irange(0, n); if (a == b) b = a == n ? 0 : n; };
    double a, b;
    for (int i = r.irange(0, 5); i > 0; --i) { pair(a, b); p.add("cond", {a, b, r.logRange(1e-2, 1e2), bad(), r.chance(0.3) ? 1.0 : 0.0}); }
    for (int i = r.irange(0, 5); i > 0; --i) { pair(a, b); p.add("rad", {a, b, r.logRange(1e-2, 10), bad(), r.chance(0.3) ? 1.0 : 0.0}); }
    for (int i = r.irange(0, 3); i > 0; --i) { std::vector<double> v = {bad(), r.chance(0.5) ? r.range(0.1, 2) : -1}; genPorts(r, n, v); p.add("htr", v); }
    for (int i = r.irange(0, 3); i > 0; --i) { std::vector<double> v = {bad(), r.chance(0.5) ? r.range(0.1, 2) : -1, r.chance(0.5) ? r.range(0, 300) : -1}; genPorts(r, n, v); p.add("src", v); }
    for (int i = r.irange(0, 3); i > 0; --i) { std::vector<double> v = {bad(), r.range(0.1, 4), r.u()}; genPorts(r, n, v); p.add("pan", v); }
    for (int i = r.irange(0, 3); i > 0; --i) p.add("pot", {(double)r.irange(0, n - 1), r.range(150, 400), r.logRange(1e-2, 1e2), bad()});
    p.set("initfile", r.chance(0.5)); p.set("radin", r.chance(0.5)); p.set("rot", r.chance(0.3) ? r.irange(0, 4) : 0);
    for (int i = r.irange(0, 3); i > 0; --i) p.add("init", {(double)r.irange(0, n - 1), r.range(150, 450), bad()});
    for (int i = r.irange(0, 6); i > 0; --i) p.add("vs", {(double)r.irange(0, 5), r.u(), r.chance(0.4) ? bad() : 0.0});
    if (r.chance(0.5)) p.add("ffault", {(double)r.irange(0, 7), (double)r.irange(0, 8), r.u()});
    if (r.chance(0.15)) p.add("ffault", {(double)r.irange(0, 7), (double)r.irange(0, 8), r.u()});
    double dt = r.logRange(0.1, 20);
    for (int s = r.irange(1, deep ? 60 : 20); s > 0; --s) {
        for (int d = r.irange(0, 2); d > 0; --d) switch (r.irange(0, 7)) {
            case 0: p.add("power", {(double)r.irange(0, 5), r.range(0, 500)}); break;
            case 1: p.add("miswire", {r.chance(0.6) ? 1.0 : 0.0, (double)r.irange(-1, 5), (double)r.irange(-1, 5), (double)r.irange(0, 3), (double)r.chance(0.8)}); break;
            case 2: case 3: p.add("factor", {(double)r.irange(0, 2), r.logRange(0.1, 10)}); break;
            case 4: p.add("save"); break;
            case 5: p.add("reload"); break;
            case 6: p.add("block", {(double)r.irange(0, 40), r.chance(0.6) ? 1.0 : 0.0, r.u()}); break;
            default: dt = r.chance(0.1) ? 0 : r.logRange(0.1, 20); break;
        }
        p.add("step", {dt});
    }
}

/// The description: what the files say and, independently of any parser, what network that is.
struct Desc {
    std::vector<std::string> nodeNames; std::vector<double> temp, cap; std::vector<int> grp, idx;   // idx: registered index of node op
    int ngroups = 0; long skipped = 0, tskipped = 0, suffix = 0;
    struct Two { int a, b; double x, y; std::string name; };
    struct Multi { std::vector<int> ports; std::vector<double> fr; double a, b; };
    std::vector<Two> cond, rad, pot; std::vector<Multi> htr, src, pan; std::vector<double> vs;
    std::string file[8]; bool used[8] = {true, false, false, false, false, false, false, false};
    bool fatalEmpty[8] = {false, false, false, false, false, false, false, false};

    static std::string tag(const char* t, const std::string& v) { return std::string("<") + t + ">" + v + "</" + t + ">"; }
    static std::string num(double v) { return fmt("%.17g", v); }
    /// A value tag with the entry's damage, if the damage is meant for this tag.
    std::string val(const char* t, double& v, int bad, bool required, bool& drop) {
        if (bad == NOTAG) { if (required) drop = true; return ""; }
        if (bad == EMPTY) { if (required) drop = true; return tag(t, ""); }
        if (bad == SUFFIX) { ++suffix; return tag(t, num(v) + "xyz"); }
        if (bad == WORD) { v = 0; ++suffix; return tag(t, "hot"); }
        return tag(t, num(v));
    }
    std::string nn(int i) const { return i >= 0 && i < (int)idx.size() ? fmt("N%d", i) : "SPACE"; }
    int reg(int i) const { return i >= 0 && i < (int)idx.size() ? idx[i] : (int)temp.size(); }     // -1: not registered
    int lim(double v, bool space = true) const { return std::min(std::max((int)v, 0), (int)idx.size() - (space ? 0 : 1)); }

    bool ports(const Op& o, size_t from, std::string& x, Multi& m, int bad) {
        bool drop = false; std::vector<std::pair<int, double> > v; std::set<int> seen; double sum = 0;
        for (size_t i = from; i + 1 < o.a.size() && v.size() < 4; i += 2) { const int k = lim(o.d(i), false); if (seen.insert(k).second) { v.push_back({k, std::max(0.0, o.d(i + 1))}); sum += v.back().second; } }
        if (v.empty()) v.push_back({0, 1.0});
        if (sum > 0) for (auto& e : v) e.second /= sum; else for (auto& e : v) e.second = 1.0 / v.size();
        for (size_t i = 0; i < v.size(); ++i) {
            std::string name = nn(v[i].first); if (bad == UNKNOWN && i + 1 == v.size()) name = "nowhere";
            double f = v.size() > 1 ? v[i].second : 1.0;
            bool d2 = false; const bool last = i + 1 == v.size();
            std::string fx = v.size() > 1 ? val("frac", f, last && (bad == NOTAG || bad == EMPTY || bad == SUFFIX) ? bad : OKAY, true, d2) : "";
            drop |= d2; x += "<node>" + name + fx + "</node>";
            const int k = name == "nowhere" ? -1 : reg(v[i].first); if (k < 0) drop = true;
            m.ports.push_back(k); m.fr.push_back(f);
        }
        return !drop;
    }

    void build(const Plan& p) {
        ngroups = std::min(3, std::max(0, p.geti("groups")));
        std::string x = "<?xml version='1.0'?>\n<list>\n";
        if (ngroups) { x += "<capEditing>"; for (int g = 0; g < ngroups; ++g) x += tag("group", fmt("g%d", g)); x += "</capEditing>\n"; }
        int k = 0; const int dup = p.geti("dup", -1);
        for (auto& o : p.ops) if (o.kind == "node" && k < 12) {
            const int bad = k == 0 ? OKAY : o.i(3); double T = std::max(1.0, o.d(0, 290)), C = std::max(1.0, o.d(1, 1000)); bool drop = false;
            std::string nx = bad == EMPTY && k % 2 ? tag("name", "") : bad == UNKNOWN ? "" : tag("name", fmt("N%d", k));
            if ((bad == EMPTY && k % 2) || bad == UNKNOWN) drop = true;
            std::string t = val("temperature", T, k % 3 == 0 ? bad : OKAY, true, drop), c = val("capacitance", C, k % 3 ? (bad == UNKNOWN ? OKAY : bad) : OKAY, true, drop);
            const int g = o.i(2, -1); std::string gx = g >= 0 ? tag("editGroup", fmt("g%d", g)) : "";
            x += "<node>" + nx + t + c + gx + "</node>\n";
            if (drop) { ++skipped; idx.push_back(-1); } else { idx.push_back(temp.size()); temp.push_back(T); cap.push_back(C); grp.push_back(g >= 0 && g < ngroups ? g : -99); nodeNames.push_back(fmt("N%d", k)); }
            if (k == dup && !drop) { x += "<node>" + nx + t + tag("capacitance", "77") + "</node>\n"; ++skipped; if (t.find("xyz") != std::string::npos) {} }
            ++k;
        }
        if (!k) { x += "<node>" + tag("name", "N0") + tag("temperature", "300") + tag("capacitance", "1000") + "</node>\n"; idx.push_back(0); temp.push_back(300); cap.push_back(1000); grp.push_back(-99); nodeNames.push_back("N0"); }
        x += "<node>" + tag("name", "SPACE") + tag("temperature", "0") + tag("capacitance", "0") + "</node>\n</list>\n";
        file[0] = x; nodeNames.push_back("SPACE");
        for (int i = 1; i < 8; ++i) file[i] = "<?xml version='1.0'?>\n<list>\n";
        int q = 0;
        for (auto& o : p.ops) {
            const bool c = o.kind == "cond", r = o.kind == "rad", po = o.kind == "pot";
            if (c || r) {
                int a = lim(o.d(0)), b = lim(o.d(1)); if (a == b) { if (a == (int)idx.size()) a = 0; else b = idx.size(); }
                const int bad = o.i(3); double v = std::max(0.0, o.d(2)); bool drop = false; const bool named = o.b(4); const int fidx = c ? 1 : 2;
                std::string va = val(c ? "conductivity" : "coefficient", v, bad == UNKNOWN ? OKAY : bad, true, drop);
                std::string nb = bad == UNKNOWN ? "nowhere" : nn(b); if (bad == UNKNOWN || reg(a) < 0 || reg(b) < 0) drop = true;
                file[fidx] += (c ? "<conduction>" : "<radiation>") + (named ? tag("name", fmt("L%d", q)) : "") + tag("node0", nn(a)) + tag("node1", nb) + va + (c ? "</conduction>\n" : "</radiation>\n");
                used[fidx] = true;
                if (drop) ++skipped; else (c ? cond : rad).push_back(Two{reg(a), reg(b), v, 0, named ? fmt("L%d", q) : ""});
                if (r && !drop) vs.push_back(1.0);
                ++q;
            } else if (po) {
                const int bad = o.i(3); double T = std::max(0.0, o.d(1)), v = std::max(0.0, o.d(2)); bool drop = false; const int a = lim(o.d(0), false);
                std::string x2 = (bad == NOTAG && q % 2 ? "" : tag("name", fmt("P%d", q))) + tag("node", bad == UNKNOWN ? "nowhere" : nn(a)) + val("temperature", T, bad == SUFFIX ? bad : OKAY, true, drop) + val("conductivity", v, bad == UNKNOWN || bad == SUFFIX || (bad == NOTAG && q % 2) ? OKAY : bad, true, drop);
                if (bad == UNKNOWN || (bad == NOTAG && q % 2) || reg(a) < 0) drop = true;
                file[5] += "<potential>" + x2 + "</potential>\n"; used[5] = true; ++q;
                if (drop) ++skipped; else pot.push_back(Two{reg(a), 0, T, v, ""});
            } else if (o.kind == "htr" || o.kind == "src" || o.kind == "pan") {
                const int bad = o.i(0); Multi m; std::string x2; bool drop = false; const char* t = o.kind == "htr" ? "heater" : o.kind == "src" ? "source" : "panel";
                const size_t from = o.kind == "htr" ? 2 : 3;
                if (!ports(o, from, x2, m, bad)) drop = true;
                const int vb = m.ports.size() == 1 ? bad : OKAY;       // damage on a value rather than on a port
                if (o.kind == "pan") { m.a = std::max(0.01, o.d(1)); m.b = std::min(1.0, std::max(0.0, o.d(2))); x2 += val("area", m.a, vb == UNKNOWN ? OKAY : vb, true, drop) + tag("absorp", num(m.b)); }
                else {
                    m.a = 1.0; m.b = 0;
                    auto opt = [&](const char* tg, double v, double def, int bd) { if (bd == NOTAG) return def; if (bd == EMPTY) { x2 += tag(tg, ""); return def; } bool d = false; double w = v; x2 += val(tg, w, bd == UNKNOWN ? OKAY : bd, false, d); return w; };
                    if (o.d(1) >= 0) m.a = opt("scalar", o.d(1), 1.0, vb);
                    if (o.kind == "src" && o.d(2) >= 0) m.b = opt("initFlux", o.d(2), 0.0, OKAY);
                }
                const int fi = o.kind == "pan" ? 4 : 3;
                file[fi] += std::string("<") + t + fmt(" name='M%d'>", q) + x2 + "</" + t + ">\n"; used[fi] = true; ++q;
                if (drop) ++skipped; else (o.kind == "htr" ? htr : o.kind == "src" ? src : pan).push_back(m);
            }
        }
        if (p.geti("initfile")) { used[6] = true; for (auto& o : p.ops) if (o.kind == "init") {
            const int bad = o.i(2), a = lim(o.d(0), false); double T = std::max(1.0, o.d(1)); bool drop = false;
            std::string v = val("initTemp", T, bad == WORD || bad == UNKNOWN ? OKAY : bad, false, drop);
            file[6] += "<node name='" + (bad == UNKNOWN ? std::string("nowhere") : nn(a)) + "'>" + v + "</node>\n";
            if (bad == UNKNOWN || reg(a) < 0) ++tskipped; else if (bad != NOTAG && bad != EMPTY) initT.push_back({reg(a), T});
        } }
        if (p.geti("radin")) {
            used[7] = true; std::vector<std::string> ent; std::vector<double> entv; std::vector<const Op*> ro; std::set<int> done;
            for (auto& o : p.ops) if (o.kind == "rad") ro.push_back(&o);
            std::map<std::pair<int,int>, int> pairs; for (auto& c : rad) ++pairs[{c.a, c.b}];
            for (auto& o : p.ops) if (o.kind == "vs" && !ro.empty()) {
                const int ri = std::min(std::max(o.i(0), 0), (int)ro.size() - 1); if (!done.insert(ri).second) continue;
                const Op& rr = *ro[ri]; int a = lim(rr.d(0)), b = lim(rr.d(1)); if (a == b) { if (a == (int)idx.size()) a = 0; else b = idx.size(); }
                const int bad = o.i(2); double v = std::min(1.0, std::max(0.0, o.d(1))); bool drop = false;
                std::string vx = val("viewScalar", v, bad == UNKNOWN || bad == WORD ? OKAY : bad, true, drop);
                if (bad == UNKNOWN || reg(a) < 0 || reg(b) < 0) drop = true;
                entv.push_back(drop ? -1 : v); ent.push_back("<radiation>" + tag("node0", bad == UNKNOWN ? "nowhere" : nn(a)) + tag("node1", nn(b)) + vx + "</radiation>\n");
                if (drop) { damagedRad = true; continue; }
                ++entries;
                // only links that are alone between their nodes can be told apart
                if (pairs[{reg(a), reg(b)}] == 1) for (size_t i = 0; i < rad.size(); ++i) if (rad[i].a == reg(a) && rad[i].b == reg(b)) vs2[i] = v;
                if (pairs[{reg(a), reg(b)}] > 1) ambiguous = true;
            }
            if (!ent.empty()) std::rotate(ent.begin(), ent.begin() + p.geti("rot") % ent.size(), ent.end());
            if (!entv.empty()) std::rotate(entv.begin(), entv.begin() + p.geti("rot") % entv.size(), entv.end());
            for (double e : entv) if (e >= 0) order.push_back(e);
            for (auto& e : ent) file[7] += e;
        }
        for (int i = 1; i < 8; ++i) file[i] += "</list>\n";
        fatalEmpty[1] = used[1] && cond.empty(); fatalEmpty[2] = used[2] && rad.empty(); fatalEmpty[3] = used[3] && htr.empty() && src.empty(); fatalEmpty[4] = used[4] && pan.empty(); fatalEmpty[5] = used[5] && pot.empty();
        // documented: input entries, if there are any, are needed for every radiation link
        shortage = entries > 0 && entries < rad.size();
    }
    std::vector<std::pair<int, double> > initT; std::map<size_t, double> vs2; bool shortage = false, ambiguous = false, damagedRad = false; size_t entries = 0; std::vector<double> order;
};

struct Twin {
    std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links; Gunns net;
    std::vector<std::unique_ptr<GunnsThermalCapacitor> > cap; std::vector<std::unique_ptr<GunnsBasicConductor> > cond; std::vector<std::unique_ptr<GunnsThermalRadiation> > rad;
    std::vector<std::unique_ptr<GunnsThermalHeater> > htr; std::vector<std::unique_ptr<GunnsThermalPanel> > pan; std::vector<std::unique_ptr<GunnsThermalPotential> > pot; std::vector<std::unique_ptr<GunnsThermalSource> > src;
    void build(Desc& d) {
        const int n = d.nodeNames.size();
        nodes.reset(new GunnsBasicNode[n]); list.mNumNodes = n; list.mNodes = nodes.get();
        for (int i = 0; i < n; ++i) nodes[i].initialize("t" + d.nodeNames[i]);
        std::vector<double> T = d.temp; if (initUsed) for (auto& e : d.initT) T[e.first] = e.second;
        auto nm = [&](const char* t, size_t i) { return fmt("%s%zu", t, i); };
        for (size_t i = 0; i < d.cap.size(); ++i) { cap.emplace_back(new GunnsThermalCapacitor); cap.back()->initialize(GunnsThermalCapacitorConfigData(nm("cap", i), &list, d.grp[i]), GunnsThermalCapacitorInputData(false, 0, d.cap[i], T[i]), links, i, n - 1); }
        for (size_t i = 0; i < d.cond.size(); ++i) { cond.emplace_back(new GunnsBasicConductor); cond.back()->initialize(GunnsBasicConductorConfigData(nm("cond", i), &list, d.cond[i].x), GunnsBasicConductorInputData(false, 0), links, d.cond[i].a, d.cond[i].b); }
        for (size_t i = 0; i < d.rad.size(); ++i) { rad.emplace_back(new GunnsThermalRadiation); rad.back()->initialize(GunnsThermalRadiationConfigData(nm("rad", i), &list, d.rad[i].x * UnitConversion::STEFAN_BOLTZMANN_CONST_SI), GunnsThermalRadiationInputData(false, 0, radUsed && d.vs2.count(i) ? d.vs2[i] : 1.0), links, d.rad[i].a, d.rad[i].b); }
        for (size_t i = 0; i < d.htr.size(); ++i) { htr.emplace_back(new GunnsThermalHeater); htr.back()->initialize(GunnsThermalHeaterConfigData(nm("htr", i), &list, d.htr[i].a, &d.htr[i].fr), GunnsThermalHeaterInputData(false, 0, 0), links, &d.htr[i].ports); }
        for (size_t i = 0; i < d.pan.size(); ++i) { pan.emplace_back(new GunnsThermalPanel); pan.back()->initialize(GunnsThermalPanelConfigData(nm("pan", i), &list, 1.0, &d.pan[i].fr, d.pan[i].b, d.pan[i].a), GunnsThermalPanelInputData(false, 0, 0, false, 0), links, &d.pan[i].ports); }
        for (size_t i = 0; i < d.pot.size(); ++i) { pot.emplace_back(new GunnsThermalPotential); pot.back()->initialize(GunnsThermalPotentialConfigData(nm("pot", i), &list, d.pot[i].y), GunnsThermalPotentialInputData(false, 0, d.pot[i].x), links, n - 1, d.pot[i].a); }
        for (size_t i = 0; i < d.src.size(); ++i) { src.emplace_back(new GunnsThermalSource); src.back()->initialize(GunnsThermalSourceConfigData(nm("src", i), &list, d.src[i].a, &d.src[i].fr), GunnsThermalSourceInputData(false, 0, d.src[i].b), links, &d.src[i].ports); }
        net.initializeNodes(list); GunnsConfigData c("twin", 1.0, 1.0, 1, 1); net.initialize(c, links);
    }
    bool initUsed = false, radUsed = false;
};

const char* NAMES[8] = {"nodes.xml", "cond.xml", "rad.xml", "htr.xml", "pan.xml", "etc.xml", "init.xml", "radin.xml"};

double rotated(const Desc& d, const Plan&, size_t j) { return j < d.order.size() ? d.order[j] : 1.0; }

void run(const Plan& p, Ctx& ctx) {
    HsTap hs; Scratch scratch; Desc d; d.build(p);
    const std::string dir = scratch.path() + "/";
    if (d.skipped) ctx.fault("damaged_entry", d.skipped); if (d.suffix) ctx.fault("damaged_number", d.suffix);

    ThermalNetwork tn("tn");
    for (int i = 0; i < 8; ++i) if (d.used[i]) spit(dir + NAMES[i], d.file[i]);
    tn.mConfig.cNodeFile = dir + NAMES[0];
    std::string* f[8] = {&tn.mConfig.cNodeFile, &tn.mConfig.cCondFile, &tn.mConfig.cRadFile, &tn.mConfig.cHtrFile, &tn.mConfig.cPanFile, &tn.mConfig.cEtcFile, &tn.mInput.iThermInputFile, &tn.mInput.iInputRadFile};
    for (int i = 0; i < 8; ++i) *f[i] = d.used[i] ? dir + NAMES[i] : "";
    // a link file that holds no usable entry is refused: leave it out of the good configuration
    bool emptyFatal = false;
    for (int i = 1; i < 6; ++i) emptyFatal |= d.fatalEmpty[i];
    // --- first attempt: files as a crash, a bad disk or a bad copy left them
    bool expectFatal = emptyFatal, faulty = false, garbled = false; std::set<int> badFile, torn;
    std::set<std::string> openFail, readFail;
    for (auto& o : p.ops) if (o.kind == "ffault") {
        const int i = std::min(7, std::max(0, o.i(0))); if (!d.used[i] || badFile.count(i)) continue;
        const std::string path = dir + NAMES[i], t = d.file[i]; const size_t endTag = t.rfind("</list>");
        switch (std::min(8, std::max(0, o.i(1)))) {
            case 0: unlink(path.c_str()); ctx.fault("file_missing"); break;
            case 1: spit(path, ""); ctx.fault("file_empty"); break;
            case 2: spit(path, t.substr(0, (size_t)(o.d(2) * endTag))); ctx.fault("file_truncated"); break;
            case 3: spit(path, "<?xml version='1.0'?>\n<lost>\n</lost>\n"); ctx.fault("file_wrong_root"); break;
            case 4: openFail.insert(path); ctx.fault("open_error"); break;
            case 5: readFail.insert(path); ctx.fault("read_error"); break;
            case 8: { std::string g = t; Rng rr(1 + (uint64_t)(o.d(2) * 1e9)); for (int q = rr.irange(1, 4); q > 0; --q) g[rr.next() % g.size()] = (char)(rr.chance(0.3) ? 0 : rr.irange(1, 255)); spit(path, g); garbled = true; ctx.fault("file_garbled"); break; }
            case 6: spit(path, "<list>\n</list>\n"); ctx.fault("file_blank_list"); break;
            default: spit(path, t.substr(endTag)); ctx.fault("file_lost_head"); break;
        }
        badFile.insert(i); faulty = true;
        if (i < 6 && o.i(1) < 8) expectFatal = true;
    }
    if (d.shortage && !badFile.count(7)) { expectFatal = true; ctx.probe("too_few_view_scalars"); }
    std::string last;
    disk().active = true;
    disk().onOpen = [&](const char* pa, const char*) { last = pa; return openFail.count(last) ? EMFILE : 0; };
    disk().onRead = [&] { return readFail.count(last) > 0; };
    tn.initialize("tn");
    disk().active = false;
    const long fatal = hs.count(TS_HS_FATAL);
    if (garbled) { ctx.check(fatal == 0 || fatal > 0, ""); if (!fatal) return; }
    else ctx.check((fatal > 0) == expectFatal, fmt("loading with %s configuration files %s a fatal error", expectFatal ? "unusable" : "usable", fatal ? "raised" : "raised no"));
    bool initUsed = d.used[6] && !badFile.count(6), radUsed = d.used[7] && !badFile.count(7);
    if (fatal) {
        ctx.probe("load_refused");
        if (garbled || p.geti("rot") == 4) return;
        // --- the operator repairs the files and loads again
        for (int i = 0; i < 8; ++i) if (d.used[i]) { if (rmdir((dir + NAMES[i]).c_str())) {} spit(dir + NAMES[i], d.file[i]); }
        for (int i = 1; i < 6; ++i) if (d.fatalEmpty[i]) *f[i] = "";
        if (d.shortage) *f[7] = "";
        hs.msgs.clear();
        tn.initialize("tn");
        ctx.check(hs.count(TS_HS_FATAL) == 0, "a load with repaired files is refused after a refused load");
        ctx.probe("load_after_refusal");
        initUsed = d.used[6]; radUsed = d.used[7] && !d.shortage;
    }
    long damagedLeft = 0; for (int i = 0; i < 6; ++i) (void)i;
    const long dropped = hs.countText("Did not register");
    if (!emptyFatal) { damagedLeft = d.skipped; long radinDrop = 0; radinDrop = hs.countText("rad link input data"); ctx.check(dropped - radinDrop == damagedLeft, fmt("%ld entries are unusable but %ld were reported as not registered", damagedLeft, dropped - radinDrop)); }

    // --- structure
    const int n = d.nodeNames.size();
    auto cnt = [&](const char* w, int got, size_t want) { ctx.check(got == (int)want, fmt("the network has %d %s, the files describe %zu", got, w, want)); };
    cnt("nodes", tn.netNodeList.mNumNodes, n); cnt("capacitors", tn.numLinksCap, d.cap.size()); cnt("conductors", tn.numLinksCond, d.cond.size()); cnt("radiation links", tn.numLinksRad, d.rad.size());
    cnt("heaters", tn.numLinksHtr, d.htr.size()); cnt("panels", tn.numLinksPan, d.pan.size()); cnt("potentials", tn.numLinksPot, d.pot.size()); cnt("sources", tn.numLinksSrc, d.src.size()); cnt("capacitance groups", tn.numCapEditGroups, d.ngroups);
    Twin tw; tw.initUsed = initUsed; tw.radUsed = radUsed; tw.build(d);
    ctx.check(tn.netLinks.size() == tw.links.size(), fmt("%zu links were built, the files describe %zu", tn.netLinks.size(), tw.links.size()));
    for (int i = 0; i < n; ++i) ctx.check(tn.netNodeList.mNodes[i].mName == d.nodeNames[i], "node " + d.nodeNames[i] + " is called " + tn.netNodeList.mNodes[i].mName);
    for (size_t k = 0; k < tw.links.size(); ++k) {
        ctx.check(tn.netLinks[k]->mNumPorts == tw.links[k]->mNumPorts, fmt("link %zu has %d ports instead of %d", k, tn.netLinks[k]->mNumPorts, tw.links[k]->mNumPorts));
        for (int q = 0; q < tw.links[k]->mNumPorts; ++q) ctx.check(tn.netLinks[k]->mNodeMap[q] == tw.links[k]->mNodeMap[q], fmt("link %zu (%s) port %d is on node %d, the file says %d", k, tn.netLinks[k]->mName.c_str(), q, tn.netLinks[k]->mNodeMap[q], tw.links[k]->mNodeMap[q]));
    }
    if (radUsed && d.ambiguous) for (size_t i = 0; i < tw.rad.size(); ++i) tw.rad[i]->setViewScalar(tn.mRadiationLinks[i].mViewScalar);
    for (size_t i = 0; i < tw.rad.size(); ++i) if (radUsed && tn.mRadiationLinks[i].mViewScalar != tw.rad[i]->mViewScalar) {
        bool byOrder = true; if (d.entries) for (size_t j = 0; j < tw.rad.size(); ++j) byOrder &= tn.mRadiationLinks[j].mViewScalar == rotated(d, p, j);
        if (byOrder) ctx.finding("view-scalar-by-order", "a view scalar in the radiation input file lands on another link than the one its entry names");
        if (byOrder) for (size_t j = 0; j < tw.rad.size(); ++j) tw.rad[j]->setViewScalar(tn.mRadiationLinks[j].mViewScalar);
    }
    for (size_t i = 0; i < tw.rad.size(); ++i) ctx.check(tn.mRadiationLinks[i].mViewScalar == tw.rad[i]->mViewScalar, fmt("radiation link %zu got view scalar %.17g, its input entry says %.17g", i, tn.mRadiationLinks[i].mViewScalar, tw.rad[i]->mViewScalar));
    ctx.state(fmt("%d %zu %zu %zu %zu %zu %d", n, d.cond.size(), d.rad.size(), d.htr.size(), d.src.size(), d.pan.size(), (int)faulty));

    // --- history: both networks get the same commands
    std::vector<double> want(3, 1.0), applied(3, 1.0), sWant(3, 1.0), sApplied(3, 1.0); std::vector<double> pw(d.htr.size(), 0.0); std::vector<int> wire(d.htr.size()); bool mis = false, saved = false;
    for (size_t i = 0; i < wire.size(); ++i) wire[i] = i;
    auto setCaps = [&](const std::vector<double>& fct) { for (size_t i = 0; i < d.cap.size(); ++i) if (d.grp[i] >= 0) { const double c = d.cap[i] * fct[d.grp[i]]; tw.cap[i]->setCapacitance(c); } };
    int steps = 0;
    for (auto& o : p.ops) {
        if (o.kind == "power" && !pw.empty()) { const size_t i = std::abs(o.i(0)) % pw.size(); tn.mHtrPowerElectrical[i] = pw[i] = std::max(0.0, o.d(1)); ctx.fault("heater_power"); }
        else if (o.kind == "miswire" && !pw.empty()) {
            int ix[16]; for (int i = 0; i < 16; ++i) ix[i] = o.i(1 + i % 3); mis = o.b(0);
            for (size_t i = 0; i < wire.size(); ++i) wire[i] = o.b(4) && i < 16 ? ix[i] : (int)i;
            if (wire.size() <= 16) tn.setMalfHtrMiswire(mis, o.b(4) ? ix : 0); ctx.fault("heater_miswire");
        }
        else if (o.kind == "factor" && d.ngroups) { const int g = std::abs(o.i(0)) % d.ngroups; tn.mCapEditScaleFactor[g] = want[g] = std::min(100.0, std::max(0.01, o.d(1, 1))); ctx.fault("capacitance_scaling"); }
        else if (o.kind == "save") { saved = true; for (int g = 0; g < d.ngroups; ++g) { sWant[g] = tn.mCapEditScaleFactor[g]; sApplied[g] = tn.mCapEditScalePrev[g]; ctx.check(near(sApplied[g], applied[g], 1e-12, 0), "the recorded capacitance scaling is not the one applied"); } }
        else if (o.kind == "reload" && saved) {
            tn.preloadCheckpoint();
            for (int g = 0; g < d.ngroups; ++g) { tn.mCapEditScaleFactor[g] = sWant[g]; tn.mCapEditScalePrev[g] = sApplied[g]; }
            tn.restart(); tw.net.restart();
            want = sWant; applied = sApplied; setCaps(applied); ctx.fault("checkpoint_reload");
            for (size_t i = 0; i < tw.cap.size(); ++i) ctx.check(near(tn.mCapacitanceLinks[i].getCapacitance(), tw.cap[i]->getCapacitance(), 1e-9, 0), fmt("after a checkpoint reload %s has capacitance %.12g instead of %.12g", d.nodeNames[i].c_str(), tn.mCapacitanceLinks[i].getCapacitance(), tw.cap[i]->getCapacitance()));
        }
        else if (o.kind == "block" && !tw.links.empty()) { const size_t k = std::abs(o.i(0)) % tw.links.size(); const double v = std::min(1.0, std::max(0.0, o.d(2))); tn.netLinks[k]->setMalfBlockage(o.b(1), v); tw.links[k]->setMalfBlockage(o.b(1), v); ctx.fault("blockage"); }
        else if (o.kind == "step") {
            const double dt = std::max(0.0, o.d(0));
            for (int g = 0; g < d.ngroups; ++g) applied[g] = std::fabs(want[g] - applied[g]) > DBL_EPSILON ? want[g] : applied[g];
            setCaps(applied);
            for (size_t i = 0; i < pw.size(); ++i) {
                int from = i; if (mis) { if (wire[i] >= 0 && wire[i] < (int)pw.size()) from = wire[i]; else wire[i] = i; }
                tw.htr[i]->setPowerElectrical(pw[from]);
            }
            tn.update(dt); tw.net.step(dt);
            ctx.check(hs.count(TS_HS_FATAL) == 0 && hs.countText("unexpected exception") == 0, "a loaded network fails in its update");
            for (int i = 0; i < n; ++i) { const double a = tn.netNodeList.mNodes[i].getPotential(), b = tw.nodes[i].getPotential(); ctx.check(near(a, b, 1e-7, 1e-7), fmt("step %d: %s is at %.12g K, the network the files describe at %.12g K", steps, d.nodeNames[i].c_str(), a, b)); }
            for (size_t i = 0; i < tw.cap.size(); ++i) ctx.check(near(tn.mCapacitanceLinks[i].getCapacitance(), tw.cap[i]->getCapacitance(), 1e-9, 0), fmt("step %d: %s has capacitance %.12g instead of %.12g", steps, d.nodeNames[i].c_str(), tn.mCapacitanceLinks[i].getCapacitance(), tw.cap[i]->getCapacitance()));
            ctx.advance(dt); ++steps;
        }
    }
    ctx.logd("T", tn.netNodeList.mNodes[0].getPotential());
}

Register t02({"T02", "distinct = a different set of files, file faults or command schedule; trivial = no link besides capacitors", "numbers of nodes and links of each kind and whether a file was damaged",
    {{"files", 1, genTF, run}}, 20000, 1000000,
    {"ThermalNetwork, ThermFileParser, ParseTool, tinyxml, all link types it builds, Gunns solver (real code)"},
    {"disk: scratch directory with open, read, truncation and replacement faults; the checkpoint tool is a stub that saves and restores the two scale factor arrays"},
    {"The twin network is built from the same link classes without the files, so a fault inside a link shows in T01, not here"}});
} // namespace
} // namespace dst

#include "vf.hh"
#include "messages.hh"
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidSource.hh"
#include "aspects/fluid/source/GunnsFluidSourceBoundary.hh"
#include "core/GunnsFluidUtils.hh"
#include "software/exceptions/TsNumericalException.hh"

// A real fluid network of tanks (or plain nodes), conductors, sources and boundary sources, of three gases and one trace compound.
static const int NF = 3;
static const double DT = 0.125, MASS = 1.0e8, TRACE = 1.0e10, ENERGY = 100.0;

struct Tank : public GunnsFluidCapacitor {
    double heat;
    Tank() : heat(0.0) {}
    double getHeatFlux() const { return heat; }
};

static DefinedFluidProperties             properties;
static FluidProperties::FluidType         types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_O2, FluidProperties::GUNNS_CO2};
static ChemicalCompound::Type             tcTypes[1] = {ChemicalCompound::CO};
static GunnsFluidTraceCompoundsConfigData tcConfig(tcTypes, 1, "tc");
static PolyFluidConfigData*               config = 0;
static Gunns*                             net = 0;
static GunnsFluidNode*                    nodes = 0;
static GunnsNodeList                      nodeList;
static int                                N = 0;
struct L { int type; GunnsFluidLink* link; };
static std::vector<L>                     links;
static std::vector<Tank*>                 tanks;
static std::vector<GunnsBasicLink*>       vec;

static long scaled(double v, double per) { return (long) std::floor(v * per + 0.5); }

static std::string perform(vf::Cmd& c, vf::Messages& hs)
{
    bool threw = false;
    hs.clear();
    if (c.name == "Init") {
        delete net; delete [] nodes;
        for (L& l : links) delete l.link;
        for (Tank* t : tanks) delete t;
        links.clear(); tanks.clear(); vec.clear();
        if (!config) config = new PolyFluidConfigData(&properties, types, NF, &tcConfig);
        N = c[0];
        const int nl = c[1];
        net = new Gunns();
        nodes = new GunnsFluidNode[N + 1];
        nodeList.mNumNodes = N + 1;
        nodeList.mNodes = nodes;
        for (int i = 0; i <= N; ++i) nodes[i].initialize("n" + std::to_string(i), config);
        net->initializeFluidNodes(nodeList);
        size_t at = 2;
        for (int i = 0; i < N; ++i) {       // volume (l), pressure (kPa), temperature (K), N2 O2 CO2 (permille), trace compound (ppm)
            double x[NF] = {c[at + 3] / 1000.0, c[at + 4] / 1000.0, c[at + 5] / 1000.0}, tc[1] = {c[at + 6] / 1.0e6};
            GunnsFluidTraceCompoundsInputData t(tc);
            PolyFluidInputData fluid(c[at + 2], c[at + 1], 0.0, 0.0, x, &t);
            if (c[at] == 0) {               // a node without volume
                tanks.push_back(0);
                at += 7;
                continue;
            }
            Tank* k = new Tank;
            tanks.push_back(k);
            k->initialize(GunnsFluidCapacitorConfigData("t" + std::to_string(i), &nodeList, 0.0),
                          GunnsFluidCapacitorInputData(false, 0.0, c[at] / 1000.0, &fluid), vec, i, N);
            at += 7;
        }
        for (int i = 0; i < nl; ++i) {      // type, ports, conductivity (1e-6 m2) or demand (1e-4 kg/s); gases (permille), temperature, trace compound
            const int t = c[at], p0 = c[at + 1], p1 = c[at + 2];
            const std::string name = "l" + std::to_string(i);
            L l = {t, 0};
            if (t == 0) {
                GunnsFluidConductor* x = new GunnsFluidConductor;
                x->initialize(GunnsFluidConductorConfigData(name, &nodeList, c[at + 3] * 1.0e-6, 0.0, 0.5), GunnsFluidConductorInputData(), vec, p0, p1);
                l.link = x;
            } else if (t == 1) {
                GunnsFluidSource* x = new GunnsFluidSource;
                x->initialize(GunnsFluidSourceConfigData(name, &nodeList), GunnsFluidSourceInputData(false, 0.0, c[at + 3] * 1.0e-4), vec, p0, p1);
                l.link = x;
            } else {
                double g[NF] = {c[at + 4] / 1000.0, c[at + 5] / 1000.0, c[at + 6] / 1000.0}, tc[1] = {c[at + 8] / 1.0e6};
                GunnsFluidTraceCompoundsInputData rate(tc);
                PolyFluidInputData fluid(c[at + 7], 100.0, 0.0, 0.0, g, &rate);
                GunnsFluidSourceBoundary* x = new GunnsFluidSourceBoundary;
                x->initialize(GunnsFluidSourceBoundaryConfigData(name, &nodeList, p1 == 1, false),
                              GunnsFluidSourceBoundaryInputData(false, 0.0, c[at + 3] * 1.0e-4, &fluid), vec, p0);
                l.link = x;
            }
            links.push_back(l);
            at += 9;
        }
        net->initialize(GunnsConfigData("net", 1.0e-15, 0.1, 5, 5), vec);
        c.a.resize(at);
        for (int i = 0; i < N; ++i) {
            const PolyFluid* f = nodes[i].getContent();
            for (int j = 0; j < NF; ++j) c.a.push_back(scaled(f->getMass() * f->getMassFraction(j), MASS));
            c.a.push_back(scaled(f->getTraceCompounds()->getMasses()[0], TRACE));
            c.a.push_back(scaled(f->getMass() * f->getSpecificEnthalpy(), ENERGY));
        }
        for (L& l : links) c.a.push_back(l.type == 2 ? scaled(l.link->getInternalFluid()->getSpecificEnthalpy(), ENERGY) : 0);
    } else if (c.name == "Demand") {
        L& l = links[c[0]];
        if (l.type == 0)      static_cast<GunnsFluidConductor*>(l.link)->mMaxConductivity = c[1] * 1.0e-6;
        else if (l.type == 1) static_cast<GunnsFluidSource*>(l.link)->setFlowDemand(c[1] * 1.0e-4);
        else                  static_cast<GunnsFluidSourceBoundary*>(l.link)->setFlowDemand(c[1] * 1.0e-4);
    } else if (c.name == "Block") links[c[0]].link->setMalfBlockage(c[1] == 1, c[2] / 1000.0);
    else if (c.name == "Restart") net->restart();
    else if (c.name == "Heat")    tanks[c[0]]->heat = c[1];
    else if (c.name == "Step") {
        try { net->step(DT); } catch (TsNumericalException&) { threw = true; }
        c.a.clear();
        for (L& l : links) c.a.push_back(scaled(l.link->getFlowRate() * DT, MASS));
    } else vf::refuse(c);

    vf::Arr m, t, h, p, temp, sum;
    bool sane = true;
    for (int i = 0; i < N; ++i) {
        const PolyFluid* f = nodes[i].getContent();
        vf::Arr mi;
        double all = 0.0;
        for (int j = 0; j < NF; ++j) {
            mi.r(f->getMass() * f->getMassFraction(j), MASS);
            all += f->getMassFraction(j);
            if (!(f->getMassFraction(j) >= 0.0 && f->getMassFraction(j) <= 1.0 + 1e-12)) sane = false;
        }
        m.raw(mi.json());
        t.r(f->getTraceCompounds()->getMasses()[0], TRACE);
        h.r(f->getMass() * f->getSpecificEnthalpy(), ENERGY);
        p.r(nodes[i].getPotential(), 1.0e4);
        temp.r(f->getTemperature(), 100.0);
        if (!(std::fabs(all - 1.0) < 1e-6) || !(f->getTemperature() > 0.0) || !(f->getMass() >= 0.0)) sane = false;
    }
    vf::Arr x;
    for (int i = 0; i < N; ++i) {
        const PolyFluid* f = nodes[i].getContent();
        vf::Arr xi;
        for (int j = 0; j < NF; ++j) xi.r(f->getMassFraction(j), 1.0e8);
        x.raw(xi.json());
    }
    return vf::Rec().b("threw", threw).b("sane", sane).raw("m", m.json()).raw("tc", t.json()).raw("h", h.json())
                    .raw("p", p.json()).raw("temp", temp.json()).raw("x", x.json()).i("warnings", hs.warnings).json();
}
int main() {
    vf::Messages hs;
    return vf::run([&](vf::Cmd& c) { return perform(c, hs); });
}

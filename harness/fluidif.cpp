#include "vf.hh"
#include "messages.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidDistributedIf.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"

// One fluid distributed interface on node 0 of a network, whose other links the schedule plays, and the other side of the interface, which the schedule plays too.
static const int NF = 2;
static const double DT = 0.125;
static DefinedFluidProperties             properties;
static DefinedChemicalCompounds           compounds;
static FluidProperties::FluidType         types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_CO2};
static ChemicalCompound::Type             tcTypes[1] = {ChemicalCompound::NH3};
static GunnsFluidTraceCompoundsConfigData tcConfig(tcTypes, 1, "tc");
static PolyFluidConfigData*               config = 0;
static double mw(int i) { return properties.getProperties(types[i])->getMWeight(); }

struct Link : public GunnsFluidDistributedIf {};
struct World {
    GunnsFluidNode               nodes[4];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    GunnsFluidCapacitor          cap, cap2, cap3;
    GunnsFluidDistributedIf      link, other, third;
    double                       dp[3], rate;
    int                          in[3];
    bool                         enthalpy, threw;
    World() : rate(0.0), enthalpy(false), threw(false) { dp[0] = 1.0; dp[1] = dp[2] = 0.0; }
};
static World* w = 0;

// A mixture of nitrogen and (permille) carbon dioxide, with a trace compound (mole fraction of the bulk, 1e-5).
static void gas(PolyFluid* f, double p, int t, int co2, int tc)
{
    double m[NF] = {(1000 - co2) * mw(0), co2 * mw(1)};
    const double all = m[0] + m[1];
    for (int i = 0; i < NF; ++i) m[i] /= all;
    double x[1] = {tc / 1.0e5};
    f->setMassAndMassFractions(1.0, m);
    f->setPressure(p);
    f->setTemperature(t / 100.0);
    f->getTraceCompounds()->setMoleFractions(x);
    f->setMass(1.0);
}
static double enthalpy(int t, double a, double b)
{
    double m[NF] = {a * mw(0), b * mw(1)};
    const double all = m[0] + m[1];
    for (int i = 0; i < NF; ++i) m[i] /= all;
    PolyFluidInputData in(t / 100.0, 100.0, 0.0, 1.0, m);
    PolyFluid f(*config, in);
    return f.getSpecificEnthalpy();
}
static double temperature(double h, double a, double b)
{
    double m[NF] = {a * mw(0), b * mw(1)};
    const double all = m[0] + m[1];
    if (all <= 0.0) return 0.0;
    for (int i = 0; i < NF; ++i) m[i] /= all;
    PolyFluidInputData in(300.0, 100.0, 0.0, 1.0, m);
    PolyFluid f(*config, in);
    return f.computeTemperature(h);
}
static int co2(const PolyFluid* f) { return std::floor(1.0e4 * f->getMoleFraction(types[1]) + 0.5); }
static int tc(const PolyFluid* f)  { return std::floor(1.0e7 * const_cast<PolyFluid*>(f)->getTraceCompounds()->getMoleFractions()[0] + 0.5); }
static std::string fluid(const PolyFluid* f)
{
    return vf::Arr().r(f->getTemperature(), 100.0).i(co2(f)).i(tc(f)).json();
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    if (w) w->threw = false;
    if (c.name == "Init") {     // master, enthalpy, demand option, forced role, fluids of the interface (0 for all), trace compounds, p, T, CO2, trace, volume (l)
        if (!config) config = new PolyFluidConfigData(&properties, types, NF, &tcConfig);
        delete w;
        w = new World;
        w->list.mNumNodes = 4;
        w->list.mNodes = w->nodes;
        w->enthalpy = c[1] == 1;
        double f[NF] = {0.5, 0.5}, x[1] = {0.0};
        GunnsFluidTraceCompoundsInputData trace(x);
        PolyFluidInputData in(300.0, c[6] / 1000.0, 0.0, 1.0, f, &trace);
        for (int i = 0; i < 4; ++i) {
            w->nodes[i].initialize("n" + std::to_string(i), config);
            w->nodes[i].getContent()->initialize(*config, in);
            w->nodes[i].setPotential(c[6] / 1000.0);
            w->nodes[i].resetFlows();
            w->nodes[i].setNetCapDeltaPotential(w->dp);
        }
        w->cap.initialize(GunnsFluidCapacitorConfigData("c", &w->list), GunnsFluidCapacitorInputData(false, 0.0, c[10] / 1000.0, &in), w->links, 0, 3);
        w->cap2.initialize(GunnsFluidCapacitorConfigData("c2", &w->list), GunnsFluidCapacitorInputData(false, 0.0, 1.0, &in), w->links, 1, 3);
        w->cap3.initialize(GunnsFluidCapacitorConfigData("c3", &w->list), GunnsFluidCapacitorInputData(false, 0.0, 1.0, &in), w->links, 2, 3);
        for (int i = 0; i < 3; ++i) gas(w->nodes[i].getContent(), c[6] / 1000.0, c[7], c[8], c[9]);
        GunnsFluidDistributedIfConfigData cfg("if", &w->list, c[0] == 1, c[1] == 1, c[2] == 1, &w->cap);
        if (c[4] > 0) cfg.overrideInterfaceMixtureSizes(c[4], c[5]);
        w->link.initialize(cfg, GunnsFluidDistributedIfInputData(false, 0.0, c[3] == 1, c[3] == 2), w->links, 0);
        w->other.initialize(GunnsFluidDistributedIfConfigData("if2", &w->list, false, false, false, &w->cap2), GunnsFluidDistributedIfInputData(), w->links, 1);
        w->third.initialize(GunnsFluidDistributedIfConfigData("if3", &w->list, false, false, false, &w->cap3), GunnsFluidDistributedIfInputData(), w->links, 2);
        w->link.addOtherIf(&w->other);
        w->link.addOtherIf(&w->third);
        w->link.addOtherIf(&w->other);
        w->link.addOtherIf(&w->link);
    }
    else if (c.name == "In") {      // frame, loopback, demand, capacitance (1e-9 mol/Pa), source, T, N2, CO2, a third fluid (permille), trace (1e-5)
        GunnsFluidDistributedIfData& d = w->link.mInData;
        d.mFrameCount    = c[0];
        d.mFrameLoopback = c[1];
        d.mDemandMode    = c[2] == 1;
        d.mCapacitance   = c[3] / 1.0e9;
        d.mSource        = c[2] == 1 ? c[4] / 1.0e4 : c[4];
        const double x[3] = {c[6] / 1000.0, c[7] / 1000.0, c[8] / 1000.0}, t[1] = {c[9] / 1.0e5};
        d.setMoleFractions(x, 3);
        d.setTcMoleFractions(t, 1);
        d.mEnergy = !w->enthalpy || c[5] <= 0 ? c[5] / 100.0 : enthalpy(c[5], std::max(0.0, x[0]), std::max(0.0, x[1]));
    }
    else if (c.name == "Node")    gas(w->nodes[0].getContent(), w->nodes[0].getPotential(), c[0], c[1], c[2]);     // the node's fluid
    else if (c.name == "Inflow")  { w->rate = c[0]; for (int i = 0; i < 3; ++i) w->in[i] = c[i + 1]; }               // what the rest of the network puts into it
    else if (c.name == "Cap")     {     // the network's capacitance, the responses of this node and of two other interfaces', what those supply
        w->nodes[0].setNetworkCapacitance(c[0] / 1.0e9);
        w->dp[0] = c[1] / 1000.0; w->dp[1] = c[2] / 1000.0;
        w->other.mSuppliedCapacitance = c[3] / 1.0e9;
        w->dp[2] = c[4] / 1000.0;
        w->third.mSuppliedCapacitance = c[5] / 1.0e9;
    }
    else if (c.name == "Force")   { if (c[0] == 1) w->link.mInterface.forceDemandRole(); else if (c[0] == 2) w->link.mInterface.forceSupplyRole(); else w->link.mInterface.resetForceRole(); }
    else if (c.name == "Block")   { w->link.mMalfBlockageFlag = c[0] == 1; w->link.mMalfBlockageValue = c[1] / 100.0; }
    else if (c.name == "Restart") w->link.restart();
    else if (c.name == "Inputs")  { try { w->link.processInputs(); } catch (TsOutOfBoundsException&) { w->threw = true; } }
    else if (c.name == "Outputs") { w->nodes[0].setNetworkCapacitanceRequest(0.0); w->link.processOutputs(); }
    else if (c.name == "Step") {        // pressure of the solution, whether time passes
        const double dt = c[1] == 1 ? DT : 0.0;
        w->nodes[0].resetFlows();
        w->nodes[0].setNetworkCapacitanceRequest(0.0);
        w->cap.step(dt);
        w->link.step(dt);
        w->nodes[0].setPotential(c[0] / 1000.0);
        w->link.mPotentialVector[0] = c[0] / 1000.0;
        w->link.computeFlows(dt);
        if (w->rate > 0.0) {
            PolyFluid f(*w->nodes[0].getContent(), "external");
            gas(&f, 100.0, w->in[0], w->in[1], w->in[2]);
            w->nodes[0].collectInflux(w->rate, &f);
            f.cleanup();
        }
        w->link.transportFlows(dt);
    }
    else vf::refuse(c);

    vf::Rec r;
    GunnsFluidDistributedIf& l = w->link;
    GunnsFluidNode& n = w->nodes[0];
    const GunnsFluidDistributedIfData& o = l.mOutData;
    const bool demand = l.mInterface.isInDemandRole();
    double x[3] = {0.0, 0.0, 0.0}, t[1] = {0.0};
    o.getMoleFractions(x, 3);
    o.getTcMoleFractions(t, 1);
    double e = o.mEnergy;
    if (w->enthalpy && e != 0.0) e = temperature(e, x[0], x[1]);
    double ext[NF] = {0.0, 0.0};
    if (c.name == "Step" && w->rate > 0.0) {
        const double m[NF] = {(1000 - w->in[1]) * mw(0), w->in[1] * mw(1)};
        for (int i = 0; i < NF; ++i) ext[i] = w->rate * m[i] / (m[0] + m[1]);
    }
    vf::Arr entered;
    for (int i = 0; i < NF; ++i) entered.r(n.mInfluxRate == 0.0 ? 0.0 : (n.mInfluxRate * n.mInflow.getMassFraction(types[i]) - ext[i]) / mw(i), 1.0e7);
    r.b("threw", w->threw).b("demand", demand).r("vol", n.getVolume(), 1000.0).b("edit", w->cap.mEditVolumeFlag)
     .raw("content", fluid(n.getContent())).raw("flow", demand ? std::string("[0,0,0]") : fluid(l.mInternalFluid)).raw("inflow", n.mInflow.getTemperature() > 0.0 ? fluid(&n.mInflow) : fluid(n.getContent()))
     .r("A", l.mAdmittanceMatrix[0], 1.0e8).r("src", l.mSourceVector[0], 1.0e6).r("flux", l.mFlux, 1.0e7).i("gives", l.getPortDirections()[0] == GunnsBasicLink::SOURCE ? 1 : 0).r("sup", l.getSuppliedCapacitance(), 1.0e9)
     .raw("in", entered.json()).r("out", n.mOutfluxRate / n.getContent()->getMWeight(), 1.0e7).b("request", n.getNetworkCapacitanceRequest() > 0.0)
     .i("frame", o.mFrameCount).i("echo", o.mFrameLoopback).b("asks", o.mDemandMode).r("cap", o.mCapacitance, 1.0e9).r("source", o.mSource, o.mDemandMode ? 1.0e4 : 1.0)
     .r("t", e, 100.0).raw("x", vf::Arr().r(x[0], 1.0e5).r(x[1], 1.0e5).r(x[2], 1.0e5).json()).r("tc", t[0], 1.0e7)
     .raw("shown", fluid(&l.mFluidState));
    return r.json();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

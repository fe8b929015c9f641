#include "vf.hh"
#include "messages.hh"
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidConductor.hh"
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"
#include "aspects/fluid/capacitor/GunnsFluidBalloon.hh"
#include "software/exceptions/TsNumericalException.hh"
#include <memory>

// A tank or a balloon (node 0) in a solved network with another tank (node 1), joined by a conductor.
static const int NF = 3;
static const double MASS = 1.0e8, TRACE = 1.0e10, ENERGY = 100.0;
static DefinedFluidProperties             properties;
static FluidProperties::FluidType         types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_O2, FluidProperties::GUNNS_CO2};
static ChemicalCompound::Type             tcTypes[1] = {ChemicalCompound::CO};
static GunnsFluidTraceCompoundsConfigData tcConfig(tcTypes, 1, "tc");
static PolyFluidConfigData*               config = 0;

struct World {
    Gunns                            net;
    GunnsFluidNode                   nodes[3];
    GunnsNodeList                    list;
    std::vector<GunnsBasicLink*>     links;
    std::unique_ptr<GunnsFluidTank>  tank;
    GunnsFluidBalloon*               balloon;
    GunnsFluidCapacitor              other;
    GunnsFluidConductor              pipe;
    double                           conductivity;
    World() : balloon(0), conductivity(0.0) {}
};
static std::unique_ptr<World> w;

static PolyFluidInputData* state(const vf::Cmd& c, int at, double* x, GunnsFluidTraceCompoundsInputData* t)
{
    for (int i = 0; i < NF; ++i) x[i] = c[at + 2 + i] / 1000.0;
    return new PolyFluidInputData(c[at], c[at + 1] / 10.0, 0.0, 0.0, x, t);
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    bool threw = false;
    if (c.name == "Init") {     // balloon; volume (l), T (K), p (0.1 kPa), gases (permille) of the tank; of the other; expansion factor (%), gain (%), flux target (1e-9 mol/s), area (dm2), radius (cm), shell T (K); inflatability (l/kPa); maximum volume (l)
        if (!config) config = new PolyFluidConfigData(&properties, types, NF, &tcConfig);
        w.reset(new World);
        w->list.mNumNodes = 3;
        w->list.mNodes = w->nodes;
        for (int i = 0; i < 3; ++i) w->nodes[i].initialize("n" + std::to_string(i), config);
        w->net.initializeFluidNodes(w->list);
        double tc[1] = {1.0e-4}, x[NF], y[NF];
        GunnsFluidTraceCompoundsInputData t(tc);
        std::unique_ptr<PolyFluidInputData> a(state(c, 2, x, &t)), b(state(c, 8, y, &t));
        const double area = c[16] / 100.0, radius = c[17] / 100.0, v = c[1] / 1000.0;
        if (c[0] == 0) {
            w->tank.reset(new GunnsFluidTank);
            w->tank->initialize(GunnsFluidTankConfigData("tank", &w->list, c[13] / 100.0, c[14] / 100.0, 0.0, c[15] * 1.0e-12, area, radius),
                                GunnsFluidTankInputData(false, 0.0, v, a.get(), c[18], 0.0F), w->links, 0, 2);
        } else {
            w->balloon = new GunnsFluidBalloon;
            w->tank.reset(w->balloon);
            w->balloon->initialize(GunnsFluidBalloonConfigData("balloon", &w->list, c[13] / 100.0, c[14] / 100.0, 0.0, c[15] * 1.0e-12, area, radius, c[19] / 1000.0, c[20] / 1000.0),
                                   GunnsFluidBalloonInputData(false, false, 0.0, a.get(), c[18], 0.0F), w->links, 0, 2);
        }
        w->other.initialize(GunnsFluidCapacitorConfigData("other", &w->list, 0.0), GunnsFluidCapacitorInputData(false, 0.0, c[7] / 1000.0, b.get()), w->links, 1, 2);
        w->pipe.initialize(GunnsFluidConductorConfigData("pipe", &w->list, 0.0, 0.0, 0.5), GunnsFluidConductorInputData(), w->links, 0, 1);
        w->net.initialize(GunnsConfigData("net", 1.0e-15, 0.1, 5, 5), w->links);
    }
    else if (c.name == "Pipe")     w->pipe.mMaxConductivity = c[0] * 1.0e-6;
    else if (c.name == "EditT")    w->tank->editTemperature(c[0] == 1, c[1]);
    else if (c.name == "EditTP")   w->tank->editTemperaturePressure(c[0] == 1, c[1], c[2] / 10.0);
    else if (c.name == "EditTPP")  { double p[NF] = {c[2] / 10.0, c[3] / 10.0, c[4] / 10.0}; w->tank->editTemperaturePartialPressure(c[0] == 1, c[1], p); }
    else if (c.name == "EditRate") w->tank->editPartialPressureRate(types[c[0]], c[1] == 1, c[2] / 10.0, c[3] / 10.0);
    else if (c.name == "EditV")    w->tank->editVolume(c[0] == 1, c[1] / 1000.0);
    else if (c.name == "Shell")    w->tank->mShellTemperature = c[0];
    else if (c.name == "Stuck")    w->balloon->mMalfStuckFlag = c[0] == 1;
    else if (c.name == "Scale")    { w->balloon->mMalfInflatabilityScaleFlag = c[0] == 1; w->balloon->mMalfInflatabilityScaleValue = c[1] / 1000.0; }
    else if (c.name == "Restart")  w->net.restart();
    else if (c.name == "Step")     { try { w->net.step(c[0] / 1000.0); } catch (TsNumericalException&) { threw = true; } }
    else vf::refuse(c);

    vf::Rec r;
    GunnsFluidTank& k = *w->tank;
    const PolyFluid* f = w->nodes[0].getContent();
    const PolyFluid* g = w->nodes[1].getContent();
    vf::Arr m, n, pp, says, x, rate;
    for (int i = 0; i < NF; ++i) {
        m.r(f->getMass() * f->getMassFraction(i), MASS);
        n.r(g->getMass() * g->getMassFraction(i), MASS);
        pp.r(const_cast<PolyFluid*>(f)->getPartialPressure(types[i]), 1.0e4);
        says.r(k.mPartialPressure[i], 1.0e4);
        x.r(f->getMoleFraction(types[i]), 1.0e6);
        rate.b(k.mEditPartialPressureRateFlag[i]);
    }
    r.b("threw", threw).r("t", f->getTemperature(), 1000.0).r("p", w->nodes[0].getPotential(), 1.0e4).r("cp", f->getPressure(), 1.0e4).r("v", w->nodes[0].getVolume(), 1.0e6)
     .raw("m", m.json()).raw("n", n.json()).raw("pp", pp.json()).raw("says", says.json()).raw("x", x.json())
     .r("tc", const_cast<PolyFluid*>(f)->getTraceCompounds()->getMasses()[0], TRACE).r("tcn", const_cast<PolyFluid*>(g)->getTraceCompounds()->getMasses()[0], TRACE)
     .r("h", f->getMass() * f->getSpecificEnthalpy(), ENERGY).r("hn", g->getMass() * g->getSpecificEnthalpy(), ENERGY)
     .b("et", k.mEditTemperatureFlag).b("etp", k.mEditTemperaturePressureFlag).b("etpp", k.mEditTemperaturePartialPressureFlag).raw("er", rate.json()).b("ev", k.mEditVolumeFlag)
     .r("flow", w->pipe.getFlowRate(), 1.0e7).r("heat", k.mHeatFluxFromShell, 1.0e4).r("back", k.mHeatFluxToShell, 1.0e4).r("k", f->getThermalConductivity(), 1.0e7)
     .r("dpdt", k.mDpdt, 1.0e3).r("tt", k.mTemperature, 1000.0).b("held", k.mOverrideVector[0]).r("inflation", w->balloon ? w->balloon->mInflation : 0.0, 1.0e6).i("warnings", hs.warnings);
    return r.json();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

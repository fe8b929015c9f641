#include "vf.hh"
#include "messages.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccumGas.hh"

// One accumulator between a gas node (0) and a water node (1) whose states the schedule imposes. Units: see Accum.tla.
static const double DT = 0.125, VOL = 1.0e7, LIQ = 1.0e8, GAS = 1.0e10, PA = 1000.0, POS = 1.0e4;
static const int NF = 3;
static DefinedFluidProperties     properties;
static FluidProperties::FluidType types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_CO2, FluidProperties::GUNNS_WATER};
static PolyFluidConfigData*       config = 0;
static double mw(int i) { return properties.getProperties(types[i])->getMWeight(); }

struct World {
    GunnsFluidNode               nodes[3];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    GunnsFluidAccum*             a;
    GunnsFluidAccumGas*          g;
    bool                         dry;       // nothing flows into the gas node
    World() : a(0), g(0), dry(false) {}
    ~World() { delete a; }
};
static World* w = 0;

static void fractions(int co2, bool gas, double* f)
{
    const double m = (1000 - co2) * mw(0), n = co2 * mw(1);
    f[0] = gas ? m / (m + n) : 0.0;
    f[1] = gas ? n / (m + n) : 0.0;
    f[2] = gas ? 0.0 : 1.0;
}
static void content(int i, int t, int co2)
{
    double f[NF];
    fractions(co2, i == 0, f);
    PolyFluidInputData fluid(t / 100.0, w->nodes[i].getPotential(), 0.0, 1.0, f);
    PolyFluid poly(*config, fluid);
    PolyFluid* p = w->nodes[i].getContent();
    p->setState(&poly);
    p->setMass(1.0);
    w->nodes[i].resetFlows();
}

// What the accumulator put into the gas node.
static double entered(GunnsFluidNode& n, int i)
{
    if (n.mInfluxRate <= 0.0) return 0.0;
    return (n.mInfluxRate * n.mInflow.getMassFraction(types[i]) - (w->dry ? 0.0 : n.mContent.getMassFraction(types[i]))) / mw(i);
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    if (c.name == "Init") {
        if (!config) config = new PolyFluidConfigData(&properties, types, NF);
        delete w;
        w = new World;
        w->list.mNumNodes = 3;
        w->list.mNodes = w->nodes;
        const int co2 = c[24];
        double f[NF], fl[NF];
        fractions(co2, true, f);
        fractions(0, false, fl);
        PolyFluidInputData liquid(300.0, c[15] / PA, 0.0, 1.0, fl), gas(300.0, c[19] / PA, 0.0, 1.0, f);
        for (int i = 0; i < 3; ++i) {
            w->nodes[i].initialize("n" + std::to_string(i), config);
            w->nodes[i].getContent()->initialize(*config, i == 1 ? liquid : gas);
            w->nodes[i].setPotential(c[i == 1 ? 15 : 19] / PA);
            w->nodes[i].resetFlows();
        }
        content(0, 30000, co2);
        content(1, 30000, 0);
        const double V = c[1] / VOL, r = c[6] / POS, hold = c[7] / 1000.0;
        if (c[0] == 0) {
            w->a = new GunnsFluidAccum;
            w->a->initialize(GunnsFluidAccumConfigData("a", &w->list, c[4] / LIQ, c[5] / POS, V, c[2], c[3], r, hold, 280.0, 350.0, c[14] / PA, c[8] / PA, c[9] / PA, c[10] / PA,
                                                       c[11] / PA, c[12] / POS),
                             GunnsFluidAccumInputData(false, 0.0, c[13] / POS, &liquid, 0.0), w->links, 2, 1);
        } else {
            w->a = w->g = new GunnsFluidAccumGas;
            w->g->initialize(GunnsFluidAccumGasConfigData("a", &w->list, c[4] / LIQ, c[5] / POS, V, c[2], c[3], r, hold, 280.0, 350.0, c[14] / PA, c[8] / PA, c[9] / PA, c[10] / PA,
                                                          c[16] / GAS, c[17] / GAS, c[18] / PA, c[11] / PA, c[12] / POS),
                             GunnsFluidAccumGasInputData(false, 0.0, c[13] / POS, &liquid, &gas, 0.0), w->links, 0, 1);
        }
        w->a->mEditsAreReactive = c[20] == 1;
        w->a->mHoldTemperatureFlag = c[21] == 1;
        w->a->setAccelPressureHead(c[22] / PA);
        w->a->setLiquidHousingQ(c[23]);
    }
    else if (c.name == "Fluids")  { content(0, c[0], c[1]); content(1, c[2], 0); }
    else if (c.name == "Stick")   w->a->setMalfBellowsStick(c[0] == 1);
    else if (c.name == "StickTo") w->a->setMalfBellowsStickToPos(c[0] == 1, c[1] / POS, c[2] / POS);
    else if (c.name == "Edit")    { w->a->mEditBellowsFlag = c[0] == 1; w->a->mEditBellowsPosition = c[1] / POS; w->a->mEditBellowsRate = c[2] / POS; }
    else if (c.name == "EditT")   w->a->setTemperature(c[0] / 100.0);
    else if (c.name == "EditP")   { w->g->mEditPressureFlag = c[0] == 1; w->g->mEditPressureValue = c[1] / PA; w->g->mEditPressureRate = c[2] / PA; }
    else if (c.name == "Rupture") w->g->setMalfBellowsRupture(c[0] == 1, c[1] / POS, c[2] / POS, c[3] / PA, c[4] / PA);
    else if (c.name == "Dry")     w->dry = c[0] == 1;
    else if (c.name == "Hold")    w->a->mHoldAccumFlag = c[0] == 1;
    else if (c.name == "Restart") w->a->restart();
    else if (c.name == "Step") {        // pressures of the liquid and the gas node
        for (int i = 0; i < 3; ++i) w->nodes[i].resetFlows();
        if (!w->dry) w->nodes[0].collectInflux(1.0, w->nodes[0].getContent());
        w->a->step(DT);
        w->nodes[1].setPotential(c[0] / PA);
        w->nodes[0].setPotential(c[1] / PA);
        w->a->computeFlows(DT);
        w->a->transportFlows(DT);
    }
    else vf::refuse(c);

    vf::Rec r;
    GunnsFluidAccum& a = *w->a;
    const PolyFluid& l = *a.mInternalFluid;
    r.r("pos", a.mBellowsPosition, POS).r("vol", a.mLiquidVolume, VOL).r("pvol", a.mPressurizerVolume, VOL).r("n", l.getMass() / mw(2), LIQ).r("p", l.getPressure(), PA)
     .r("t", l.getTemperature(), 100.0).r("d", l.getDensity() / mw(2), 100.0).r("use", a.getUsableMass() / mw(2), LIQ).r("spring", a.mSpringPressure, PA)
     .i("zone", a.mBellowsZone).i("mode", a.mFillMode).r("scale", a.mEffConductivityScale, POS).r("A", a.mAdmittanceMatrix[3], LIQ).r("src", a.mSourceVector[1], LIQ)
     .r("flux", a.mFlux, LIQ).b("stuck", a.mBellowsStuck)
     .b("edB", a.mEditBellowsFlag).r("timB", a.mEditBellowsTimer, 1000.0).b("edT", a.mEditTemperatureFlag).b("oride", a.mPressurizerOrideBellowsFlag).b("simul", a.mSimultaneousEditsInProgress)
     .r("in", w->nodes[1].mInfluxRate / mw(2), LIQ).r("out", w->nodes[1].mOutfluxRate / mw(2), LIQ)
     .b("atEdit", a.mBellowsPosition == a.mEditBellowsPosition).b("atStick", a.mBellowsPosition == a.mMalfBellowsStickToPosValue)
     .r("reading", a.mLiquidPressureReading, PA);
    if (w->g) {
        const PolyFluid& g = *w->g->mGasInternalFluid;
        GunnsFluidNode& n = w->nodes[0];
        const PolyFluid& out = *n.getOutflow();
        const double forced = g.getPressure() + a.mSpringPressure + a.mAccelPressureHead;
        r.raw("gas", vf::Arr().r(g.getMass() * g.getMassFraction(types[0]) / mw(0), GAS).r(g.getMass() * g.getMassFraction(types[1]) / mw(1), GAS).json())
         .r("gp", g.getPressure(), PA).r("gt", g.getTemperature(), 100.0).r("gA", w->g->mAdmittanceMatrix[0], GAS).r("gsrc", w->g->mSourceVector[0], GAS / 10.0).r("gflux", w->g->mGasFlux, GAS)
         .raw("gin", vf::Arr().r(entered(n, 0), GAS).r(entered(n, 1), GAS).json())
         .raw("gout", vf::Arr().r(n.mOutfluxRate * out.getMassFraction(types[0]) / mw(0), GAS).r(n.mOutfluxRate * out.getMassFraction(types[1]) / mw(1), GAS).json())
         .b("edP", w->g->mEditPressureFlag).r("timP", w->g->mEditPressureTimer, 1000.0).b("setP", w->g->mPressureMalfSet).b("setB", a.mBellowsMalfSet).r("holdP", w->g->mEditHoldPressure, PA)
         .r("forced", forced, PA);
    }
    r.i("said", (long) (hs.warnings + hs.errors));
    return r.json();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

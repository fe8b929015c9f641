#include "vf.hh"
#include "messages.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/source/GunnsGasDisplacementPump.hh"
#include "aspects/fluid/source/GunnsLiquidDisplacementPump.hh"
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "aspects/fluid/potential/GunnsLiquidCentrifugalPump.hh"
#include "aspects/fluid/conductor/GunnsGasTurbine.hh"
#include "aspects/fluid/conductor/GunnsDriveShaftSpotter.hh"

// One pump, fan or turbine between two nodes whose states the schedule imposes, driven by a motor or on a drive shaft. Units: see Pumps.tla.
enum Kind {GASDISP, LIQDISP, FAN, CENTRIFUGAL, TURBINE};
static const double DT = 0.125;
static const int NF = 3;
static DefinedFluidProperties     properties;
static FluidProperties::FluidType types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_CO2, FluidProperties::GUNNS_WATER};
static PolyFluidConfigData*       config = 0;

struct World {
    int                             kind;
    GunnsFluidNode                  nodes[3];
    GunnsNodeList                   list;
    std::vector<GunnsBasicLink*>    links;
    GunnsGasDisplacementPump*       disp;
    GunnsGasFan*                    fan;
    GunnsGasTurbine*                turb;
    GunnsFluidLink*                 link;
    GunnsPumpCavitation*            cav;
    GunnsDriveShaftSpotter*         shaft;
    GunnsDriveShaftSpotterConfigData* sc;
    GunnsDriveShaftSpotterInputData*  si;
    double p[2];
    World() : disp(0), fan(0), turb(0), link(0), cav(0), shaft(0), sc(0), si(0) {}
    ~World() { delete link; delete shaft; delete sc; delete si; }
    double& motor() { return disp ? disp->mMotorSpeed : fan ? fan->mMotorSpeed : turb->mMotorSpeed; }
    bool liquid() const { return kind == LIQDISP or kind == CENTRIFUGAL; }
    double sP() const { return liquid() ? 100.0 : 10000.0; }        // per kPa
    double sQ() const { return liquid() ? 1.0e8 : 1.0e6; }          // per m3/s
    double sD() const { return liquid() ? 10.0 : 1.0e4; }           // per kg/m3
    double sM() const { return liquid() ? 1.0e5 : 1.0e6; }          // per kg/s
};
static World* w = 0;

static void content(int i, double p, double t, int co2)
{
    double f[NF] = {(1000 - co2) / 1000.0, co2 / 1000.0, 0.0};
    if (w->liquid()) { f[0] = f[1] = 0.0; f[2] = 1.0; }
    PolyFluidInputData fluid(t, p, 0.0, 1.0, f);
    PolyFluid poly(*config, fluid);
    w->nodes[i].getContent()->setState(&poly);
    w->nodes[i].getContent()->setMass(1.0);
    w->nodes[i].setPotential(p);
    w->nodes[i].resetFlows();
    if (i < 2) w->p[i] = p;
}

static std::string before()
{
    vf::Rec r;
    const double mwi = w->link->mInternalFluid->getMWeight();
    r.r("motor", w->motor(), 10.0).r("mw", mwi, 1000.0).b("back", w->link->mFlux < 0.0).r("vol", w->link->mVolFlowRate, w->sQ())
     .r("drop", w->link->getDeltaPotential(), w->sP());
    if (w->cav) r.r("cav", w->cav->mCavitationFraction, 1.0e6).r("el", w->cav->mCavitationElapsedTime, 1000.0).r("dur", w->cav->mDuration, 1000.0);
    if (w->fan) r.r("P", w->fan->mSourcePressure, w->sP()).r("G", w->fan->mSystemConstant, 1000.0 * w->sQ() / std::sqrt(w->sP()));
    if (w->turb) r.r("tdrop", w->turb->mPressureDrop, w->sP());
    if (w->shaft) r.r("load", w->shaft->mTotalExternalLoad, 1.0e5);
    return r.json();
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    std::string prev;
    if (c.name == "Init") {
        if (!config) config = new PolyFluidConfigData(&properties, types, NF);
        delete w;
        w = new World;
        w->kind = c[0];
        w->list.mNumNodes = 3;
        w->list.mNodes = w->nodes;
        for (int i = 0; i < 3; ++i) {
            double f[NF] = {1.0, 0.0, 0.0};
            if (w->liquid()) { f[0] = 0.0; f[2] = 1.0; }
            w->nodes[i].initialize("n" + std::to_string(i), config);
            PolyFluidInputData fluid(300.0, 100.0, 0.0, 1.0, f);
            w->nodes[i].getContent()->initialize(*config, fluid);
            content(i, 100.0, 300.0, 0);
        }
        const double ratio = c[1] / 100.0, motor = c[15] / 10.0, sP = w->sP(), sQ = w->sQ(), sD = w->sD();
        const bool check = c[2] == 1;
        if (w->kind == GASDISP) {
            w->link = w->disp = new GunnsGasDisplacementPump;
            w->disp->initialize(GunnsGasDisplacementPumpConfigData("p", &w->list, c[3] / sQ, ratio, 0.0, 0.0, 0.0, check), GunnsGasDisplacementPumpInputData(false, 0.0, 0.0, motor, 300.0), w->links, 0, 1);
        } else if (w->kind == LIQDISP) {
            GunnsLiquidDisplacementPump* d = new GunnsLiquidDisplacementPump;
            GunnsLiquidDisplacementPumpConfigData cd("p", &w->list, c[3] / sQ, ratio, 0.0, 0.0, 0.0, check, FluidProperties::GUNNS_WATER, c[13] / 1000.0, c[14] / sQ);
            d->initialize(cd, GunnsLiquidDisplacementPumpInputData(false, 0.0, 0.0, motor, 300.0, c[12] == 1), w->links, 0, 1);
            w->link = w->disp = d;
            w->cav = &d->mCavitation;
        } else if (w->kind == FAN or w->kind == CENTRIFUGAL) {
            const double a0 = c[7] / sP, a2 = -a0 / (c[8] / sQ) / (c[8] / sQ);
            if (w->kind == FAN) {
                w->link = w->fan = new GunnsGasFan;
                w->fan->initialize(GunnsGasFanConfigData("p", &w->list, c[4] * 1.0e-6, 0.0, c[5] / sD, c[6], a0, 0.0, a2, 0.0, 0.0, 0.0, c[10] / 100.0, c[9] / sQ, c[11] / 100.0, ratio, 0.0, 0.0, 0.0, check),
                                   GunnsGasFanInputData(false, 0.0, 0.0, motor, 300.0), w->links, 0, 1);
            } else {
                GunnsLiquidCentrifugalPump* d = new GunnsLiquidCentrifugalPump;
                GunnsLiquidCentrifugalPumpConfigData cd("p", &w->list, c[4] * 1.0e-6, 0.0, c[5] / sD, c[6], a0, 0.0, a2, 0.0, 0.0, 0.0, c[10] / 100.0, c[9] / sQ, c[11] / 100.0, ratio, 0.0, 0.0, 0.0, check,
                                                        FluidProperties::GUNNS_WATER, c[13] / 1000.0, c[14] / sP);
                d->initialize(cd, GunnsLiquidCentrifugalPumpInputData(false, 0.0, 0.0, motor, 300.0, c[12] == 1), w->links, 0, 1);
                w->link = w->fan = d;
                w->cav = &d->mCavitation;
            }
        } else {
            w->link = w->turb = new GunnsGasTurbine;
            w->turb->initialize(GunnsGasTurbineConfigData("p", &w->list, c[4] * 1.0e-6, 0.0, c[5], c[6], c[7] / 1.0e4, c[8] / 1.0e4, c[9] / 100.0, c[10] / 100.0, c[12] / 100.0, c[13] / 100.0,
                                                          c[14] / 100.0, c[21] / 100.0, 0.0, 0.0, 0.0, 0.0, c[20] / 100.0, c[22] / 100.0, 0.0, 0.0, 0.0, 0.0,
                                                          c[23] / 100.0, c[24] / 100.0, c[25] / 100.0, c[26] / 100.0, c[27], c[28], c[11] / 100.0, ratio),
                                GunnsGasTurbineInputData(false, 0.0, motor, 300.0), w->links, 0, 1);
        }
        if (c[16] == 1) {
            w->sc = new GunnsDriveShaftSpotterConfigData("s", c[18] * 1.0e-6, c[19], c[17] / 1000.0);
            w->si = new GunnsDriveShaftSpotterInputData(motor);
            w->shaft = new GunnsDriveShaftSpotter;
            w->shaft->addImpeller(dynamic_cast<GunnsFluidConductor*>(w->link));
            w->shaft->initialize(w->sc, w->si);
        }
    }
    else if (c.name == "Fluids")   { content(0, c[0] / w->sP(), c[1] / 10.0, c[2]); content(1, c[3] / w->sP(), c[4] / 10.0, c[5]); }
    else if (c.name == "Motor")    { if (w->disp) w->disp->setMotorSpeed(c[0] / 10.0); else if (w->fan) w->fan->setMotorSpeed(c[0] / 10.0); else w->turb->setMotorSpeed(c[0] / 10.0); }
    else if (c.name == "Check")    { if (w->disp) w->disp->setCheckValveFlag(c[0] == 1); else if (w->fan) w->fan->setCheckValveFlag(c[0] == 1); }
    else if (c.name == "Block")    w->link->setMalfBlockage(c[0] == 1, c[1] / 100.0);
    else if (c.name == "Full")     w->cav->setMalfFullCavitation(c[0] == 1, c[1] / 1000.0);
    else if (c.name == "Partial")  w->cav->setMalfPartialCavitation(c[0] == 1, c[1] / 1000.0, c[2] / (w->disp ? w->sQ() : w->sP()));
    else if (c.name == "Jam")      { w->shaft->mMalfJamFlag = c[0] == 1; w->shaft->mMalfJamValue = c[1] / 100.0; }
    else if (c.name == "Override") { w->shaft->mMalfSpeedOverrideFlag = c[0] == 1; w->shaft->mMalfSpeedOverrideValue = c[1] / 10.0; }
    else if (c.name == "Restart")  w->link->restart();
    else if (c.name == "Step") {            // how often
        for (long k = 0; k < c[0]; ++k) {
            for (int i = 0; i < 3; ++i) w->nodes[i].resetFlows();
            prev = before();
            if (w->shaft) w->shaft->stepPreSolver(DT);
            w->link->step(DT);
            for (int i = 0; i < 2; ++i) w->link->mPotentialVector[i] = w->p[i];
            w->link->computeFlows(DT);
            w->link->transportFlows(DT);
            if (w->shaft) w->shaft->stepPostSolver(DT);
        }
    }
    else vf::refuse(c);

    vf::Rec r;
    const double sP = w->sP(), sQ = w->sQ(), sD = w->sD(), sM = w->sM();
    vf::Arr d, mw, in, out;
    for (int i = 0; i < 2; ++i) {
        d.r(w->nodes[i].getContent()->getDensity(), sD);
        mw.r(w->nodes[i].getContent()->getMWeight(), 1000.0);
        in.r(w->nodes[i].mInfluxRate, sM);
        out.r(w->nodes[i].mOutfluxRate, sM);
    }
    r.raw("d", d.json()).raw("mw", mw.json()).raw("in", in.json()).raw("out", out.json())
     .r("motor", w->motor(), 10.0).r("vol", w->link->mVolFlowRate, sQ).r("flow", w->link->mFlowRate, sM).r("drop", w->link->mPotentialDrop, sP).r("flux", w->link->mFlux, sM)
     .raw("dir", vf::Arr().i(w->link->mPortDirections[0]).i(w->link->mPortDirections[1]).json());
    if (w->disp) r.r("speed", w->disp->getImpellerSpeed(), 10.0).r("power", w->disp->getImpellerPower(), 1000.0).r("torque", w->disp->getImpellerTorque(), 1.0e5).r("demand", w->disp->mFlowDemand, sM)
                  .r("src", w->link->mSourceVector[1], sM);
    if (w->fan)  r.r("speed", w->fan->getImpellerSpeed(), 10.0).r("power", w->fan->getImpellerPower(), 1000.0).r("torque", w->fan->getImpellerTorque(), 1.0e5).r("P", w->fan->mSourcePressure, sP)
                  .r("G", w->fan->mSystemConstant, 1000.0 * sQ / std::sqrt(sP)).r("Q", w->fan->mSourceQ, sQ).r("A", w->link->mAdmittanceMatrix[0], 1.0e5 * sM / sP).r("cond", w->fan->mEffectiveConductivity, 1.0e8)
                  .r("src", w->link->mSourceVector[1], 10.0 * sM)
                  .r("pbep", w->fan->mReferencePowerBep, 1000.0)
                  .raw("pc", vf::Arr().r(w->fan->mPowerCoeffs[0], 1.0e4).r(w->fan->mPowerCoeffs[1], 1.0e4).r(w->fan->mPowerCoeffs[2], 1.0e4).r(w->fan->mPowerCoeffs[3], 1.0e4).json());
    if (w->turb) r.r("speed", w->turb->getImpellerSpeed(), 10.0).r("power", w->turb->getImpellerPower(), 1000.0).r("torque", w->turb->getImpellerTorque(), 1.0e5).r("pred", w->turb->mPredictedFlowRate, sM)
                  .r("tdrop", w->turb->mPressureDrop, sP).r("pr", w->turb->mPressureRatio, 1.0e4).r("eff", w->turb->getEfficiency(), 1.0e4);
    if (w->cav)  r.r("cav", w->cav->mCavitationFraction, 1.0e6).r("el", w->cav->mCavitationElapsedTime, 1000.0).r("dur", w->cav->mDuration, 1000.0)
                  .raw("sat", vf::Arr().r(properties.getProperties(FluidProperties::GUNNS_WATER)->getSaturationPressure(w->nodes[0].getContent()->getTemperature()), sP)
                                       .r(properties.getProperties(FluidProperties::GUNNS_WATER)->getSaturationPressure(w->nodes[1].getContent()->getTemperature()), sP).json());
    if (w->shaft) r.r("load", w->shaft->mTotalExternalLoad, 1.0e5).r("pin", w->shaft->mPowerInFan, 1000.0).r("pout", w->shaft->mPowerOutTurb, 1000.0).r("excess", w->shaft->mPowerExcess, 1000.0)
                  .raw("h", vf::Arr().r(w->nodes[0].getContent()->getSpecificEnthalpy(), 1.0).r(w->nodes[1].getContent()->getSpecificEnthalpy(), 1.0).json());
    if (c.name == "Step") r.raw("before", prev);
    return r.json();
}
int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

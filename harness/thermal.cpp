#include "vf.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "aspects/thermal/GunnsThermalCapacitor.hh"
#include "aspects/thermal/GunnsThermalCapacitorHeatQueues.hh"
#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
#include "aspects/thermal/GunnsThermalRadiation.hh"
#include "aspects/thermal/GunnsThermalPotential.hh"
#include "aspects/thermal/GunnsThermalHeater.hh"
#include "aspects/thermal/GunnsThermalPanel.hh"
#include "aspects/thermal/GunnsThermalMultiPanel.hh"

struct World {
    Gunns                       net;
    GunnsBasicNode              nodes[4];
    GunnsNodeList               list;
    GunnsThermalCapacitor       cap[3];
    GunnsThermalPhaseChangeBattery pcb;
    GunnsBasicConductor         cond[2];
    GunnsThermalRadiation       rad[2];
    GunnsThermalPotential       pot;
    GunnsThermalSource          source;
    GunnsThermalHeater          heater;
    GunnsThermalPanel           panel;
    GunnsThermalMultiPanel      multi;
    GunnsThermalCapacitorHeatQueues queues;
    double                      queue[GunnsThermalCapacitor::NUM_EXT_HEATFLUXES][4];
    GunnsThermalSource*         src[4];
    GunnsBasicConductor*        con[5];
    bool                        hasPcb;
    std::vector<GunnsBasicLink*> vec;
    World() : queues(cap[0]), hasPcb(false) {
        src[0] = &source; src[1] = &heater; src[2] = &panel; src[3] = &multi;
        con[0] = &cond[0]; con[1] = &cond[1]; con[2] = &rad[0]; con[3] = &rad[1]; con[4] = &pot;
    }
};
static World* w = 0;

// Init dt C0 C1 C2 T0 T1 T2 G01 G12 R02 R1g Gp Tp srcfrac heatfrac multifrac tuning, Tpc heat ch cc struct mass frac, absorp area
static std::string perform(const vf::Cmd& c)
{
    bool stepped = false;
    static double dt = 0.125;
    if (c.name == "Init") {
        delete w;
        w = new World;
        dt = c[0] / 8.0;
        w->list.mNumNodes = 4;
        w->list.mNodes = w->nodes;
        const char* names[4] = {"n0", "n1", "n2", "Ground"};
        for (int i = 0; i < 4; ++i) w->nodes[i].initialize(names[i], i < 3 ? c[4 + i] : 0.0);
        w->net.initializeNodes(w->list);
        w->hasPcb = c[3] == 0;
        const char* caps[3] = {"cap0", "cap1", "cap2"};
        for (int i = 0; i < 3; ++i)
            if (i < 2 or not w->hasPcb)
                w->cap[i].initialize(GunnsThermalCapacitorConfigData(caps[i], &w->list, 0), GunnsThermalCapacitorInputData(false, 0.0, c[1 + i], c[4 + i]), w->vec, i, 3);
        if (w->hasPcb)
            w->pcb.initialize(GunnsThermalPhaseChangeBatteryConfigData("pcb", &w->list, c[17], c[18], c[19] / 100.0, c[20] / 100.0, c[21]),
                              GunnsThermalPhaseChangeBatteryInputData(c[22] / 100.0, c[6], c[23] / 100.0), w->vec, 2);
        w->cond[0].initialize(GunnsBasicConductorConfigData("c01", &w->list, c[7] / 100.0), GunnsBasicConductorInputData(), w->vec, 0, 1);
        w->cond[1].initialize(GunnsBasicConductorConfigData("c12", &w->list, c[8] / 100.0), GunnsBasicConductorInputData(), w->vec, 1, 2);
        w->rad[0].initialize(GunnsThermalRadiationConfigData("r02", &w->list, c[9] * 1e-10), GunnsThermalRadiationInputData(false, 0.0, 1.0), w->vec, 0, 2);
        w->rad[1].initialize(GunnsThermalRadiationConfigData("r1g", &w->list, c[10] * 1e-10), GunnsThermalRadiationInputData(false, 0.0, 1.0), w->vec, 1, 3);
        w->pot.initialize(GunnsThermalPotentialConfigData("pot", &w->list, c[11] / 100.0), GunnsThermalPotentialInputData(false, 0.0, c[12]), w->vec, 3, 1);
        std::vector<int> p01, p12, p0, p20;
        std::vector<double> f01, f12, f0, f20;
        p01.push_back(0); p01.push_back(1); p12.push_back(1); p12.push_back(2); p0.push_back(0); p20.push_back(2); p20.push_back(0);
        f01.push_back(c[13] / 100.0); f01.push_back(1.0 - c[13] / 100.0);
        f12.push_back(c[14] / 100.0); f12.push_back(1.0 - c[14] / 100.0);
        f0.push_back(1.0);
        f20.push_back(c[15] / 100.0); f20.push_back(1.0 - c[15] / 100.0);
        const double tune = c[16] / 100.0;
        w->source.initialize(GunnsThermalSourceConfigData("source", &w->list, tune, &f01), GunnsThermalSourceInputData(), w->vec, &p01);
        w->heater.initialize(GunnsThermalHeaterConfigData("heater", &w->list, tune, &f12), GunnsThermalHeaterInputData(), w->vec, &p12);
        w->panel.initialize(GunnsThermalPanelConfigData("panel", &w->list, tune, &f0, c[24] / 100.0, c[25] / 100.0), GunnsThermalPanelInputData(), w->vec, &p0);
        w->multi.initialize(GunnsThermalMultiPanelConfigData("multi", &w->list, tune, &f20, 0.25, 0.5, 0.75, 1.0, 0.125, c[25] / 100.0), GunnsThermalMultiPanelInputData(), w->vec, &p20);
        GunnsThermalCapacitorHeatQueuesConfigData qc("queues");
        GunnsThermalCapacitorHeatQueuesInputData qi;
        w->queues.initialize(&qc, &qi);
        w->net.initialize(GunnsConfigData("net", 1.0e-7, 0.125, 10, 10), w->vec);
    }
    else if (c.name == "Ext")      { if (c[0] == 2 && w->hasPcb) w->pcb.mExternalHeatFlux[c[1]] = c[2]; else w->cap[c[0]].setExternalHeatFlux(c[1], c[2]); }
    else if (c.name == "Queue")    { for (int i = 0; i < 4; ++i) w->queue[c[0]][i] = c[2 + i];
                                     w->queues.mQueues[c[0]].mHeat_queue = w->queue[c[0]]; w->queues.mQueues[c[0]].mHeat_queue_size = c[1]; }
    else if (c.name == "Demand")   w->source.mDemandedFlux = c[0];
    else if (c.name == "Power")    w->heater.mPowerElectrical = c[0];
    else if (c.name == "Sun")      w->panel.mIncidentHeatFluxPerArea = c[0];
    else if (c.name == "Multi")    { w->multi.mViewScalar[c[0]] = c[1] / 100.0; w->multi.mIncidentFlux[c[0]] = c[2]; }
    else if (c.name == "Boundary") w->pot.setSourcePotential(c[0]);
    else if (c.name == "View")     w->rad[c[0]].mViewScalar = c[1] / 100.0;
    else if (c.name == "Conduct")  w->cond[c[0]].setDefaultConductivity(c[1] / 100.0);
    else if (c.name == "Block")    w->con[c[0]]->setMalfBlockage(c[1], c[2] / 100.0);
    else if (c.name == "BlockSrc") w->src[c[0]]->setMalfBlockage(c[1], c[2] / 100.0);
    else if (c.name == "Flux")     w->src[c[0]]->setMalfFluxOverride(c[1], c[2]);
    else if (c.name == "HoldSrc")  { w->src[c[0]]->mTemperatureOverrideFlag = c[1]; w->src[c[0]]->mTemperatureOverrideValue = c[2]; }
    else if (c.name == "Hold")     { GunnsBasicLink* l = c[0] == 2 && w->hasPcb ? static_cast<GunnsBasicLink*>(&w->pcb) : &w->cap[c[0]];
                                     if (c[1]) l->setPortOverride(0, c[2]); else l->resetPortOverride(0); }
    else if (c.name == "Capacity") { w->cap[c[0]].mEditCapacitance = c[1]; w->cap[c[0]].mEditCapacitanceFlag = true; }
    else if (c.name == "Leak")     { w->pcb.mMalfHotPhaseLeakFlag = c[0]; w->pcb.mMalfHotPhaseLeakRate = c[1] * 8e-4; }
    else if (c.name == "Step")     { stepped = true; w->queues.stepPreSolver(dt); w->net.step(dt); w->queues.stepPostSolver(dt); }
    else vf::refuse(c);
    vf::Rec r;
    r.b("step", stepped);
    if (stepped) {
        vf::Arr t, store, heat, g, f, s, held, net, drop;
        for (int i = 0; i < 3; ++i) {
            GunnsBasicLink* l = i == 2 && w->hasPcb ? static_cast<GunnsBasicLink*>(&w->pcb) : &w->cap[i];
            t.r(w->nodes[i].getPotential(), 1e6);
            held.r(i == 2 && w->hasPcb ? w->pcb.mTemperature : w->cap[i].mTemperature, 1e6);
            store.r(l->getFlux(), 100.0);
            net.r(w->nodes[i].mNetFlux, 100.0);
        }
        for (int i = 0; i < 5; ++i) { g.r(w->con[i]->mSystemConductance, 1e4); f.r(w->con[i]->getFlux(), 100.0); drop.r(w->con[i]->mPotentialDrop, 1e6); }
        for (int i = 0; i < 4; ++i) s.r(w->src[i]->mFlux, 100.0);
        r.raw("t", t.json()).raw("held", held.json()).raw("store", store.json()).raw("g", g.json()).raw("f", f.json()).raw("s", s.json()).raw("net", net.json()).raw("drop", drop.json())
         .r("avg", w->source.mAvgPortTemperature, 1e6).r("into", w->pot.mHeatFluxIntoNode, 100.0);
        if (w->hasPcb) {
            const double x = w->pcb.mHotPhaseFraction;
            r.raw("pcb", vf::Rec().i("phase", x == 0.0 ? 0 : x == 1.0 ? 2 : 1).r("frac", x, 1e8).r("mass", w->pcb.mMass, 1e6).r("power", w->pcb.mPower, 100.0).r("leak", w->pcb.mActualLeakRate, 1e7).json());
        }
    }
    return r.json();
}
int main() { return vf::run(perform); }

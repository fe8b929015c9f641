#include "vf.hh"
#include <cfloat>
#include "core/GunnsBasicNode.hh"
#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "math/approximation/TsLinearInterpolator.hh"

struct World {
    GunnsBasicNode               nodes[2];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    TsLinearInterpolator         table;
    GunnsElectBattery            batt;
};
static World* w = 0;

static std::string perform(const vf::Cmd& c)
{
    static double dt = 36.0;
    if (c.name == "Init") {
        delete w;
        w = new World;
        dt = 36.0 * c[10];
        w->list.mNumNodes = 2;
        w->list.mNodes = w->nodes;
        w->nodes[0].initialize("n0", 0.0);
        w->nodes[1].initialize("n1", 0.0);
        double x[3] = {0.0, c[6] / 100.0, 1.0}, y[3] = {c[5] / 1000.0, c[7] / 1000.0, c[8] / 1000.0};
        w->table.init(x, y, 3, 0.0, 1.0);
        GunnsElectBatteryConfigData cfg("batt", &w->list, c[0], c[1], c[2] / 1000.0, c[3] / 1000.0, c[4] / 1000.0, &w->table);
        GunnsElectBatteryInputData in(false, 0.0, c[9] / 100.0);
        w->batt.initialize(cfg, in, w->links, 0, 1);
    }
    else if (c.name == "Open")    w->batt.mCells[c[0] - 1].setMalfOpenCircuit(c[1]);
    else if (c.name == "Short")   w->batt.mCells[c[0] - 1].setMalfShortCircuit(c[1]);
    else if (c.name == "Cap")     w->batt.mCells[c[0] - 1].setMalfCapacity(c[1], c[2] / 1000.0);
    else if (c.name == "Hot")     w->batt.mCells[c[0] - 1].setMalfThermalRunaway(c[1], c[2]);
    else if (c.name == "Runaway") w->batt.setMalfThermalRunaway(c[0], c[1], c[2] * dt / 10.0);
    else if (c.name == "Block")   w->batt.setMalfBlockage(c[0], c[1] / 100.0);
    else if (c.name == "Restart") w->batt.restart();
    else if (c.name == "Step") {
        w->batt.mPotentialVector[0] = c[0] / 1000.0;
        w->batt.mPotentialVector[1] = c[1] / 1000.0;
        w->batt.step(dt);
        w->batt.computeFlows(dt);
    }
    else vf::refuse(c);
    vf::Rec r;
    vf::Arr cell, has, p, v;
    for (unsigned i = 0; i < w->batt.mNumCells; ++i) {
        GunnsElectBatteryCell& b = w->batt.mCells[i];
        cell.r(b.mSoc, 1e6);
        has.b(b.mSoc > DBL_EPSILON);
        v.r(w->batt.getCellEffectiveVoltage(i), 1e3);
        const double watts = b.getRunawayPower();
        if (watts != 0.0 && std::fabs(watts) < 1e-3) p.i(1); else p.r(watts, 1e3);
    }
    r.raw("cell", cell.json()).raw("has", has.json()).raw("p", p.json()).raw("v", v.json())
     .r("soc", w->batt.getSoc(), 1e6).r("cap", w->batt.getCapacity(), 1e3).r("flux", w->batt.getCurrent(), 1e3).r("volts", w->batt.getVoltage(), 1e3)
     .r("heat", w->batt.getHeat(), 1e3).r("g", w->batt.mAdmittanceMatrix[0], 1e5)
     .r("source", w->batt.mSourcePotential, 1e3);
    return r.json();
}
int main() { return vf::run(perform); }

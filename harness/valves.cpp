#include "vf.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayValve.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidReliefValve.hh"
#include "aspects/fluid/conductor/GunnsFluidRegulatorValve.hh"
#include "aspects/fluid/conductor/GunnsFluidBalancedPrv.hh"

// One valve between nodes of nitrogen whose pressures the schedule imposes.
enum Kind {VALVE, CHECK, WAY3, CHECK3, RELIEF, REGULATOR, PRV};
static const double DT = 0.125;
static DefinedFluidProperties     properties;
static FluidProperties::FluidType types[1] = {FluidProperties::GUNNS_N2};
static PolyFluidConfigData*       config = 0;

struct World {
    GunnsFluidNode               nodes[5];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    GunnsFluidValve*                  valve;    // VALVE, CHECK
    GunnsFluidCheckValve*             check;
    GunnsFluid3WayValve*              way;      // WAY3, CHECK3
    GunnsFluid3WayCheckValve*         wayCheck;
    GunnsFluidPressureSensitiveValve* relief;   // RELIEF, REGULATOR
    GunnsFluidBalancedPrv*            prv;
    std::vector<GunnsFluidLink*> all;           // every link, the one acted on first
    World() : valve(0), check(0), way(0), wayCheck(0), relief(0), prv(0) {}
    ~World() { delete valve; delete way; delete relief; delete prv; }
    int state() const {
        if (GunnsFluidReliefValve* r = dynamic_cast<GunnsFluidReliefValve*>(relief)) return r->mState;
        if (GunnsFluidRegulatorValve* r = dynamic_cast<GunnsFluidRegulatorValve*>(relief)) return r->mState;
        return 0;
    }
};
static World* w = 0;

// a position in 1e-6, where 0 and 1e6 mean exactly closed and open
static long position(double x)
{
    if (x == 0.0) return 0;
    if (x == 1.0) return 1000000;
    if (!(x > 0.0 && x < 1.0)) return -1;
    return std::max(1L, std::min(999999L, (long) std::floor(x * 1e6 + 0.5)));
}

static void impose(const vf::Cmd& c, size_t at)
{
    for (int i = 0; i < 4; ++i) {
        w->nodes[i].getContent()->setPressure(c[at + i] / 8.0);
        w->nodes[i].setPotential(c[at + i] / 8.0);
        w->nodes[i].resetFlows();
    }
}

static void potentials(const vf::Cmd& c, size_t at)
{
    for (GunnsFluidLink* l : w->all)
        for (int i = 0; i < l->mNumPorts; ++i) {
            const int n = l->mNodeMap[i];
            l->mPotentialVector[i] = n < 4 ? c[at + n] / 8.0 : 0.0;
        }
}

static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {     // kind, p0..p3, g0, g1, position, rate, a, b, c, pop position, pop slope, c0, c1, set point bias, path B, band
        if (!config) config = new PolyFluidConfigData(&properties, types, 1);
        delete w;
        w = new World;
        w->list.mNumNodes = 5;
        w->list.mNodes = w->nodes;
        double x[1] = {1.0};
        for (int i = 0; i < 5; ++i) {
            w->nodes[i].initialize("n" + std::to_string(i), config);
            PolyFluidInputData fluid(300.0, i < 4 ? c[1 + i] / 8.0 : 100.0, 0.0, 1.0, x);
            PolyFluid poly(*config, fluid);
            w->nodes[i].getContent()->setState(&poly);
            w->nodes[i].resetFlows();
        }
        const int kind = c[0];
        const double g0 = c[5] * 1e-9, g1 = c[6] * 1e-9, pos = c[7] / 1000.0, rate = c[8] / 100.0, a = c[9] / 8.0, b = c[10] / 8.0, d = c[11] / 8.0;
        const double pp = c[12] / 100.0, ps = c[13] / 4.0, k0 = c[14] / 8.0, k1 = c[15] / 8.0, set = c[16] / 8.0, band = c[18] / 100.0;
        const bool pathB = c[17] == 1;
        GunnsFluidLink* l = 0;
        switch (kind) {
        case VALVE:
            w->valve = new GunnsFluidValve;
            w->valve->initialize(GunnsFluidValveConfigData("v", &w->list, g0, 0.0, 0.0, 0.0, 0.0), GunnsFluidValveInputData(false, 0.0, pos, false, 0.0, 300.0), w->links, 0, 1);
            l = w->valve; break;
        case CHECK:
            w->valve = w->check = new GunnsFluidCheckValve;
            w->check->initialize(GunnsFluidCheckValveConfigData("v", &w->list, g0, 0.0, 0.0, 0.0, 0.0, rate, a, b),
                                 GunnsFluidCheckValveInputData(false, 0.0, pos, false, 0.0, 300.0, false, false, 0.0), w->links, 0, 1);
            l = w->valve; break;
        case WAY3:
            w->way = new GunnsFluid3WayValve;
            w->way->initialize(GunnsFluid3WayValveConfigData("v", &w->list, pathB, g0, g1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, band),
                               GunnsFluid3WayValveInputData(pos, 300.0, 300.0), w->links, 0, 1, 2);
            l = w->way; break;
        case CHECK3:
            w->way = w->wayCheck = new GunnsFluid3WayCheckValve;
            w->wayCheck->initialize(GunnsFluid3WayCheckValveConfigData("v", &w->list, pathB, g0, g1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, rate, a, b, d),
                                    GunnsFluid3WayCheckValveInputData(pos, 300.0, 300.0, false, false, 0.0), w->links, 0, 1, 2);
            l = w->way; break;
        case RELIEF: {
            GunnsFluidReliefValve* v = new GunnsFluidReliefValve;
            w->relief = v;
            v->initialize(GunnsFluidReliefValveConfigData("v", &w->list, g0, 0.0, rate, 0.0, 0.0, 0.0, a, b, d, pp, ps, k0, k1),
                          GunnsFluidReliefValveInputData(false, 0.0, pos, false, 0.0, false, 0.0, set, 300.0, false, false, 0.0), w->links, 0, 1, 2, 3);
            l = v; break;
        }
        case REGULATOR: {
            GunnsFluidRegulatorValve* v = new GunnsFluidRegulatorValve;
            w->relief = v;
            v->initialize(GunnsFluidRegulatorValveConfigData("v", &w->list, g0, 0.0, rate, 0.0, 0.0, 0.0, a, b, d, pp, ps, k0, k1),
                          GunnsFluidRegulatorValveInputData(false, 0.0, pos, false, 0.0, false, 0.0, set, 300.0, false, false, 0.0), w->links, 0, 1, 2, 3);
            l = v; break;
        }
        case PRV:
            w->prv = new GunnsFluidBalancedPrv;
            w->prv->initialize(GunnsFluidBalancedPrvConfigData("v", &w->list, c[9]), GunnsFluidBalancedPrvInputData(false, 0.0, false, 0.0, b), w->links, 0, 1, 2);
            l = w->prv; break;
        default: vf::refuse(c);
        }
        w->all.push_back(l);
        if (w->way) { w->all.push_back(&w->way->mPathA); w->all.push_back(&w->way->mPathB); }
        for (GunnsFluidLink* x : w->all) x->setMinLinearizationPotential(0.5);
        potentials(c, 1);
    }
    else if (c.name == "Position") {
        if (w->valve) w->valve->setPosition(c[0] / 1000.0);
        else if (w->way) w->way->setPosition(c[0] / 1000.0);
        else w->relief->setPosition(c[0] / 1000.0);
    }
    else if (c.name == "Stuck") {
        if (w->check) w->check->setMalfStuck(c[0]);
        else if (w->wayCheck) w->wayCheck->setMalfStuck(c[0]);
        else w->relief->setMalfStuck(c[0]);
    }
    else if (c.name == "FailTo") {
        if (w->check) w->check->setMalfFailTo(c[0], c[1] / 1000.0);
        else if (w->wayCheck) w->wayCheck->setMalfFailTo(c[0], c[1] / 1000.0);
        else w->relief->setMalfFailTo(c[0], c[1] / 1000.0);
    }
    else if (c.name == "Leak") {
        if (w->valve) w->valve->setMalfLeakThru(c[0], c[1] * 1e-6);
        else w->relief->setMalfLeakThru(c[0], c[1] * 1e-6);
    }
    else if (c.name == "Bias") {
        if (w->prv) w->prv->setMalfPressureBias(c[0], c[1] / 8.0);
        else w->relief->setMalfPressureBias(c[0], c[1] / 8.0);
    }
    else if (c.name == "SetPoint") {
        if (w->prv) w->prv->mPressureSetpoint = c[0] / 8.0;
        else w->relief->mSetPointPressureBias = c[0] / 8.0;
    }
    else if (c.name == "Block")   w->all[c[0]]->setMalfBlockage(c[1], c[2] / 100.0);
    else if (c.name == "Tune") {
        if (w->valve) { w->valve->mTuneMode = GunnsFluidUtils::MASS; w->valve->mTuneMassFlow = c[0] * 1e-6; }
        else          { w->relief->mTuneMode = GunnsFluidUtils::MASS; w->relief->mTuneMassFlow = c[0] * 1e-6; }
    }
    else if (c.name == "Restart") for (GunnsFluidLink* l : w->all) l->restart();
    else if (c.name == "Step") {
        for (int i = 0; i < 5; ++i) w->nodes[i].resetFlows();
        for (GunnsFluidLink* l : w->all) l->step(DT);
        potentials(c, 0);
        for (GunnsFluidLink* l : w->all) l->computeFlows(DT);
        for (GunnsFluidLink* l : w->all) l->transportFlows(DT);
    }
    else vf::refuse(c);

    vf::Rec r;
    vf::Arr k, g, flow, pos, in, out;
    std::vector<GunnsFluidConductor*> paths;
    if (w->valve) paths.push_back(w->valve);
    if (w->way) { paths.push_back(&w->way->mPathA); paths.push_back(&w->way->mPathB); }
    for (GunnsFluidConductor* p : paths) {
        k.r(p->getEffectiveConductivity(), 1e9);
        g.r(p->mMaxConductivity, 1e9);
        flow.r(p->getFlowRate(), 1e6);
        pos.i(position(static_cast<GunnsFluidValve*>(p)->getPosition()));
    }
    if (w->relief) {
        k.r(w->relief->mEffectiveConductivity, 1e9);
        g.r(w->relief->mMaxConductivity, 1e9);
        flow.r(w->relief->getFlowRate(), 1e6);
        pos.i(position(w->relief->getPosition()));
    }
    if (w->prv) flow.r(w->prv->getFlowRate(), 1e6).r(w->prv->mInletFlowRate, 1e6);
    for (int i = 0; i < 5; ++i) {
        in.r(w->nodes[i].mInfluxRate, 1e6);
        out.r(w->nodes[i].mOutfluxRate, 1e6);
    }
    r.raw("k", k.json()).raw("g", g.json()).raw("flow", flow.json()).raw("path", pos.json())
     .i("pos", w->way ? position(w->way->mPosition) : w->valve ? position(w->valve->getPosition()) : w->relief ? position(w->relief->getPosition()) : 0)
     .i("state", w->state()).r("buf", w->prv ? w->prv->mInletMassBuffer : 0.0, 1e6)
     .raw("in", in.json()).raw("out", out.json());
    if (c.name == "Step") impose(c, 0);
    return r.json();
}

int main() { return vf::run(perform); }

#include "vf.hh"
#include "messages.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/source/GunnsFluidAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidMultiAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorGas.hh"
#include "aspects/fluid/source/GunnsFluidSelectiveMembrane.hh"
#include "aspects/fluid/source/GunnsFluidMultiSeparator.hh"

// One process link between nodes whose gas the schedule imposes; the schedule also says how much flows through it. Amounts in 1e-11 kmol.
enum Kind {ADSORBER, MULTI, SEPARATOR, MEMBRANE, SPLITTER};
static const int NF = 3, NN = 4;
static const double DT = 0.125, U = 1.0e-11, PER = 1.0e11;
static DefinedFluidProperties             properties;
static DefinedChemicalCompounds           compounds;
static FluidProperties::FluidType         types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_H2O, FluidProperties::GUNNS_CO2};
static ChemicalCompound::Type             tcTypes[1] = {ChemicalCompound::NH3};
static GunnsFluidTraceCompoundsConfigData tcConfig(tcTypes, 1, "tc");
static PolyFluidConfigData*               config = 0;
static double mw(int i)  { return properties.getProperties(types[i])->getMWeight(); }
static double mwTc()     { return compounds.getCompound(ChemicalCompound::NH3)->mMWeight; }

struct World {
    GunnsFluidNode               nodes[NN + 1];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    int                          kind, gas;
    GunnsFluidAdsorber*          ads;
    GunnsFluidMultiAdsorber*     multi;
    GunnsFluidSeparatorGas*      sep;
    GunnsFluidSelectiveMembrane* mem;
    GunnsFluidMultiSeparator*    split;
    GunnsFluidLink*              link;
    int                          h2o, co2;      // of the splitter, or the compounds of the multi-adsorber; -1 if none
    double                       p[NN];
    World() : ads(0), multi(0), sep(0), mem(0), split(0), link(0), h2o(-1), co2(-1) {}
    ~World() { delete ads; delete multi; delete sep; delete mem; delete split; }
};
static World* w = 0;

static void impose(int i, int h, int c, int t, int p)
{
    double x[NF] = {(1000 - h - c) / 1000.0, h / 1000.0, c / 1000.0}, mass[NF], all = 0.0;
    for (int j = 0; j < NF; ++j) all += mass[j] = x[j] * mw(j);
    for (int j = 0; j < NF; ++j) mass[j] /= all;
    double tc[1] = {t / 1.0e4 * mwTc() / all};     // as mass fraction of the bulk
    GunnsFluidTraceCompoundsInputData trace(tc);
    PolyFluidInputData fluid(300.0, p, 0.0, 1.0, mass, &trace);
    PolyFluid poly(*config, fluid);
    double mf[1] = {t / 1.0e4};
    PolyFluid* content = const_cast<PolyFluid*>(w->nodes[i].getContent());
    content->setState(&poly);
    content->getTraceCompounds()->setMoleFractions(mf);
    content->setMass(1.0);
    w->nodes[i].setPotential(p);
    w->nodes[i].resetFlows();
    w->p[i] = p;
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    if (c.name == "Init") {     // kind, gas of every node (H2O, CO2: permille, NH3: 1e-4, kPa), of the link: see Process.tla
        if (!config) config = new PolyFluidConfigData(&properties, types, NF, &tcConfig);
        delete w;
        w = new World;
        w->kind = c[0];
        w->list.mNumNodes = NN + 1;
        w->list.mNodes = w->nodes;
        for (int i = 0; i <= NN; ++i) w->nodes[i].initialize("n" + std::to_string(i), config);
        double x[NF] = {1.0, 0.0, 0.0}, none[1] = {0.0};
        GunnsFluidTraceCompoundsInputData noTc(none);
        PolyFluidInputData fluid(300.0, 100.0, 0.0, 1.0, x, &noTc);
        for (int i = 0; i < NN; ++i) {
            w->nodes[i].getContent()->initialize(*config, fluid);
            impose(i, c[1], c[2], c[3], c[4]);
        }
        const double g = 1.0;
        switch (c[0]) {
        case ADSORBER: {        // gas, efficiency, greatest rate, capacity, desorption rate, desorbing, adsorbed, trace compound: efficiency, capacity, adsorbed
            const int k = c[5];
            w->gas = k;
            double e[1] = {c[12] / 1000.0}, m[1] = {c[13] * U * mwTc()}, a[1] = {c[14] * U * mwTc()};
            GunnsFluidTraceCompoundsInputData te(e), tm(m), ta(a);
            w->link = w->ads = new GunnsFluidAdsorber;
            w->ads->initialize(GunnsFluidAdsorberConfigData("a", &w->list, g, 0.0, types[k], c[6] / 1000.0, c[7] * U * mw(k), c[8] * U * mw(k), c[9] * U * mw(k), 0.0, 0.0, 0.0),
                               GunnsFluidAdsorberInputData(false, 0.0, c[10] == 1, c[11] * U * mw(k), 300.0, &te, &tm, &ta), w->links, 0, 1);
            break;
        }
        case MULTI: {           // twice: present, capacity, c0, c1, switching pressure, rate factor, taper, dependent, exponent, adsorbed
            GunnsFluidMultiAdsorberConfigData cfg("m", &w->list, g, 0.0, 0.0, 0.0, 0.0);
            const ChemicalCompound::Type ct[2] = {ChemicalCompound::H2O, ChemicalCompound::CO2};
            int n = 0;
            for (int i = 0; i < 2; ++i) {
                const size_t at = 5 + 10 * i;
                if (!c[at]) continue;
                (i ? w->co2 : w->h2o) = n++;
                const double one = U * mw(1 + i);
                cfg.addCompound(ct[i], c[at + 1] * one, c[at + 2] / 1000.0, c[at + 3] * 1.0e-5, c[at + 4] / 1000.0, c[at + 5] * one, 100.0, c[at + 6] == 1,
                                c[at + 7] == 1 ? ct[1 - i] : ChemicalCompound::NO_COMPOUND, false, 0.0, c[at + 9] * one, c[at + 8]);
            }
            if (c[25] == 1)     // the trace compound too: efficiency 0.5, capacity 1e9
                cfg.addCompound(ChemicalCompound::NH3, 1.0e9 * U * mwTc(), 0.5, 0.0, 0.0, 0.0, 0.0, false, ChemicalCompound::NO_COMPOUND, false, 0.0, 0.0, 1.0);
            w->link = w->multi = new GunnsFluidMultiAdsorber;
            w->multi->initialize(cfg, GunnsFluidMultiAdsorberInputData(false, 0.0, 300.0), w->links, 0, 1);
            break;
        }
        case SEPARATOR:         // exponent, capacity, reference speed, pressure, removal rate, speed, transfer rate, liquid
            w->link = w->sep = new GunnsFluidSeparatorGas;
            w->sep->initialize(GunnsFluidSeparatorGasConfigData("s", &w->list, g, types[1], c[5], c[6] * U * mw(1), c[7], c[8], c[9] * U * mw(1)),
                               GunnsFluidSeparatorGasInputData(false, 0.0, c[10], c[11] * U * mw(1), c[12] * U * mw(1)), w->links, 0, 1);
            break;
        case MEMBRANE: {        // coefficient, gas
            const int k = c[6];
            w->gas = k;
            w->link = w->mem = new GunnsFluidSelectiveMembrane;
            w->mem->initialize(GunnsFluidSelectiveMembraneConfigData("m", &w->list, g, c[5] * U * mw(k), types[k], types[k]),
                               GunnsFluidSelectiveMembraneInputData(false, 0.0), w->links, 0, 1, 2);
            break;
        }
        case SPLITTER: {        // ports; H2O: port, permille; CO2: port, permille; trace compound: port, permille; CO2 first
            std::vector<FluidProperties::FluidType> ft;
            std::vector<ChemicalCompound::Type> tt;
            std::vector<int> fp, tp, ports;
            std::vector<double> ff, tf;
            for (int j = 0; j < 2; ++j) {
                const int i = c[12] == 1 ? 1 - j : j;
                if (!c[6 + 2 * i]) continue;
                (i ? w->co2 : w->h2o) = (int) ft.size();
                ft.push_back(types[1 + i]);
                fp.push_back(c[6 + 2 * i]);
                ff.push_back(c[7 + 2 * i] / 1000.0);
            }
            if (c[10]) { tt.push_back(tcTypes[0]); tp.push_back(c[10]); tf.push_back(c[11] / 1000.0); }
            for (int i = 0; i < c[5]; ++i) ports.push_back(i);
            w->link = w->split = new GunnsFluidMultiSeparator;
            w->split->initialize(GunnsFluidMultiSeparatorConfigData("s", &w->list, g, &ft, &fp, &tt, &tp), GunnsFluidMultiSeparatorInputData(false, 0.0, &ff, &tf),
                                 w->links, &ports);
            break;
        }
        default: vf::refuse(c);
        }
        w->link->setMinLinearizationPotential(0.5);
        for (int i = 0; i < w->link->mNumPorts; ++i) w->link->mPotentialVector[i] = c[4];
    }
    else if (c.name == "Gas")      impose(c[0], c[1], c[2], c[3], c[4]);
    else if (c.name == "Cycle")    w->ads->mDesorbtionCycle = c[0] == 1;
    else if (c.name == "Malf") {    // flag, permille, compound
        if (w->ads)        w->ads->setMalfEfficiency(c[0] == 1, c[1] / 1000.0);
        else if (w->multi) { if ((c[2] ? w->co2 : w->h2o) >= 0) w->multi->mCompounds[c[2] ? w->co2 : w->h2o].setMalfEfficiency(c[0] == 1, c[1] / 1000.0); }
        else               w->mem->setMalfMembraneDegrade(c[0] == 1, c[1] / 1000.0);
    }
    else if (c.name == "Speed")    w->sep->mSeparatorSpeed = c[0];
    else if (c.name == "Transfer") w->sep->mTransferFlowRate = c[0] * U * mw(1);
    else if (c.name == "Fraction") {
        if (c[0] < 2) { if ((c[0] ? w->co2 : w->h2o) >= 0) w->split->mSepFraction[c[0] ? w->co2 : w->h2o] = c[1] / 1000.0; }
        else if (w->split->mNumTcTypes > 0) w->split->mTcFraction[0] = c[1] / 1000.0;
    }
    else if (c.name == "Restart")  w->link->restart();
    else if (c.name == "Step") {
        GunnsFluidLink* l = w->link;
        for (int i = 0; i <= NN; ++i) w->nodes[i].resetFlows();
        l->step(DT);
        const double d = c[0] * U / l->mAdmittanceMatrix[0];
        l->mPotentialVector[0] = w->p[0] + d / 2.0;
        l->mPotentialVector[1] = w->p[0] - d / 2.0;
        for (int i = 2; i < l->mNumPorts; ++i) l->mPotentialVector[i] = w->p[i];
        l->computeFlows(DT);
        l->transportFlows(DT);
    }
    else vf::refuse(c);

    vf::Rec r;
    vf::Arr in, out, src, stored;
    for (int i = 0; i < NN; ++i) {
        GunnsFluidNode& n = w->nodes[i];
        vf::Arr a, b;
        const PolyFluid* f = n.getOutflow();
        bool any = false;
        for (int j = 0; j < NF; ++j) if (n.mInflow.getMassFraction(types[j]) != 0.0) any = true;
        for (int j = 0; j < NF; ++j) {
            a.r(any ? n.mInfluxRate * n.mInflow.getMassFraction(types[j]) / mw(j) : j == 0 ? n.mInfluxRate : 0.0, PER);
            b.r(n.mOutfluxRate * f->getMassFraction(types[j]) / mw(j), PER);
        }
        a.r((n.mInflow.getTraceCompounds()->getMasses()[0] + n.mTcInflow.mState[0]) / mwTc(), PER);
        b.r(n.mOutfluxRate / f->getMWeight() * f->getTraceCompounds()->getMoleFractions()[0], PER);
        in.raw(a.json());
        out.raw(b.json());
        src.r(i < w->link->mNumPorts ? w->link->mSourceVector[i] : 0.0, PER);
    }
    if (w->ads)   stored.r(w->ads->mAdsorbedMass / mw(w->gas), PER).r(w->ads->mTcAdsorbedMass[0] / mwTc(), PER);
    if (w->multi) {
        for (int i = 0; i < 2; ++i) {
            const int k = i ? w->co2 : w->h2o;
            stored.r(k < 0 ? 0.0 : w->multi->mCompounds[k].mAdsorbedMass / mw(1 + i), PER);
        }
        stored.r(w->multi->mNCompounds > 0 && w->multi->mCompounds[w->multi->mNCompounds - 1].isTraceCompound() ?
                 w->multi->mCompounds[w->multi->mNCompounds - 1].mAdsorbedMass / mwTc() : 0.0, PER);
        r.r("heat", w->multi->mWallHeatFlux, 1000.0);
    }
    if (w->sep) {
        stored.r(w->sep->mLiquidMass / mw(1), PER).r(w->sep->mLiquidMassError / mw(1), PER);
        r.b("over", w->sep->mLiquidOverflow).r("dp", w->sep->mLiquidDeltaP, 1000.0);
    }
    if (w->split) for (int i = 0; i < 2; ++i) {
        const int k = i ? w->co2 : w->h2o;
        stored.r(k < 0 ? 0.0 : w->split->mSepBufferThru[k], PER);
    }
    r.raw("in", in.json()).raw("out", out.json()).raw("src", src.json()).raw("stored", stored.json()).r("flow", w->link->mFlux, PER).i("said", (long) (hs.warnings + hs.errors));
    return r.json();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

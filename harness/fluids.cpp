#include "vf.hh"
#include "messages.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"

// Three fluids of the same gases and trace compounds, mixed, set and edited. Units: see Fluids.tla.
static const int NF = 3, NT = 2, NX = 3;
static DefinedFluidProperties             properties;
static DefinedChemicalCompounds           compounds;
static FluidProperties::FluidType         types[NF] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_CO2, FluidProperties::GUNNS_HE};
static ChemicalCompound::Type             tcTypes[NT] = {ChemicalCompound::NH3, ChemicalCompound::CO};
static GunnsFluidTraceCompoundsConfigData tcConfig(tcTypes, NT, "tc");
static PolyFluidConfigData*               config = 0;
static PolyFluid*                         f[NX] = {0, 0, 0};

static std::string show(PolyFluid& x)
{
    vf::Arr mf, xf, pp, cm, cf, tx, tm, each, whole;
    for (int k = 0; k < NF; ++k) {
        MonoFluid* c = x.getConstituent(types[k]);
        mf.r(x.getMassFraction(k), 1.0e6);
        xf.r(x.getMoleFraction(k), 1.0e6);
        pp.r(x.getPartialPressure(types[k]), 1000.0);
        cm.r(c->getMass(), 1.0e6);
        cf.r(c->getFlowRate(), 1.0e6);
        const FluidProperties* of = properties.getProperties(types[k]);
        each.r(of->getViscosity(x.getTemperature(), x.getPressure()), 1.0e10).r(of->getThermalConductivity(x.getTemperature(), x.getPressure()), 1.0e7)
            .r(of->getPrandtlNumber(x.getTemperature(), x.getPressure()), 1.0e6).r(of->getAdiabaticIndex(x.getTemperature(), x.getPressure()), 1.0e6);
    }
    whole.r(x.getViscosity(), 1.0e10).r(x.getThermalConductivity(), 1.0e7).r(x.getPrandtlNumber(), 1.0e6).r(x.getAdiabaticIndex(), 1.0e6);
    for (int k = 0; k < NT; ++k) {
        tx.r(x.getTraceCompounds()->getMoleFractions()[k], 1.0e9);
        tm.r(x.getTraceCompounds()->getMasses()[k], 1.0e8);
    }
    return vf::Rec().r("t", x.getTemperature(), 100.0).r("p", x.getPressure(), 1000.0).r("fl", x.getFlowRate(), 1.0e6).r("m", x.getMass(), 1.0e6).r("n", x.getMole(), 1.0e7)
        .raw("mf", mf.json()).raw("x", xf.json()).r("mw", x.getMWeight(), 1000.0).r("d", x.getDensity(), 1.0e6).r("cp", x.getSpecificHeat(), 100.0).r("h", x.getSpecificEnthalpy(), 1.0)
        .raw("pp", pp.json()).raw("cm", cm.json()).raw("cf", cf.json()).raw("tx", tx.json()).raw("tm", tm.json()).raw("each", each.json()).raw("whole", whole.json()).json();
}

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    bool threw = false;
    vf::Rec more;
    try {
        if (c.name == "Init") {
            if (!config) config = new PolyFluidConfigData(&properties, types, NF, &tcConfig);
            for (int i = 0; i < NX; ++i) {      // per fluid: temperature, pressure, flow, mass, two mass fractions (permille), two trace compounds
                delete f[i];
                f[i] = 0;
                double mf[NF] = {(1000 - c[8 * i + 4] - c[8 * i + 5]) / 1000.0, c[8 * i + 4] / 1000.0, c[8 * i + 5] / 1000.0};
                double tc[NT] = {c[8 * i + 6] * 1.0e-9, c[8 * i + 7] * 1.0e-9};
                GunnsFluidTraceCompoundsInputData trace(tc);
                PolyFluidInputData in(c[8 * i] / 100.0, c[8 * i + 1] / 1000.0, c[8 * i + 2] / 1.0e4, c[8 * i + 3] / 1000.0, mf, &trace);
                f[i] = new PolyFluid(*config, in);
            }
        }
        else if (c.name == "Reset")  f[c[0]]->resetState();
        else if (c.name == "Set")    f[c[0]]->setState(f[c[1]]);
        else if (c.name == "Copy")   { PolyFluid* old = f[c[0]]; f[c[0]] = new PolyFluid(*f[c[1]], "copy"); delete old; }
        else if (c.name == "Add")    f[c[0]]->addState(f[c[1]], c[2] / 1.0e4);
        else if (c.name == "Temp")   f[c[0]]->setTemperature(c[1] / 100.0);
        else if (c.name == "Press")  f[c[0]]->setPressure(c[1] / 1000.0);
        else if (c.name == "Flow")   f[c[0]]->setFlowRate(c[1] / 1.0e4);
        else if (c.name == "Mass")   f[c[0]]->setMass(c[1] / 1000.0);
        else if (c.name == "Mole")   f[c[0]]->setMole(c[1] / 1.0e5);
        else if (c.name == "Mix" or c.name == "MixMole") {      // amount, three fractions (1e-6)
            double x[NF] = {c[2] / 1.0e6, c[3] / 1.0e6, c[4] / 1.0e6};
            if (c.name == "Mix") f[c[0]]->setMassAndMassFractions(c[1] / 1000.0, x); else f[c[0]]->setMoleAndMoleFractions(c[1] / 1.0e5, x);
            f[c[0]]->setTemperature(f[c[0]]->getTemperature());
        }
        else if (c.name == "Masses") {                          // mass of each constituent
            for (int k = 0; k < NF; ++k) f[c[0]]->setMass(k, c[k + 1] / 1000.0);
            f[c[0]]->updateMass();
            f[c[0]]->setTemperature(f[c[0]]->getTemperature());
            f[c[0]]->setFlowRate(f[c[0]]->getFlowRate());
            f[c[0]]->getTraceCompounds()->updateMasses();
        }
        else if (c.name == "Edit")   f[c[0]]->edit(c[1] / 100.0, c[2] / 1000.0);
        else if (c.name == "EditMix") { double pp[NF] = {c[2] / 1000.0, c[3] / 1000.0, c[4] / 1000.0}; f[c[0]]->edit(c[1] / 100.0, pp); }
        else if (c.name == "TcMass") { f[c[0]]->getTraceCompounds()->setMass(tcTypes[c[1]], c[2] * 1.0e-8); f[c[0]]->getTraceCompounds()->updateMoleFractions(); }
        else if (c.name == "TcIn")   f[c[0]]->getTraceCompounds()->flowIn(*f[c[1]]->getTraceCompounds(), c[2] / 1.0e5);
        else if (c.name == "TcRates") { const double rates[NT] = {c[1] * 1.0e-8, c[2] * 1.0e-8}; f[c[0]]->getTraceCompounds()->flowIn(rates, 0.5); }
        else if (c.name == "TcOut")  { f[c[0]]->getTraceCompounds()->flowOut(c[1] / 1.0e5); f[c[0]]->getTraceCompounds()->limitPositive(); }
        else if (c.name == "Ask") {             // what the state equations say at another temperature and pressure
            const double t = c[1] / 100.0, p = c[2] / 1000.0;
            more.r("h", f[c[0]]->computeSpecificEnthalpy(t, p), 1.0).r("t", f[c[0]]->computeTemperature(f[c[0]]->computeSpecificEnthalpy(t, p)), 100.0)
                .r("d", f[c[0]]->computeDensity(t, p), 1.0e6).r("p", f[c[0]]->computePressure(t, f[c[0]]->computeDensity(t, p)), 1000.0);
        }
        else vf::refuse(c);
    } catch (TsOutOfBoundsException&) {
        threw = true;
    }
    vf::Arr all, M, A, Bs, tM;
    for (int i = 0; i < NX; ++i) all.raw(show(*f[i]));
    vf::Rec r;
    r.b("threw", threw).raw("f", all.json());
    if (c.name == "Ask") r.raw("ask", more.json());
    if (c.name == "Init") {
        for (int k = 0; k < NF; ++k) {
            const FluidProperties* q = properties.getProperties(types[k]);
            const double c1 = q->getSpecificHeat(250.0, 100.0), c2 = q->getSpecificHeat(350.0, 100.0);
            M.r(q->getMWeight(), 1000.0);
            A.r(c1 - 250.0 * (c2 - c1) / 100.0, 100.0);
            Bs.r((c2 - c1) / 100.0, 1.0e5);
        }
        for (int k = 0; k < NT; ++k) tM.r(compounds.getCompound(tcTypes[k])->mMWeight, 1000.0);
        r.raw("M", M.json()).raw("A", A.json()).raw("B", Bs.json()).raw("tM", tM.json());
    }
    return r.json();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

#include "vf.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "software/exceptions/TsNumericalException.hh"

static Gunns*          net = 0;
static GunnsBasicNode* nodes = 0;
static GunnsNodeList   nodeList;
static int             N = 0;
struct L { int type; GunnsBasicLink* link; };
static std::vector<L> links;
static std::vector<GunnsBasicLink*> vec;
static const double S = 1.0e4;

static std::string perform(const vf::Cmd& c)
{
    bool threw = false;
    long ret = -1;
    if (c.name == "Init") {
        delete net; delete [] nodes;
        for (L& l : links) delete l.link;
        links.clear(); vec.clear();
        N = c[0];
        net = new Gunns();
        nodes = new GunnsBasicNode[N + 1];
        nodeList.mNumNodes = N + 1;
        nodeList.mNodes = nodes;
        for (int i = 0; i <= N; ++i) nodes[i].initialize("n" + std::to_string(i), 0.0);
        net->initializeNodes(nodeList);
        for (int i = 0; i < c[1]; ++i) {
            const int t = c[2 + 3*i], p0 = c[3 + 3*i], p1 = c[4 + 3*i];
            const std::string name = "l" + std::to_string(i);
            L l = {t, 0};
            if (t == 1) {
                GunnsBasicConductor* x = new GunnsBasicConductor();
                x->initialize(GunnsBasicConductorConfigData(name, &nodeList, 0.0), GunnsBasicConductorInputData(), vec, p0, p1);
                l.link = x;
            } else if (t == 2) {
                GunnsBasicPotential* x = new GunnsBasicPotential();
                x->initialize(GunnsBasicPotentialConfigData(name, &nodeList, 0.0), GunnsBasicPotentialInputData(), vec, p0, p1);
                l.link = x;
            } else if (t == 3) {
                GunnsBasicSource* x = new GunnsBasicSource();
                x->initialize(GunnsBasicSourceConfigData(name, &nodeList), GunnsBasicSourceInputData(), vec, p0, p1);
                l.link = x;
            } else {
                GunnsBasicCapacitor* x = new GunnsBasicCapacitor();
                x->initialize(GunnsBasicCapacitorConfigData(name, &nodeList), GunnsBasicCapacitorInputData(), vec, p0, p1);
                l.link = x;
            }
            links.push_back(l);
        }
        net->initialize(GunnsConfigData("net", 1.0, 0.1, 5, 5), vec);
    } else if (c.name == "Conduct") {
        L& l = links[c[0] - 1];
        if (l.type == 4) static_cast<GunnsBasicCapacitor*>(l.link)->editCapacitance(true, c[1] / 100.0);
        else             static_cast<GunnsBasicConductor*>(l.link)->setDefaultConductivity(c[1] / 100.0);
    } else if (c.name == "Source") {
        L& l = links[c[0] - 1];
        if (l.type == 2) static_cast<GunnsBasicPotential*>(l.link)->setSourcePotential(c[1]);
        else             static_cast<GunnsBasicSource*>(l.link)->setFluxDemand(c[1]);
    } else if (c.name == "Block")    links[c[0] - 1].link->setMalfBlockage(c[1] == 1, c[2] / 100.0);
    else if (c.name == "SetPort")    ret = links[c[0] - 1].link->setPort(c[1], c[2]);
    else if (c.name == "UserPort") {
        GunnsBasicLink* l = links[c[0] - 1].link;
        l->mUserPortSetControl = static_cast<GunnsBasicLink::UserPortControl>(c[1]);
        l->mUserPortSelect     = c[2];
        l->mUserPortSelectNode = c[3];
    }
    else if (c.name == "Lock")       c[1] == 1 ? links[c[0] - 1].link->lockNodeMap() : links[c[0] - 1].link->unlockNodeMap();
    else if (c.name == "Island")     net->setIslandMode(c[0] == 0 ? Gunns::OFF : c[0] == 1 ? Gunns::FIND : Gunns::SOLVE);
    else if (c.name == "Request")    nodes[c[0]].setNetworkCapacitanceRequest(c[1]);
    else if (c.name == "Override")   c[2] == 1 ? links[c[0] - 1].link->setPortOverride(c[1], c[3]) : links[c[0] - 1].link->resetPortOverride(c[1]);
    else if (c.name == "Restart")    net->restart();
    else if (c.name == "Step") {
        try { net->step(c[0]); } catch (TsNumericalException&) { threw = true; }
    } else vf::refuse(c);

    vf::Arr map, user;
    for (L& l : links) {
        map.raw(vf::Arr().i(l.link->getNodeMap()[0]).i(l.link->getNodeMap()[1]).json());
        user.raw(vf::Arr().i(l.link->mUserPortSetControl).i(l.link->mUserPortSelect).i(l.link->mUserPortSelectNode).json());
    }
    vf::Rec r;
    r.b("threw", threw).i("ret", ret).raw("map", map.json()).raw("user", user.json());
    if (c.name == "Step") {
        vf::Arr p, in, out, thru, ncap, d, isl, flux, lp;
        for (int i = 0; i <= N; ++i) p.r(nodes[i].getPotential(), S);
        for (int i = 0; i < N; ++i) {
            in.r(nodes[i].getInflux(), S);
            out.r(nodes[i].getOutflux(), S);
            thru.r(nodes[i].getFluxThrough(), S);
            ncap.r(nodes[i].getNetworkCapacitance(), 1000.0);
            vf::Arr di, is;
            for (int j = 0; j < N; ++j) di.r(nodes[i].getNetCapDeltaPotential()[j], 1000.0);
            if (nodes[i].getIslandVector()) for (int j : *nodes[i].getIslandVector()) is.i(j);
            d.raw(di.json());
            isl.raw(is.json());
        }
        for (L& l : links) {
            flux.r(l.link->getFlux(), S);
            lp.raw(vf::Arr().r(l.link->getPotentialVector()[0], S).r(l.link->getPotentialVector()[1], S).json());
        }
        r.raw("P", p.json()).raw("in", in.json()).raw("out", out.json()).raw("thru", thru.json())
         .raw("ncap", ncap.json()).raw("d", d.json()).raw("isl", isl.json()).raw("flux", flux.json()).raw("lp", lp.json());
    }
    return r.json();
}
int main() { return vf::run(perform); }

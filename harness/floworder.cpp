#include "vf.hh"
#include "messages.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicFlowOrchestrator.hh"
#include "core/GunnsFluidFlowOrchestrator.hh"

// Real orchestrators over links and nodes that only record the calls.
static vf::Arr calls;
static bool    sameDt;
static std::vector<std::vector<long> > dirs;
static const double DT = 0.125;

struct Link : public GunnsBasicLink {
    int k;
    Link(int i, int ports) : GunnsBasicLink(ports), k(i) { mName = "L" + std::to_string(i); mPortDirections = new PortDirection[ports](); }
    void step(const double) {}
    void computeFlows(const double dt) {
        sameDt = sameDt && dt == DT;
        calls.raw("[1," + std::to_string(k) + "]");
        static const PortDirection d[] = {NONE, SOURCE, SINK, BOTH};
        for (int p = 0; p < mNumPorts; ++p) mPortDirections[p] = d[dirs[k][p]];
    }
    void transportFlows(const double dt) { sameDt = sameDt && dt == DT; calls.raw("[2," + std::to_string(k) + "]"); }
    void restartModel() {}
};
struct Node : public GunnsBasicNode {
    int  k;
    bool over;
    Node() : k(0), over(false) {}
    bool isOverflowing(const double dt) const { sameDt = sameDt && dt == DT; return over; }
    void integrateFlows(const double dt) { sameDt = sameDt && dt == DT; calls.raw("[3," + std::to_string(k) + "]"); }
};

int main() {
    std::vector<GunnsBasicLink*> links;
    std::vector<GunnsBasicNode*> nodes;
    std::vector<int*>            maps;
    std::vector<int>             ports;
    vf::Messages                 hs;
    int                          nl = 0, nn = 0;
    GunnsBasicFlowOrchestrator*  o = 0;
    return vf::run([&](const vf::Cmd& c) {
        calls = vf::Arr();
        sameDt = true;
        hs.clear();
        if (c.name == "Init") {
            delete o;
            for (auto l : links) delete l;
            for (auto n : nodes) delete n;
            for (auto m : maps) delete[] m;
            links.clear(); nodes.clear(); maps.clear(); ports.clear(); dirs.clear();
            nn = c[1]; nl = c[2];
            size_t at = 3;
            for (int l = 0; l < nl; ++l) {
                const int np = c[at++];
                ports.push_back(np);
                int* m = new int[np];
                for (int p = 0; p < np; ++p) m[p] = c[at++];
                maps.push_back(m);
                links.push_back(new Link(l, np));
                dirs.push_back(std::vector<long>(np));
            }
            for (int n = 0; n < nn; ++n) { Node* x = new Node; x->k = n; nodes.push_back(x); }
            o = c[0] ? new GunnsFluidFlowOrchestrator(nl, nn) : new GunnsBasicFlowOrchestrator(nl, nn);
            o->initialize("o", links.data(), nodes.data(), maps.data(), ports.data());
        } else if (c.name == "Step") {
            size_t at = 0;
            for (int l = 0; l < nl; ++l) for (int p = 0; p < ports[l]; ++p) dirs[l][p] = c[at++];
            for (int n = 0; n < nn - 1; ++n) static_cast<Node*>(nodes[n])->over = c[at++];
            try { o->update(DT); } catch (...) { calls.raw("[9,0]"); }
        } else vf::refuse(c);
        return vf::Rec().raw("calls", calls.json()).i("warnings", hs.warnings).b("dt", sameDt).json();
    });
}

#include "vf.hh"
#include "interop/Distributed2WayBusElect.hh"
#include <deque>
#include <memory>

typedef Distributed2WayBusElectInterfaceData Data;
struct SideH {
    Distributed2WayBusElect           bus;
    Distributed2WayBusElectSupplyData* sup[2];
    std::deque<Data*>                 link;
    long                              pop;
};
static SideH* side[3] = {0, 0, 0};

static std::string obs(SideH& s)
{
    vf::Rec r;
    r.b("demand", s.bus.isInDemandRole()).n("ov", s.bus.mOutData.mSupplyVoltage).n("op", s.bus.mOutData.mDemandPower)
     .i("ofc", s.bus.mOutData.mFrameCount).i("ofl", s.bus.mOutData.mFrameLoopback)
     .n("load", s.bus.getRemoteLoad()).n("supply", s.bus.getRemoteSupply())
     .b("valid", s.bus.mInData.hasValidData()).i("notes", s.bus.mNotifications.size()).i("pop", s.pop);
    return r.json();
}

static std::string perform(const vf::Cmd& c)
{
    if (c.name == "Init") {
        for (int x = 1; x <= 2; ++x) {
            delete side[x];
            SideH& s = *(side[x] = new SideH());
            s.pop = -1;
            for (int k = 0; k < 2; ++k) {
                s.sup[k] = s.bus.createSupplyData();
                s.sup[k]->mAvailable = false;
                s.sup[k]->mMaximumVoltage = 0.0;
            }
            s.bus.initialize(c[2*x-2] == 1, c[2*x-1]);
        }
    } else {
        SideH& s = *side[c[0]];
        SideH& other = *side[3 - c[0]];
        if      (c.name == "ForceRole")     c[1] == 0 ? s.bus.resetForceRole() : c[1] == 1 ? s.bus.forceSupplyRole() : s.bus.forceDemandRole();
        else if (c.name == "SetSupply")     { s.sup[c[1]-1]->mAvailable = c[2] == 1; s.sup[c[1]-1]->mMaximumVoltage = c[3]; }
        else if (c.name == "ProcessInputs") s.bus.processInputs();
        else if (c.name == "Update")        s.bus.update(c[1], c[2]);
        else if (c.name == "ReInit")        s.bus.initialize(c[1] == 1, c[2]);
        else if (c.name == "Pop")           {
            Distributed2WayBusNotification n(Distributed2WayBusNotification::ERR, "x");
            const unsigned int left = s.bus.popNotification(n);
            s.pop = n.mLevel;
            if (left != s.bus.mNotifications.size()) s.pop = -2;
            if (n.mLevel == Distributed2WayBusNotification::NONE && n.mMessage != "") s.pop = -3;
            if (n.mLevel != Distributed2WayBusNotification::NONE && n.mMessage == "") s.pop = -4;
        }
        else if (c.name == "Send")          { Data* d = new Data(); *d = s.bus.mOutData; other.link.push_back(d); }
        else if (c.name == "Deliver")       { if (!s.link.empty()) { s.bus.mInData = *s.link.front(); delete s.link.front(); s.link.pop_front(); } }
        else if (c.name == "Lose")          { if (!s.link.empty()) { delete s.link.front(); s.link.pop_front(); } }
        else vf::refuse(c);
    }
    return vf::Arr().raw(obs(*side[1])).raw(obs(*side[2])).json();
}
int main() { return vf::run(perform); }

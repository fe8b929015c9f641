#include "vf.hh"
#include "messages.hh"
#include "core/GunnsBasicJumper.hh"
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicSocket.hh"
#include "core/GunnsFluidJumper.hh"
#include "core/GunnsFluidJumperPlug.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidSocket.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <memory>

// Three sockets and two jumpers with a plug at each of their ends (or none), in an electrical or a fluid network of nodes with fixed potentials.
static const int NODES = 10, SOCKETS = 3, PLUGS = 4;
static const int AMBIENT[SOCKETS] = {3, 3, 4};
static DefinedFluidProperties     properties;
static FluidProperties::FluidType type[1] = {FluidProperties::GUNNS_N2};
static PolyFluidConfigData*       config = 0;

// A plug as the drawing's network class makes them.
template <class Base> struct PlugOf : public Base {
    int active, last, connect, disconnect, size;
    PlugOf(const std::string& name, int n) : Base(name, n), active(n), last(n), connect(n), disconnect(n), size(n) {}
    virtual void setActiveConnection(const int i)     { active = i; }
    virtual void setLastDisconnection(const int i)    { last = i; }
    virtual void setConnectionRequest(const int i)    { connect = i; }
    virtual void setDisconnectionRequest(const int i) { disconnect = i; }
    virtual int  getActiveConnection()                { return active; }
    virtual int  getLastDisconnection()               { return last; }
    virtual int  getConnectionRequest()               { return connect; }
    virtual int  getDisconnectionRequest()            { return disconnect; }
    virtual int  getNoConnection()                    { return size; }
};

struct World {
    std::vector<long> args;
    bool              threw;
    World(const vf::Cmd& c) : args(), threw(false) { for (int i = 0; i < 17; ++i) args.push_back(c[i]); }
    World(const World& w) : args(w.args), threw(false) {}
    virtual ~World() {}
    virtual void   init() = 0;
    virtual World* reload(const World* saved) = 0;      // a fresh world, with what the checkpoint keeps of the saved one
    virtual World* snapshot() = 0;                      // a checkpoint
    virtual void   act(const vf::Cmd& c) = 0;
    virtual std::string show() = 0;
    int size(int p) const { return args[8 + p] == 1 ? 3 : 2; }
    int socket(int p, int i) const { return args[8 + p] == 1 ? i : 2 - 2 * i; }
};

struct Basics {
    typedef GunnsBasicNode Node;
    typedef GunnsBasicSocket Socket;
    typedef GunnsBasicJumper Jumper;
    typedef GunnsBasicJumperPlug Plug;
    static void node(Node& n, int i) { n.initialize("n" + std::to_string(i)); }
    static void socket(Socket& s, GunnsNodeList* l, std::vector<GunnsBasicLink*>& links, bool seals, int i)
    {
        GunnsBasicSocketConfigData cfg("s" + std::to_string(i), l, 10.0, seals);
        s.initialize(cfg, GunnsBasicSocketInputData(), links, i, AMBIENT[i]);
    }
    static void jumper(Jumper& j, GunnsNodeList* l, std::vector<GunnsBasicLink*>& links, Plug* p, Plug* q, bool a, bool b, int i, int ca, int cb)
    {
        GunnsBasicJumperConfigData cfg("j" + std::to_string(i), l, 10.0, p, q, a, b);
        j.initialize(cfg, GunnsBasicJumperInputData(false, 0.0, ca, cb), links, 5 + 2 * i, 6 + 2 * i);
    }
    template <class L> static double conductivity(const L& l) { return l.mSystemConductance * 1.0e3; }
    template <class L> static void leak(L&, bool, double) {}
    template <class L> static void copy(L& to, const L& from) { to.mMalfBlockageFlag = from.mMalfBlockageFlag; to.mMalfBlockageValue = from.mMalfBlockageValue; }
    template <class L> static void flow(L& l) { l.computeFlows(0.1); }
    static double net(const Node& n) { return n.getInflux() - n.getOutflux(); }
    static void reset(Node& n) { n.resetFlows(); }
};

struct Fluids {
    typedef GunnsFluidNode Node;
    typedef GunnsFluidSocket Socket;
    typedef GunnsFluidJumper Jumper;
    typedef GunnsFluidJumperPlug Plug;
    static void node(Node& n, int i)
    {
        if (!config) config = new PolyFluidConfigData(&properties, type, 1);
        double f[1] = {1.0};
        PolyFluidInputData in(300.0, 100.0 + 10.0 * i, 0.0, 0.0, f);
        n.initialize("n" + std::to_string(i), config);
        n.getContent()->initialize(*config, in);
        n.resetFlows();
    }
    static void socket(Socket& s, GunnsNodeList* l, std::vector<GunnsBasicLink*>& links, bool seals, int i)
    {
        GunnsFluidSocketConfigData cfg("s" + std::to_string(i), l, 1.0e-5, 0.0, seals);
        s.initialize(cfg, GunnsFluidSocketInputData(), links, i, AMBIENT[i]);
    }
    static void jumper(Jumper& j, GunnsNodeList* l, std::vector<GunnsBasicLink*>& links, Plug* p, Plug* q, bool a, bool b, int i, int ca, int cb)
    {
        GunnsFluidJumperConfigData cfg("j" + std::to_string(i), l, 1.0e-5, 0.0, p, q, a, b);
        j.initialize(cfg, GunnsFluidJumperInputData(false, 0.0, false, 0.0, ca, cb), links, 5 + 2 * i, 6 + 2 * i);
    }
    template <class L> static double conductivity(const L& l) { return l.mEffectiveConductivity * 1.0e9; }
    template <class L> static void leak(L& l, bool on, double v) { l.setMalfLeakRate(on, v); }
    template <class L> static void copy(L& to, const L& from)
    {
        Basics::copy(to, from);
        to.mMalfLeakRateFlag = from.mMalfLeakRateFlag; to.mMalfLeakRateValue = from.mMalfLeakRateValue;
        to.mPreviousLeakRate = from.mPreviousLeakRate; to.mLeakConductivity = from.mLeakConductivity;
    }
    template <class L> static void flow(L&) {}
    static double net(const Node&) { return 0.0; }
    static void reset(Node&) {}
};

template <class T> struct WorldOf : public World {
    typedef PlugOf<typename T::Plug> Plug;
    typename T::Node             nodes[NODES];
    GunnsNodeList                list;
    std::vector<GunnsBasicLink*> links;
    typename T::Socket           sockets[SOCKETS];
    typename T::Jumper           jumpers[2];
    std::unique_ptr<Plug>        plugs[PLUGS];
    bool                         updated[5];

    WorldOf(const vf::Cmd& c) : World(c) {}
    WorldOf(const World& w) : World(w) {}
    GunnsBasicLink& link(int k) { return k < SOCKETS ? static_cast<GunnsBasicLink&>(sockets[k]) : static_cast<GunnsBasicLink&>(jumpers[k - SOCKETS]); }
    int at(int k) const { static const int order[2][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}}; return order[args[16]][k]; }
    void init()
    {
        for (int i = 0; i < 5; ++i) updated[i] = false;
        list.mNumNodes = NODES;
        list.mNodes = nodes;
        for (int i = 0; i < NODES; ++i) { T::node(nodes[i], i); nodes[i].setPotential(100.0 + 10.0 * i); }
        for (int i = 0; i < SOCKETS; ++i) T::socket(sockets[i], &list, links, args[5 + i] == 1, i);
        for (int p = 0; p < PLUGS; ++p) if (args[8 + p] > 0) {
            plugs[p].reset(new Plug("p" + std::to_string(p), size(p)));
            for (int i = 0; i < size(p); ++i) plugs[p]->addSocket(sockets[socket(p, i)]);
        }
        for (int j = 0; j < 2; ++j) T::jumper(jumpers[j], &list, links, plugs[2 * j].get(), plugs[2 * j + 1].get(), args[1 + 2 * j] == 1, args[2 + 2 * j] == 1, j, args[12 + 2 * j], args[13 + 2 * j]);
    }
    World* snapshot()
    {
        WorldOf<T>* n = new WorldOf<T>(static_cast<const World&>(*this));
        n->init();
        keep(*n, *this);
        return n;
    }
    World* reload(const World* saved)
    {
        const WorldOf<T>& s = *static_cast<const WorldOf<T>*>(saved);
        WorldOf<T>* n = new WorldOf<T>(static_cast<const World&>(*this));
        n->init();
        keep(*n, s);
        for (int k = 0; k < 5; ++k) n->link(n->at(k)).restart();
        return n;
    }
    static void keep(WorldOf<T>& n, const WorldOf<T>& s)
    {
        for (int p = 0; p < PLUGS; ++p) if (n.plugs[p]) {
            Plug& a = *n.plugs[p];
            const Plug& b = *s.plugs[p];
            a.active = b.active; a.last = b.last; a.connect = b.connect; a.disconnect = b.disconnect;
            a.mDirectConnectionRequest = b.mDirectConnectionRequest; a.mDirectConnectionDisable = b.mDirectConnectionDisable;
        }
        for (int i = 0; i < SOCKETS; ++i) {
            T::copy(n.sockets[i], s.sockets[i]);
            n.sockets[i].mConnection    = 0;
            for (int p = 0; p < PLUGS; ++p) if (s.plugs[p] && s.sockets[i].mConnection == s.plugs[p].get()) n.sockets[i].mConnection = n.plugs[p].get();
            n.sockets[i].mHasConnection = s.sockets[i].mHasConnection;
        }
        for (int j = 0; j < 2; ++j) T::copy(n.jumpers[j], s.jumpers[j]);
    }
    template <class L> void block(L& l, const vf::Cmd& c) { l.mMalfBlockageFlag = c[1] == 1; l.mMalfBlockageValue = c[2] / 10.0; }
    void act(const vf::Cmd& c)
    {
        if      (c.name == "Connect")    plugs[c[0]]->setConnectionRequest(c[1]);
        else if (c.name == "Disconnect") plugs[c[0]]->setDisconnectionRequest(c[1]);
        else if (c.name == "Direct")     plugs[c[0]]->setDirectConnectionRequest(c[1]);
        else if (c.name == "Disable")    plugs[c[0]]->mDirectConnectionDisable = c[1] == 1;
        else if (c.name == "Block")      { if (c[0] < SOCKETS) block(sockets[c[0]], c); else block(jumpers[c[0] - SOCKETS], c); }
        else if (c.name == "Leak")       { if (c[0] < SOCKETS) T::leak(sockets[c[0]], c[1] == 1, c[2] / 1.0e6); else T::leak(jumpers[c[0] - SOCKETS], c[1] == 1, c[2] / 1.0e6); }
        else if (c.name == "Step") {
            for (int i = 0; i < NODES; ++i) T::reset(nodes[i]);
            for (int k = 0; k < 5; ++k) link(k).mAdmittanceUpdate = false;
            for (int k = 0; k < 5; ++k) link(at(k)).step(0.1);
            for (int k = 0; k < 5; ++k) updated[k] = link(k).needAdmittanceUpdate();
            for (int k = 0; k < 5; ++k) for (int p = 0; p < 2; ++p) link(k).mPotentialVector[p] = nodes[link(k).getNodeMap()[p]].getPotential();
            for (int k = 0; k < 5; ++k) T::flow(link(k));
        }
        else vf::refuse(c);
    }
    std::string show()
    {
        vf::Arr map, active, last, pending, held, g, conducts, upd, net;
        bool same = true;
        for (int j = 0; j < 2; ++j) for (int p = 0; p < 2; ++p) map.i(jumpers[j].getNodeMap()[p]);
        for (int p = 0; p < PLUGS; ++p) {
            active.i(plugs[p] ? plugs[p]->active : 0);
            last.i(plugs[p] ? plugs[p]->last : 0);
            pending.b(plugs[p] && (plugs[p]->connect != plugs[p]->size || plugs[p]->disconnect != plugs[p]->size));
        }
        for (int i = 0; i < SOCKETS; ++i) {
            int n = 0, who = 0;
            for (int p = 0; p < PLUGS; ++p) if (plugs[p] && sockets[i].isConnected(plugs[p].get())) { ++n; who = p + 1; }
            held.i(n > 1 ? 99 : sockets[i].isConnected() == (n == 1) ? who : 98);
        }
        for (int k = 0; k < 5; ++k) {
            g.r(k < SOCKETS ? T::conductivity(sockets[k]) : T::conductivity(jumpers[k - SOCKETS]), 1.0);
            conducts.b(link(k).getAdmittanceMatrix()[0] > 0.0);
            upd.b(updated[k]);
            for (int p = 0; p < 2; ++p) same = same && link(k).mNodes[p] == &nodes[link(k).getNodeMap()[p]];
        }
        for (int i = 0; i < NODES; ++i) net.r(T::net(nodes[i]), 100.0);
        vf::Rec r;
        r.b("threw", false).raw("map", map.json()).raw("active", active.json()).raw("last", last.json()).raw("pending", pending.json()).raw("held", held.json())
         .raw("g", g.json()).raw("conducts", conducts.json()).raw("updated", upd.json()).raw("net", net.json()).b("same", same);
        return r.json();
    }
};

static std::unique_ptr<World> w, saved;

static std::string perform(const vf::Cmd& c, vf::Messages& hs)
{
    hs.clear();
    bool threw = false;
    if (c.name == "Init") {     // fluid, the jumpers' ends that seal (4), sockets that seal (3), each plug's list (none, all sockets, the last and the first), initial connections (4), order of the links
        saved.reset();
        w.reset(c[0] == 1 ? static_cast<World*>(new WorldOf<Fluids>(c)) : new WorldOf<Basics>(c));
        try { w->init(); } catch (TsInitializationException&) { threw = true; }
    }
    else if (c.name == "Save") saved.reset(w->snapshot());
    else if (c.name == "Load") w.reset(w->reload(saved.get()));
    else w->act(c);
    if (threw) return "{\"threw\":true}";
    return w->show();
}

int main()
{
    vf::Messages hs;
    return vf::run([&hs](const vf::Cmd& c) { return perform(c, hs); });
}

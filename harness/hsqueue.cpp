// Message queue: calls run as coroutines that give way wherever they ask for a lock, so a schedule interleaves
// them deterministically. The lock functions of the C library are replaced here.
#include "vf.hh"
#include <pthread.h>
#include <ucontext.h>
#include "simulation/hs/TsHsMsgQueue.hh"

struct Task {
    ucontext_t context;
    char       stack[1 << 17];
    bool       live, done, ok, insert;
    long       msg;
};
static ucontext_t scheduler;
static Task*      current = 0;
static Task       tasks[5];
static bool       locked = false;       // kept by a coroutine
static bool       held   = false;       // kept by some other thread
static bool       watch  = false;       // locks of anything but the queue's calls are of no interest

static void give() { Task* t = current; swapcontext(&t->context, &scheduler); }

extern "C" int pthread_mutex_lock(pthread_mutex_t*) {
    if (!watch) return 0;
    if (current) do give(); while (locked || held);
    else if (held || locked) { fprintf(stderr, "deadlock\n"); exit(4); }
    locked = true;
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t*) {
    if (!watch) return 0;
    if (current) give();
    if (held || locked) return 16;
    locked = true;
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t*) { if (watch) locked = false; return 0; }

static TsHsMsgQueue* queue = 0;
static const TS_HS_MSG_TYPE types[] = {TS_HS_DEBUG, TS_HS_INFO, TS_HS_WARNING, TS_HS_ERROR, TS_HS_FATAL};

static void insert(long m) {
    const std::string id = std::to_string(m);
    TS_TIMER_TYPE met = {1, 0, 0, 0, 0, m * 0.5, 0};
    queue->insertMsg("file" + id, m, "function" + id, types[m % 5], "sys" + id, "text" + id, met, 1000 + m);
}
// The number of the message, or 0 if its fields are of different messages.
static long number(const TsHsMsgQueueNode& n) {
    const std::string id = std::to_string(n.mLine);
    return n.mFile == "file" + id && n.mFunction == "function" + id && n.mType == types[n.mLine % 5] && n.mSubsys == "sys" + id
        && n.mText == "text" + id && n.mMet.seconds == n.mLine * 0.5 && n.mMet.pre == 1 && n.mTimestamp == 1000ul + n.mLine ? n.mLine : 0;
}
static void call(Task& t) {
    if (t.insert) { insert(t.msg); t.ok = true; }
    else {
        TsHsMsgQueueNode node;
        t.ok  = queue->removeMsg(node);
        t.msg = t.ok ? number(node) : 0;
    }
    t.done = true;
}
static void body(int i) { call(tasks[i]); tasks[i].live = false; current = 0; setcontext(&scheduler); }
static void resume(Task& t) { watch = true; current = &t; swapcontext(&scheduler, &t.context); current = 0; watch = false; }

int main() {
    return vf::run([](const vf::Cmd& c) {
        bool done = false, ok = false, removed = false;
        long msg = 0, thread = 0;
        if (c.name == "Init") {
            locked = held = false;
            for (auto& t : tasks) t.live = false;
            delete queue;
            queue = new TsHsMsgQueue(c[0], c[1]);
        }
        else if (c.name == "Insert" || c.name == "Remove") {
            Task& t = tasks[0];
            t.insert = c.name == "Insert"; t.msg = t.insert ? c[0] : 0;
            watch = true; call(t); watch = false;
            done = true; ok = t.ok; msg = t.msg; removed = !t.insert;
        }
        else if (c.name == "Hold")    held = true;
        else if (c.name == "Release") held = false;
        else if (c.name == "Resize")  { watch = true; queue->initialize(c[0], c[1]); watch = false; }
        else if (c.name == "Begin") {
            thread = c[0];
            Task& t = tasks[thread];
            t.live = true; t.done = t.ok = false; t.insert = c[1] == 1; t.msg = c[2];
            getcontext(&t.context);
            t.context.uc_stack.ss_sp = t.stack; t.context.uc_stack.ss_size = sizeof t.stack; t.context.uc_link = 0;
            makecontext(&t.context, (void (*)()) body, 1, (int) thread);
            resume(t);
            done = t.done; ok = t.ok; msg = t.msg; removed = !t.insert;
        }
        else if (c.name == "End") {
            thread = c[0];
            Task& t = tasks[thread];
            if (t.live) {
                for (int i = 0; i < 100 && t.live; ++i) resume(t);
                done = t.done; ok = t.ok; msg = t.msg; removed = !t.insert;
            }
        }
        else vf::refuse(c);
        return vf::Rec().b("done", done).b("ok", ok).b("removed", removed).i("msg", removed ? msg : 0).i("thread", thread)
                        .i("size", queue->getSize()).b("empty", queue->isEmpty()).b("full", queue->isFull()).i("cap", queue->getCapacity())
                        .i("over", queue->getOverflows()).i("fail", queue->getLockFailures()).json();
    });
}

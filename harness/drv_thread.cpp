// Runs op scripts against ThreadScheduler / ScopedScheduler with real threads and the real clock.
// Only lower bounds, orders and eventual completion are recorded for judgement.
#include "common.h"
#include "srtc/scheduler.h"
#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace srtc;
using namespace std::chrono;
namespace
{
std::mutex mtx; // protects trace and the tables below
std::shared_ptr<ThreadScheduler> sched;
std::unique_ptr<ScopedScheduler> scopes[3];
bool dying[3];
ScopedScheduler* scopePtr[3]; // stays set while the scope is being destroyed
struct T {
    int scope = 0, dur = 0;
    std::string act;
    int arg = 0;
    std::weak_ptr<Task> h;
    bool touched = false, submitted = false;
    int started = 0, finished = 0;
};
std::map<int, T> tasks;
steady_clock::time_point t0;
std::atomic<int64_t> deadline{0};
int64_t nowUs() { return duration_cast<microseconds>(steady_clock::now() - t0).count(); }
void ev(const char* op, int id, int by, int64_t a = 0, int64_t b = 0)
{
    std::lock_guard l(mtx);
    vf::emit(vf::J().str("op", op).i("id", id).i("by", by).i("a", a).i("b", b).i("t", nowUs()));
}
void doCancel(int id, int by, int times)
{
    std::shared_ptr<Task> p;
    {
        std::lock_guard l(mtx);
        auto& t = tasks[id];
        p = t.h.lock();
        t.touched = true;
        if (p)
            vf::emit(vf::J().str("op", "cbeg").i("id", id).i("by", by).i("a", 0).i("b", 0).i("t", nowUs()));
    }
    if (!p)
        return;
    for (int i = 0; i < times; i++)
        p->cancel();
    p.reset();
    ev("cend", id, by);
}
void doSubmit(int scope, int id, int delay, int dur, const std::string& act, int arg, int by)
{
    {
        std::lock_guard l(mtx);
        auto& t = tasks[id];
        t.scope = scope;
        t.dur = dur;
        t.act = act;
        t.arg = arg;
        t.submitted = true;
        t.touched = dying[scope];
    }
    auto fn = [id] {
        T copy;
        {
            std::lock_guard l(mtx);
            tasks[id].started++;
            copy = tasks[id];
            if (copy.started > 1)
                copy.act = "none";
            vf::emit(vf::J().str("op", "start").i("id", id).i("by", 1).i("a", 0).i("b", 0).i("t", nowUs()));
        }
        if (copy.act == "cancel")
            { bool own; { std::lock_guard l(mtx); own = tasks[copy.arg].scope == 0; } if (own && copy.arg != id) doCancel(copy.arg, 1, 1); }
        else if (copy.act == "cancelself")
            doCancel(id, 1, 2);
        else if (copy.act == "submit")
            doSubmit(copy.scope, copy.arg, 1, 0, "none", 0, 1);
        else if (copy.act == "update") {
        }
        if (copy.dur)
            std::this_thread::sleep_for(milliseconds(copy.dur));
        std::lock_guard l(mtx);
        tasks[id].finished++;
        vf::emit(vf::J().str("op", "fin").i("id", id).i("by", 1).i("a", 0).i("b", 0).i("t", nowUs()));
    };
    ev("subb", id, by, scope, delay);
    std::weak_ptr<Task> h;
    if (scope == 0)
        h = sched->submit(milliseconds(delay), __FILE__, __LINE__, fn);
    else
        h = scopePtr[scope]->submit(milliseconds(delay), __FILE__, __LINE__, fn);
    {
        std::lock_guard l(mtx);
        tasks[id].h = h;
    }
    ev("sube", id, by, scope, delay);
}
void finish()
{
    const auto limit = steady_clock::now() + seconds(20);
    while (steady_clock::now() < limit) {
        bool all = true;
        {
            std::lock_guard l(mtx);
            for (auto& [id, t] : tasks)
                if (t.submitted && !t.touched && !t.finished)
                    all = false;
            for (auto& [id, t] : tasks)
                if (t.started != t.finished)
                    all = false;
        }
        if (all)
            break;
        std::this_thread::sleep_for(milliseconds(1));
    }
    std::this_thread::sleep_for(milliseconds(12)); // anything that must not run gets its chance
    ev("quiet", 0, 0);
    for (int i = 1; i <= 2; i++)
        if (scopes[i]) {
            ev("dbeg", i, 0);
            scopes[i].reset();
            ev("dend", i, 0);
        }
    sched.reset();
    ev("stop", 0, 0);
    std::lock_guard l(mtx);
    tasks.clear();
}
void handle(const vf::Op& op)
{
    deadline = duration_cast<seconds>(steady_clock::now().time_since_epoch()).count() + 60;
    if (op.name == "reset") {
        t0 = steady_clock::now();
        sched = std::make_shared<ThreadScheduler>("vf");
        for (int i = 1; i <= 2; i++)
            {
            scopes[i] = std::make_unique<ScopedScheduler>(sched);
            scopePtr[i] = scopes[i].get();
            dying[i] = false;
        }
        vf::emit(vf::J().str("op", "reset").i("id", 0).i("by", 0).i("a", 0).i("b", 0).i("t", 0));
    } else if (op.name == "submit") {
        const int sc = static_cast<int>(op.n(0));
        if (sc && !scopes[sc])
            return;
        doSubmit(sc, static_cast<int>(op.n(1)), static_cast<int>(op.n(2)), static_cast<int>(op.n(3)), op.s(4), static_cast<int>(op.n(5)), 0);
    } else if (op.name == "cancel") {
        doCancel(static_cast<int>(op.n(0)), 0, static_cast<int>(op.n(1)));
    } else if (op.name == "update") {
        const int id = static_cast<int>(op.n(0));
        std::shared_ptr<Task> p;
        {
            std::lock_guard l(mtx);
            p = tasks[id].h.lock();
            tasks[id].touched = true;
        }
        if (!p)
            return;
        ev("updb", id, 0, 0, op.n(1));
        auto h = p->update(milliseconds(op.n(1)));
        {
            std::lock_guard l(mtx);
            tasks[id].h = h;
        }
        p->cancel(); // the replaced handle: must not block and not touch the new one
        p.reset();
        ev("upde", id, 0, 0, op.n(1));
    } else if (op.name == "destroy") {
        const int sc = static_cast<int>(op.n(0));
        if (!scopes[sc])
            return;
        {
            std::lock_guard l(mtx);
            dying[sc] = true;
            for (auto& [id, t] : tasks)
                if (t.scope == sc)
                    t.touched = true;
        }
        ev("dbeg", sc, 0);
        scopes[sc].reset();
        ev("dend", sc, 0);
    } else if (op.name == "sleep") {
        std::this_thread::sleep_for(microseconds(op.n(0)));
    } else if (op.name == "finish")
        finish();
}
} // namespace
int main(int argc, char** argv)
{
    vf::gRealClock = true;
    std::thread dog([] {
        while (true) {
            std::this_thread::sleep_for(std::chrono::seconds(1));
            if (deadline && duration_cast<seconds>(steady_clock::now().time_since_epoch()).count() > deadline) {
                fprintf(stderr, "watchdog: scenario does not end (deadlock)\n");
                abort();
            }
        }
    });
    dog.detach();
    const int r = vf::runDriver(argc, argv, handle);
    fflush(nullptr);
    _exit(r);
}

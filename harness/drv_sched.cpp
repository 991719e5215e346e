// Executes op scripts against LoopScheduler / ScopedScheduler under the virtual clock.
#include "common.h"
#include "srtc/scheduler.h"
using namespace srtc;
namespace
{
std::shared_ptr<LoopScheduler> loop;
std::map<int, std::unique_ptr<ScopedScheduler>> scopes; // 1.. ; 0 = the loop itself
std::map<int, int> scopeOf;
std::map<int, std::weak_ptr<Task>> handles;             // task name -> latest handle
struct Act {                                            // what a task does when it runs
    std::vector<vf::Op> ops;
};
std::map<int, Act> acts;
std::vector<std::string> log_; // outputs of the current op
void exec(const vf::Op& op, bool nested);

void doSubmit(int scope, int id, int64_t delay)
{
    auto fn = [id] {
        log_.push_back(vf::J().str("e", "run").i("id", id).done());
        auto a = acts.find(id);
        if (a != acts.end()) {
            auto ops = a->second.ops;
            acts.erase(a);
            for (const auto& o : ops)
                exec(o, true);
        }
    };
    const std::chrono::milliseconds d(delay);
    scopeOf[id] = scope;
    if (scope == 0)
        handles[id] = loop->submit(d, __FILE__, __LINE__, fn);
    else if (scopes[scope])
        handles[id] = scopes[scope]->submit(d, __FILE__, __LINE__, fn);
}

void exec(const vf::Op& op, bool nested)
{
    if (nested)
        log_.push_back(vf::J().str("e", op.name).i("a", op.n(0)).i("b", op.n(1)).i("c", op.n(2)).done());
    if (op.name == "submit") { // scope id delay
        doSubmit(static_cast<int>(op.n(0)), static_cast<int>(op.n(1)), op.n(2));
    } else if (op.name == "cancel") { // 0 id via (0: handle, 1: scheduler, 2: helper)
        auto& w = handles[static_cast<int>(op.n(1))];
        if (op.n(2) == 2) {
            Task::cancelHelper(w);
        } else if (auto t = w.lock()) {
            const int sc = scopeOf[static_cast<int>(op.n(1))];
            if (op.n(2) == 1) { // through the scheduler it was submitted to
                if (sc == 0)
                    loop->cancel(t);
                else if (scopes[sc])
                    scopes[sc]->cancel(t);
            } else
                t->cancel();
        }
    } else if (op.name == "update") { // 0 id delay
        auto& w = handles[static_cast<int>(op.n(1))];
        if (auto t = w.lock())
            w = t->update(std::chrono::milliseconds(op.n(2)));
    } else if (op.name == "destroy") { // scope
        scopes[static_cast<int>(op.n(0))].reset();
    }
}

void handle(const vf::Op& op)
{
    log_.clear();
    if (op.name == "reset" || op.name == "end") {
        scopes.clear();
        handles.clear();
        acts.clear();
        loop.reset();
        if (op.name == "end")
            return;
        vf::setNow(0);
        loop = std::make_shared<LoopScheduler>();
        for (int i = 1; i <= 3; i++)
            scopes[i] = std::make_unique<ScopedScheduler>(loop);
        vf::emit(vf::J().str("op", "reset"));
        return;
    }
    if (op.name == "act") { // id op a b c : when task id runs it performs the op
        vf::Op o;
        o.name = op.s(1);
        for (size_t i = 2; i < op.args.size(); i++)
            o.args.push_back(op.args[i]);
        acts[static_cast<int>(op.n(0))].ops.push_back(o);
        return;
    }
    if (op.name == "advance") { // microseconds; no run
        vf::setNow(vf::gNowUs + op.n(0));
    } else if (op.name == "run") {
        loop->run();
    } else
        exec(op, false);
    vf::emit(vf::J().str("op", op.name).i("a", op.n(0)).i("b", op.n(1)).i("c", op.n(2)).objs("out", log_)
                 .i("timeout", loop->getTimeoutMillis(77777)).i("now", vf::gNowUs));
}
} // namespace
int main(int argc, char** argv) { return vf::runDriver(argc, argv, handle); }

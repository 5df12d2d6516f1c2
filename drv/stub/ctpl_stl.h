// Stand-in for the CTPL thread pool (ctpl_v.0.0.2, not installed here) with the part of its interface the client
// uses and the same guarantees: tasks start in the order they are pushed, each runs once on one of n threads,
// stop(true) returns when all of them have finished.
#ifndef VERIF_CTPL
#define VERIF_CTPL
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

extern "C" void verif_nap();

namespace ctpl {
class thread_pool {
public:
    thread_pool(int n) {
        if (n < 1)
            n = 1;
        for (int i = 0; i < n; ++i)
            threads.emplace_back([this, i]() { work(i); });
    }
    ~thread_pool() { stop(true); }

    template <typename F, typename... A>
    auto push(F&& f, A&&... a) -> std::future<decltype(f(0, a...))> {
        auto t = std::make_shared<std::packaged_task<decltype(f(0, a...))(int)>>(std::bind(std::forward<F>(f), std::placeholders::_1, std::forward<A>(a)...));
        {
            std::lock_guard<std::mutex> l(m);
            q.push_back([t](int id) { (*t)(id); });
        }
        c.notify_one();
        return t->get_future();
    }

    void stop(bool wait = false) {
        {
            std::lock_guard<std::mutex> l(m);
            if (ended)
                return;
            ended = true;
            if (!wait)
                q.clear();
        }
        c.notify_all();
        for (auto& t : threads)
            if (t.joinable())
                t.join();
        threads.clear();
    }

private:
    void work(int id) {
        while (true) {
            std::function<void(int)> f;
            {
                std::unique_lock<std::mutex> l(m);
                c.wait(l, [this]() { return ended || !q.empty(); });
                if (q.empty())
                    return;
                f = std::move(q.front());
                q.pop_front();
            }
            verif_nap();
            f(id);
            verif_nap();
        }
    }
    std::mutex m;
    std::condition_variable c;
    std::deque<std::function<void(int)>> q;
    std::vector<std::thread> threads;
    bool ended = false;
};
}
#endif

// C01: every interleaving of small ThreadPool scenarios on the real class.
#include <unistd.h>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.h"
#include "src/utils/threadpool.h"

namespace {

// children[i] tasks are enqueued by task i from inside the pool; the first `roots` tasks by the owner.
// delay: the owner's yields between enqueues are scheduling points anyway, so none are needed.
std::string Run(int workers, const std::vector<std::vector<int>>& children, int roots, bool two_pools) {
  const int n = children.size();
  std::vector<int> runs(n, 0);        // plain memory: unordered accesses are reported as races
  std::vector<std::thread::id> who(n);
  const std::thread::id owner = std::this_thread::get_id();
  {
    std::unique_ptr<ThreadPool> other(two_pools ? new ThreadPool(1) : nullptr);
    std::unique_ptr<ThreadPool> pool(new ThreadPool(workers));
    std::function<void(int)> body = [&](int i) {
      ++runs[i];
      who[i] = std::this_thread::get_id();
      for (int c : children[i]) pool->Enqueue([&body, c] { body(c); });
    };
    ThreadPool* raw = pool.get();
    for (int i = 0; i < roots; ++i) {
      if (two_pools && i % 2) other->Enqueue([&body, i] { body(i); });
      else raw->Enqueue([&body, i] { body(i); });
    }
    // ~unique_ptr nulls nothing before the destructor ran: tasks may use `pool` until the end.
    ThreadPool* p = pool.get();
    p->~ThreadPool();
    operator delete(pool.release());
    other.reset();
  }
  for (int i = 0; i < n; ++i) {
    mcrt::Assert(runs[i] == 1, "task " + std::to_string(i) + " ran " + std::to_string(runs[i]) + " times");
    mcrt::Assert(who[i] != owner, "task " + std::to_string(i) + " ran on the owner's thread");
  }
  return "ok";
}

mcrt::Scenario S(const std::string& name, int workers, std::vector<std::vector<int>> children, int roots, int quick,
                 int thorough, int spurious = 0, bool two = false) {
  mcrt::Scenario s;
  s.name = name;
  s.run = [=] { return Run(workers, children, roots, two); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  s.spurious = spurious;
  s.horizon = 3000;
  return s;
}

// The owner waits for the tasks before it destroys the pool, and `meet` tasks wait for each other: every
// Enqueue has to wake a worker if one is idle.
std::string RunWait(int workers, int rounds, int meet) {
  std::mutex mu;
  std::condition_variable cv;
  int arrived = 0, done = 0;
  std::vector<int> runs(rounds * meet, 0);
  {
    ThreadPool pool(workers);
    for (int r = 0; r < rounds; ++r) {
      for (int k = 0; k < meet; ++k) {
        pool.Enqueue([&, r, k] {
          std::unique_lock<std::mutex> l(mu);
          ++runs[r * meet + k];
          ++arrived;
          cv.notify_all();
          cv.wait(l, [&] { return arrived >= (r + 1) * meet; });
          ++done;
          cv.notify_all();
        });
      }
      std::unique_lock<std::mutex> l(mu);
      cv.wait(l, [&] { return done == (r + 1) * meet; });
    }
  }
  for (size_t i = 0; i < runs.size(); ++i) mcrt::Assert(runs[i] == 1, "task ran " + std::to_string(runs[i]) + " times");
  return "ok";
}

mcrt::Scenario W(const std::string& name, int workers, int rounds, int meet, int quick, int thorough) {
  mcrt::Scenario s;
  s.name = name;
  s.run = [=] { return RunWait(workers, rounds, meet); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  s.horizon = 3000;
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mcrt::Scenario> v;
  typedef std::vector<std::vector<int>> T;
  v.push_back(S("w0_t0", 0, T{}, 0, -1, -1));
  v.push_back(S("w1_t0", 1, T{}, 0, -1, -1, 1));
  v.push_back(S("w1_t1", 1, T{{}}, 1, -1, -1, 1));
  v.push_back(S("w1_t3", 1, T{{}, {}, {}}, 3, -1, -1, 1));
  v.push_back(S("w1_nested", 1, T{{1}, {2}, {}}, 1, -1, -1, 1));
  v.push_back(S("w1_fanout", 1, T{{1, 2}, {}, {}}, 1, -1, -1));
  v.push_back(S("w2_t0", 2, T{}, 0, -1, -1, 1));
  v.push_back(S("w2_t1", 2, T{{}}, 1, -1, -1, 1));
  v.push_back(S("w2_t2", 2, T{{}, {}}, 2, -1, -1));
  v.push_back(S("w2_nested", 2, T{{1}, {}}, 1, -1, -1));
  v.push_back(S("w2_nested_mixed", 2, T{{2}, {}, {}}, 2, 3, 8));
  v.push_back(S("w2_fanout", 2, T{{1, 2}, {}, {}}, 1, 4, -1));
  v.push_back(S("w2_chain", 2, T{{1}, {2}, {3}, {}}, 1, 3, 8));
  v.push_back(S("w2_t4", 2, T{{}, {}, {}, {}}, 4, 3, 6));
  v.push_back(S("w3_t0", 3, T{}, 0, 4, -1));
  v.push_back(S("w3_t2", 3, T{{}, {}}, 2, 3, 6));
  v.push_back(S("w3_t4_spurious", 3, T{{}, {}, {}, {}}, 4, 2, 4, 1));
  v.push_back(S("two_pools", 1, T{{}, {}}, 2, 6, -1, 0, true));
  v.push_back(W("wait_w1", 1, 1, 1, -1, -1));
  v.push_back(W("wait_w1_twice", 1, 2, 1, -1, -1));
  v.push_back(W("wait_w2", 2, 1, 1, 4, -1));
  v.push_back(W("wait_w2_twice", 2, 2, 1, 3, 8));
  v.push_back(W("meet_w2", 2, 1, 2, 4, 6));
  v.push_back(W("meet_w2_twice", 2, 2, 2, 3, 6));
  v.push_back(W("meet_w3", 3, 1, 3, 2, 3));
  v.push_back(W("meet_w3_of_2", 3, 1, 2, 2, 4));
  // Long queues and many workers: one worker that is not slower than the owner, few preemptions.
  auto many = [&](const std::string& name, int workers, int tasks, int quick, int thorough, int horizon) {
    mcrt::Scenario s = S(name, workers, T(tasks), tasks, quick, thorough);
    s.horizon = horizon;
    v.push_back(s);
  };
  many("w1_t40", 1, 40, 1, 2, 6000);
  many("w2_t70", 2, 70, 0, 1, 10000);
  many("w1_t300", 1, 300, 0, 1, 20000);
  many("w3_t300", 3, 300, 0, 0, 20000);
  many("w1_t1500", 1, 1500, 0, 0, 40000);
  many("w17_t2", 17, 2, 0, 0, 10000);
  many("w40_t3", 40, 3, 0, 0, 20000);
  many("w70_t2", 70, 2, 0, 0, 30000);
  // The same on the schedule that switches at every point.
  for (int k = 0; k < 7; ++k) {
    const int cases[][4] = {{1, 3, -1, -1}, {2, 3, 5, -1}, {3, 5, 3, 5}, {5, 20, 2, 2}, {9, 64, 1, 1}, {17, 200, 0, 0}, {70, 300, 0, 0}};
    const int* c = cases[k];
    many("rotating_w" + std::to_string(c[0]) + "_t" + std::to_string(c[1]), c[0], c[1], c[2], c[3], 30000);
    v.back().rotate = true;
  }
  return mcrt::Main(argc, argv, v);
}

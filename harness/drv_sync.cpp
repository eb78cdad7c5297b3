// C23: job queues, event channels and semaphores. Three modes:
// - "" (steps): worker threads are led one operation at a time, and every operation's effect is compared with a
//   reference model once all threads are idle or asleep. Some workers are held while waking up (a signal handler that
//   does not return), so that the next operations happen before they had a chance to run.
// - "race": producers, consumers and cancellations run freely with pauses inserted at lock operations; the recorded
//   histories are checked for exactly-once delivery, order, conservation of counts and timeouts.
// WITH: perturb
#include "perturb.h"
#include "vh.h"

#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <list>
#include <memory>
#include <thread>

#include <pthread.h>
#include <signal.h>
#include <sys/syscall.h>

#include <vrs/helpers/JobQueue.h>
#include <vrs/os/Event.h>
#include <vrs/os/Semaphore.h>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define IS_TSAN 1
#endif
#endif
#ifndef IS_TSAN
#define IS_TSAN 0
#endif

using namespace std;
using vh::Case;
using vh::Rng;
using vh::sf;
using vrs::os::EventChannel;
using vrs::os::Semaphore;

namespace {

double now() {
  return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}
void sleepMs(double ms) {
  this_thread::sleep_for(chrono::duration<double>(ms / 1000));
}
// how much later than asked a wait may end: machines running checks are busy
const double kSlack = 20;

// -- workers ---------------------------------------------------------------------------------------------------------

atomic<int> sFrozen[64];
thread_local int tSlot = -1;

void onFreeze(int) {
  int slot = tSlot;
  int e = errno;
  if (slot >= 0) {
    sFrozen[slot].store(2, memory_order_relaxed);
    while (sFrozen[slot].load(memory_order_relaxed) == 2) {
      usleep(200);
    }
  }
  errno = e;
}

struct Worker {
  int slot{};
  thread th;
  atomic<int> tid{0};
  atomic<int> state{0}; // 0 idle, 1 job given, 2 job started
  atomic<bool> quit{false};
  function<void()> job;
  mutex m;
  condition_variable cv;

  void run() {
    tSlot = slot;
    tid = static_cast<int>(syscall(SYS_gettid));
    for (;;) {
      unique_lock<mutex> lock(m);
      cv.wait(lock, [this] { return state == 1 || quit; });
      if (quit) {
        return;
      }
      lock.unlock();
      state = 2;
      job();
      state = 0;
    }
  }
  void give(function<void()> f) {
    unique_lock<mutex> lock(m);
    job = std::move(f);
    state = 1;
    cv.notify_all();
  }
};

struct Pool {
  vector<shared_ptr<Worker>> w;
  explicit Pool(size_t n) {
    for (size_t i = 0; i < n; i++) {
      auto x = make_shared<Worker>();
      x->slot = static_cast<int>(i);
      sFrozen[i] = 0;
      x->th = thread([x] { x->run(); });
      w.push_back(x);
    }
    for (auto& x : w) {
      while (x->tid == 0) {
        this_thread::yield();
      }
    }
  }
  ~Pool() {
    for (auto& x : w) {
      sFrozen[x->slot] = 0;
    }
    double limit = now() + 2;
    for (auto& x : w) {
      while (x->state != 0 && now() < limit) {
        sleepMs(0.2);
      }
      if (x->state != 0) {
        x->th.detach(); // stuck: a violation was reported, leave it behind
        continue;
      }
      {
        unique_lock<mutex> lock(x->m);
        x->quit = true;
        x->cv.notify_all();
      }
      x->th.join();
    }
  }
  bool idle(size_t i) const {
    return w[i]->state == 0;
  }
  bool frozen(size_t i) const {
    return sFrozen[i].load(memory_order_relaxed) != 0;
  }
  // state and context switches of a thread
  static bool asleep(int tid, uint64_t& switches) {
    char path[64], buf[4096];
    snprintf(path, sizeof(path), "/proc/self/task/%d/status", tid);
    int fd = open(path, O_RDONLY);
    if (fd < 0) {
      return false;
    }
    ssize_t n = read(fd, buf, sizeof(buf) - 1);
    close(fd);
    buf[n > 0 ? n : 0] = 0;
    const char* s = strstr(buf, "State:");
    const char* v = strstr(buf, "\nvoluntary_ctxt_switches:");
    const char* x = strstr(buf, "nonvoluntary_ctxt_switches:");
    switches = (v ? strtoull(v + 25, nullptr, 10) : 0) + (x ? strtoull(x + 27, nullptr, 10) : 0);
    return s && s[7] == 'S';
  }
  // wait until every worker is idle, held, or asleep inside its operation
  void settle() {
    vector<uint64_t> last;
    int same = 0;
    for (;;) {
      vector<uint64_t> cur;
      bool quiet = true;
      for (auto& x : w) {
        int st = x->state;
        uint64_t sw = 0;
        if (st == 0) {
          sw = UINT64_MAX;
        } else if (frozen(static_cast<size_t>(x->slot))) {
          sw = UINT64_MAX - 1;
          if (sFrozen[x->slot].load(memory_order_relaxed) != 2) {
            quiet = false;
          }
        } else if (st == 1 || !asleep(x->tid, sw)) {
          quiet = false;
        }
        cur.push_back(sw);
      }
      same = quiet && cur == last ? same + 1 : 0;
      last = cur;
      if (same >= 2) {
        return;
      }
      usleep(quiet ? 300 : 50);
    }
  }
  // only for workers asleep in an operation
  void freeze(size_t i) {
    sFrozen[i] = 1;
    pthread_kill(w[i]->th.native_handle(), SIGUSR1);
    while (sFrozen[i].load(memory_order_relaxed) != 2) {
      usleep(50);
    }
  }
  void unfreeze(size_t i) {
    sFrozen[i].store(0, memory_order_relaxed);
  }
};

// wait for a condition that must come true
bool soon(const function<bool()>& f, double limit = kSlack) {
  double end = now() + limit;
  while (!f()) {
    if (now() > end) {
      return false;
    }
    sleepMs(0.2);
  }
  return true;
}

// -- event channels, step by step --------------------------------------------------------------------------------------

struct WaitResult {
  EventChannel::Status status{};
  EventChannel::Event event{};
  double start{}, end{};
};

const char* name(EventChannel::Status s) {
  return s == EventChannel::Status::SUCCESS ? "SUCCESS" : s == EventChannel::Status::TIMEOUT ? "TIMEOUT" : "FAILURE";
}

void eventSteps(Case& c) {
  Rng& r = c.rng;
  bool broadcast = r.chance(0.5);
  string tag = broadcast ? "broadcast" : "unicast";
  auto mode = broadcast ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST;
  size_t n = static_cast<size_t>(r.range(1, 7));
  Pool pool(n + 1); // the last one dispatches, or destroys, when that may have to wait
  size_t helper = n;
  unique_ptr<EventChannel> owner = make_unique<EventChannel>("chan", mode);
  EventChannel* ch = owner.get();
  vector<WaitResult> res(n);
  struct Listener {
    int64_t missed{};
  };
  map<size_t, Listener> listening;
  int64_t missed = 0, lastValue = 0, nextValue = static_cast<int64_t>(r.next() >> 2);
  double lastDispatch = -1e9;
  string history;
  // what to leave behind when threads are stuck
  auto bail = [&](const string& key, const string& what) {
    owner.release();
    c.failNow("event-" + tag + "-" + key, "%s; history: %s", what.c_str(), history.c_str());
  };
  auto startWait = [&](size_t i, double timeout, double lookBack) {
    WaitResult* out = &res[i];
    *out = {};
    out->event.value = INT64_MIN;
    pool.w[i]->give([=] {
      out->start = now();
      out->status = ch->waitForEvent(out->event, timeout, lookBack);
      out->end = now();
    });
  };
  // the workers that must be idle are, the listeners still wait
  auto verifyWaiting = [&]() {
    pool.settle();
    for (size_t i = 0; i < n; i++) {
      bool waits = listening.count(i) > 0;
      if (pool.idle(i) == waits) {
        bail(waits ? "returned-early" : "still-waiting",
             sf("listener %zu %s (%s, value %lld)", i, waits ? "returned while nothing was sent to it" : "should have returned",
                name(res[i].status), static_cast<long long>(res[i].event.value)));
      }
    }
  };
  // `values` were dispatched, in order, with nobody coming back in between: check who got what
  auto verifyDelivered = [&](const vector<int64_t>& values) {
    pool.settle();
    multiset<int64_t> expected;
    size_t listeners = listening.size();
    size_t wake = 0; // how many listeners return
    if (broadcast) {
      wake = listeners;
      for (size_t k = 0; k < wake; k++) {
        expected.insert(values[0]);
      }
      missed += static_cast<int64_t>(values.size()) - (listeners > 0 ? 1 : 0);
    } else {
      wake = min(listeners, values.size());
      expected.insert(values.begin(), values.begin() + static_cast<ptrdiff_t>(wake));
      missed += static_cast<int64_t>(values.size() - wake);
    }
    multiset<int64_t> got;
    for (auto it = listening.begin(); it != listening.end();) {
      if (!pool.idle(it->first)) {
        ++it;
        continue;
      }
      auto& w = res[it->first];
      if (w.status != EventChannel::Status::SUCCESS) {
        bail("bad-status", sf("listener %zu returned %s for an event", it->first, name(w.status)));
      }
      got.insert(w.event.value);
      if (w.event.numMissedEvents != it->second.missed) {
        bail("missed-count", sf("listener %zu told %lld events missed, not %lld", it->first,
                                static_cast<long long>(w.event.numMissedEvents), static_cast<long long>(it->second.missed)));
      }
      it = listening.erase(it);
      c.count("events_received");
    }
    if (got.size() != wake) {
      bail(got.size() < wake ? "lost" : "invented", sf("%zu dispatched to %zu listeners: %zu returned, not %zu", values.size(), listeners, got.size(), wake));
    }
    if (got != expected) {
      bail("wrong-value", sf("%zu dispatched to %zu listeners: wrong values received", values.size(), listeners));
    }
    int64_t counted = ch->getNumEventsSinceLastWait();
    if (counted != missed) {
      bail("counter", sf("%lld events since the last wait, not %lld", static_cast<long long>(counted), static_cast<long long>(missed)));
    }
    lastValue = values.back();
    lastDispatch = now();
  };
  size_t steps = static_cast<size_t>(r.range(4, 30));
  for (size_t s = 0; s < steps; s++) {
    vector<size_t> idle;
    for (size_t i = 0; i < n; i++) {
      if (listening.count(i) == 0) {
        idle.push_back(i);
      }
    }
    unsigned op = static_cast<unsigned>(r.below(20));
    if (op < 8 && !idle.empty()) {
      size_t i = r.pick(idle);
      double lookBack = r.pick({0.0, 0.0, 1e-4, 1000.0});
      if (lookBack == 1e-4) {
        sleepMs(1);
      }
      double timeout = r.pick<double>({1000.0, static_cast<double>(EventChannel::kInfiniteTimeout)});
      history += sf("wait%zu(%g) ", i, lookBack);
      startWait(i, timeout, lookBack);
      if (missed > 0 && lookBack > 1) {
        if (!soon([&] { return pool.idle(i); })) {
          bail("lookback-waits", "a wait does not return a recent event");
        }
        auto& w = res[i];
        if (w.status != EventChannel::Status::SUCCESS || w.event.value != lastValue || w.event.numMissedEvents != missed - 1) {
          bail("lookback", sf("looking back: %s value %lld (not %lld), %lld missed, not %lld", name(w.status), static_cast<long long>(w.event.value),
                              static_cast<long long>(lastValue), static_cast<long long>(w.event.numMissedEvents), static_cast<long long>(missed - 1)));
        }
        c.count("lookback_received");
      } else {
        listening[i].missed = missed;
      }
      missed = 0;
      verifyWaiting();
    } else if (op < 10 && !idle.empty()) {
      // nothing is dispatched: must time out, not before, and not much later
      size_t i = r.pick(idle);
      double timeout = r.chance(0.3) ? 0 : r.unit() * 0.02;
      history += sf("try%zu ", i);
      startWait(i, timeout, 0);
      if (!soon([&] { return pool.idle(i); })) {
        bail("timeout-ignored", sf("a wait of %g s does not return", timeout));
      }
      auto& w = res[i];
      if (w.status != EventChannel::Status::TIMEOUT) {
        bail("no-timeout", sf("%s (value %lld) without an event", name(w.status), static_cast<long long>(w.event.value)));
      }
      if (w.end - w.start < timeout - 0.002) {
        bail("early-timeout", sf("timed out after %g s, not %g", w.end - w.start, timeout));
      }
      missed = 0;
      if (ch->getNumEventsSinceLastWait() != 0) {
        bail("counter", "the count of events is not reset by a wait");
      }
      c.count("timeouts");
      verifyWaiting();
    } else if (op < 15) {
      vector<int64_t> values;
      size_t count = r.chance(0.5) ? 1 : static_cast<size_t>(r.range(2, 8));
      history += sf("send%zu ", count);
      for (size_t k = 0; k < count; k++) {
        values.push_back(nextValue++);
      }
      for (int64_t v : values) {
        ch->dispatchEvent(v);
      }
      c.count(listening.empty() ? "sent_to_nobody" : count > 1 ? "bursts" : "sent");
      verifyDelivered(values);
      verifyWaiting();
    } else if (op < 17 && !listening.empty() && !IS_TSAN) {
      // hold listeners while they wake up, and dispatch more events meanwhile
      vector<size_t> held;
      for (auto& l : listening) {
        if (held.empty() || r.chance(0.6)) {
          pool.freeze(l.first);
          held.push_back(l.first);
        }
      }
      size_t count = static_cast<size_t>(r.range(1, 4));
      history += sf("held%zu-send%zu ", held.size(), count);
      vector<int64_t> values;
      for (size_t k = 0; k < count; k++) {
        values.push_back(nextValue++);
      }
      pool.w[helper]->give([=] {
        for (int64_t v : values) {
          ch->dispatchEvent(v);
        }
      });
      if (r.chance(0.8)) {
        sleepMs(r.unit() * 2);
        pool.settle();
      }
      vector<size_t> others;
      for (size_t i : held) {
        pool.unfreeze(i);
        if (r.chance(0.3)) {
          pool.settle();
        }
      }
      if (!soon([&] { return pool.idle(helper); })) {
        bail("dispatch-stuck", "dispatchEvent does not return");
      }
      c.count("held_wakeups");
      verifyDelivered(values);
      verifyWaiting();
    } else if (op < 18) {
      history += "count ";
      int64_t counted = ch->getNumEventsSinceLastWait();
      if (counted != missed) {
        bail("counter", sf("%lld events since the last wait, not %lld", static_cast<long long>(counted), static_cast<long long>(missed)));
      }
      if (ch->getName() != "chan" || ch->getNotificationMode() != mode) {
        bail("identity", "name or mode changed");
      }
    } else if (op == 18 && s > 3) {
      // destroyed with listeners, possibly as they wake up, possibly with others coming in
      bool dispatch = r.chance(0.5), hold = !IS_TSAN && r.chance(0.5);
      vector<size_t> held;
      if (hold) {
        for (auto& l : listening) {
          if (r.chance(0.6)) {
            pool.freeze(l.first);
            held.push_back(l.first);
          }
        }
      }
      map<size_t, Listener> inside = listening;
      history += sf("destroy(%d,%zu) ", dispatch, held.size());
      if (dispatch) {
        int64_t v = nextValue++;
        pool.w[helper]->give([=] { ch->dispatchEvent(v); });
        pool.settle();
        if (!pool.idle(helper)) {
          // the C library's condition variables may have to wait for a thread that's held
          for (size_t i : held) {
            pool.unfreeze(i);
          }
          held.clear();
          if (!soon([&] { return pool.idle(helper); })) {
            bail("dispatch-stuck", "dispatchEvent does not return");
          }
        }
      }
      set<size_t> entering;
      bool entered = false;
      if (dispatch && !held.empty()) {
        // these wait for the held ones before they can listen themselves
        for (size_t i : idle) {
          if (r.chance(0.5)) {
            startWait(i, 1000, 0);
            entering.insert(i);
          }
        }
        pool.settle();
        // those that found an event to receive are gone
        for (size_t i : entering) {
          entered |= !pool.idle(i);
        }
      }
      pool.w[helper]->give([&owner] { owner.reset(); });
      if (r.chance(0.7)) {
        sleepMs(r.unit() * 12);
      }
      for (size_t i : held) {
        pool.unfreeze(i);
      }
      bool done = soon([&] {
        for (size_t i = 0; i <= n; i++) {
          if (!pool.idle(i)) {
            return false;
          }
        }
        return true;
      });
      if (!done) {
        c.failNow("event-" + tag + "-destroy-stuck", "waits or the destructor do not return; history: %s", history.c_str());
      }
      for (auto& l : inside) {
        auto& w = res[l.first];
        if (w.status != EventChannel::Status::FAILURE && !(dispatch && w.status == EventChannel::Status::SUCCESS)) {
          c.failNow("event-" + tag + "-destroy-status", "wait returned %s; history: %s", name(w.status), history.c_str());
        }
        if (w.status == EventChannel::Status::SUCCESS && w.event.value != nextValue - 1) {
          c.failNow("event-" + tag + "-destroy-value", "wrong value; history: %s", history.c_str());
        }
      }
      c.count("destroyed");
      c.count("destroyed_listeners", static_cast<int64_t>(inside.size()));
      if (entered) {
        c.count("destroyed_entering");
      }
      if (!held.empty()) {
        c.count("destroyed_held");
      }
      listening.clear();
      missed = 0;
      lastDispatch = -1e9;
      owner = make_unique<EventChannel>("chan", mode);
      ch = owner.get();
    }
  }
  // let everybody go
  pool.w[helper]->give([&owner] { owner.reset(); });
  bool done = soon([&] {
    for (size_t i = 0; i <= n; i++) {
      if (!pool.idle(i)) {
        return false;
      }
    }
    return true;
  });
  c.check(done, "event-" + tag + "-destroy-stuck", "waits or the destructor do not return; history: %s", history.c_str());
  c.signature("event " + tag + history);
  c.sample("event channel, " + tag + ": " + history);
}

// -- job queues, step by step ------------------------------------------------------------------------------------------

// a job that tells when its contents were moved elsewhere
struct Job {
  int64_t id{-1};
  vector<int64_t> load;
  Job() = default;
  explicit Job(int64_t i) : id{i}, load(static_cast<size_t>(i % 5), i) {}
  Job(const Job&) = default;
  Job& operator=(const Job&) = default;
  Job(Job&& o) noexcept : id{o.id}, load{std::move(o.load)} {
    o.id = -2;
  }
  Job& operator=(Job&& o) noexcept {
    id = o.id;
    load = std::move(o.load);
    o.id = -2;
    return *this;
  }
  bool intact() const {
    return id >= 0 && load.size() == static_cast<size_t>(id % 5) && (load.empty() || load.back() == id);
  }
};

enum HowWait { kForever, kSeconds, kMs, kManySeconds, kManyMs, kGet, kHowCount };

struct JobResult {
  bool ok{};
  deque<Job> jobs;
  double start{}, end{};
};

template <class Q>
void receive(Q& q, HowWait how, double sec, JobResult& out) {
  Job j;
  int64_t ms = static_cast<int64_t>(sec * 1000);
  bool single = true;
  out.jobs.clear();
  switch (how) {
    case kForever:
      out.ok = q.waitForJob(j);
      break;
    case kSeconds:
      out.ok = q.waitForJob(j, sec);
      break;
    case kMs:
      out.ok = q.waitForJobMs(j, ms);
      break;
    case kManySeconds:
      single = false;
      out.ok = q.waitForJobs(out.jobs, sec);
      break;
    case kManyMs:
      single = false;
      out.ok = q.waitForJobsMs(out.jobs, ms);
      break;
    default:
      out.ok = q.getJob(j);
      break;
  }
  if (single && out.ok) {
    out.jobs.push_back(std::move(j));
  }
}

void jobSteps(Case& c) {
  Rng& r = c.rng;
  size_t n = static_cast<size_t>(r.range(1, 6));
  Pool pool(n + 1); // the last one sends, or ends the queue, when that may have to wait for a thread that's held
  size_t helper = n;
  using Queue = vrs::JobQueue<Job>;
  unique_ptr<Queue> owner = make_unique<Queue>();
  Queue* q = owner.get();
  vector<JobResult> res(n);
  set<size_t> waiting;
  deque<int64_t> model;
  bool ended = false;
  int64_t nextId = 0;
  string history;
  auto bail = [&](const string& key, const string& what) {
    owner.release();
    c.failNow("job-" + key, "%s; history: %s", what.c_str(), history.c_str());
  };
  auto idsOf = [&](const deque<Job>& jobs) {
    deque<int64_t> ids;
    for (auto& j : jobs) {
      if (!j.intact()) {
        bail("damaged", sf("job %lld received damaged", static_cast<long long>(j.id)));
      }
      ids.push_back(j.id);
    }
    return ids;
  };
  auto show = [](const deque<int64_t>& ids) {
    string s;
    for (int64_t i : ids) {
      s += to_string(i) + " ";
    }
    return s;
  };
  auto verifyWaiting = [&]() {
    pool.settle();
    for (size_t i = 0; i < n; i++) {
      bool waits = waiting.count(i) > 0;
      if (pool.idle(i) == waits) {
        bail(waits ? "returned-early" : "still-waiting", sf("consumer %zu %s", i, waits ? "returned without a job" : "should have returned"));
      }
    }
    size_t size = q->getQueueSize();
    if (size != model.size()) {
      bail("size", sf("the queue has %zu jobs, not %zu", size, model.size()));
    }
    if (q->hasEnded() != ended) {
      bail("ended", sf("hasEnded tells %d", !ended));
    }
  };
  // jobs were sent while consumers were waiting: those that returned got one each, the first ones
  auto verifyDelivered = [&]() {
    pool.settle();
    size_t wake = min(waiting.size(), model.size());
    set<int64_t> expected(model.begin(), model.begin() + static_cast<ptrdiff_t>(wake));
    set<int64_t> got;
    size_t returned = 0;
    for (auto it = waiting.begin(); it != waiting.end();) {
      if (!pool.idle(*it)) {
        ++it;
        continue;
      }
      auto& w = res[*it];
      if (!w.ok) {
        bail("returned-empty", sf("consumer %zu returned without a job", *it));
      }
      auto ids = idsOf(w.jobs);
      got.insert(ids.begin(), ids.end());
      if (ids.size() != 1) {
        bail("count", sf("consumer %zu received %zu jobs", *it, ids.size()));
      }
      returned++;
      it = waiting.erase(it);
      c.count("jobs_received");
    }
    if (returned != wake || got != expected) {
      bail(returned < wake ? "lost" : "invented", sf("%zu consumers returned, not %zu (or with other jobs)", returned, wake));
    }
    model.erase(model.begin(), model.begin() + static_cast<ptrdiff_t>(wake));
  };
  auto send = [&](size_t count) {
    for (size_t k = 0; k < count; k++) {
      Job j(nextId);
      model.push_back(nextId++);
      if (r.chance(0.5)) {
        q->sendJob(j);
      } else {
        q->sendJob(std::move(j));
      }
    }
  };
  size_t steps = static_cast<size_t>(r.range(5, 40));
  for (size_t s = 0; s < steps; s++) {
    vector<size_t> idle;
    for (size_t i = 0; i < n; i++) {
      if (waiting.count(i) == 0) {
        idle.push_back(i);
      }
    }
    unsigned op = static_cast<unsigned>(r.below(24));
    if (op < 9 && !idle.empty()) {
      size_t i = r.pick(idle);
      auto how = static_cast<HowWait>(r.below(kHowCount));
      bool brief = how != kForever && (ended || r.chance(0.3));
      double sec = !brief ? 1000 : r.chance(0.3) ? (r.chance(0.5) ? 0 : -1) : r.unit() * 0.02;
      history += sf("recv%zu(%d,%g) ", i, how, sec);
      bool present = !model.empty();
      if (how == kForever && ended) {
        sec = 0;
        brief = true;
      }
      JobResult* out = &res[i];
      pool.w[i]->give([=] {
        out->start = now();
        receive(*q, how, sec, *out);
        out->end = now();
      });
      bool waits = !present && !ended && !brief && how != kGet;
      if (waits) {
        waiting.insert(i);
        c.count("waits");
      } else {
        if (!soon([&] { return pool.idle(i); })) {
          bail("no-return", sf("a wait of %g s does not return (%zu jobs queued, ended: %d)", sec, model.size(), ended));
        }
        auto ids = idsOf(out->jobs);
        bool many = how == kManySeconds || how == kManyMs;
        // what remains in a queue that ended can still be received, but need not be by waiting functions
        if (ended && present && !out->ok && how != kGet) {
          c.count("ended_with_jobs");
        } else if (out->ok != present) {
          bail("result", sf("returned %d with %zu jobs queued", out->ok, model.size()));
        }
        if (out->ok) {
          deque<int64_t> expected(model.begin(), many ? model.end() : model.begin() + 1);
          if (ids != expected) {
            bail("order", "received " + show(ids) + ", not " + show(expected));
          }
          model.erase(model.begin(), model.begin() + static_cast<ptrdiff_t>(expected.size()));
          c.count(many ? "received_many" : "received_front");
        } else {
          if (!ids.empty()) {
            bail("jobs-without-success", "jobs received by a call that failed");
          }
          if (!present && !ended && how != kGet && sec > 0) {
            // whole milliseconds
            if (out->end - out->start < floor(sec * 1000) / 1000 - 0.001) {
              bail("early-timeout", sf("gave up after %g s, not %g", out->end - out->start, sec));
            }
            c.count("timeouts");
          }
        }
      }
    } else if (op < 15) {
      size_t count = r.chance(0.4) ? 1 : static_cast<size_t>(r.range(2, 8));
      history += sf("send%zu ", count);
      send(count);
      if (!ended) {
        c.count(waiting.empty() ? "sent" : "sent_to_waiting");
        verifyDelivered();
      }
    } else if (op < 17 && !waiting.empty() && !IS_TSAN) {
      size_t held = 0;
      vector<size_t> heldOnes;
      for (size_t i : waiting) {
        if (held == 0 || r.chance(0.6)) {
          pool.freeze(i);
          heldOnes.push_back(i);
          held++;
        }
      }
      size_t count = static_cast<size_t>(r.range(1, 6));
      history += sf("held%zu-send%zu ", held, count);
      pool.w[helper]->give([&, count] { send(count); });
      pool.settle();
      for (size_t i : heldOnes) {
        pool.unfreeze(i);
      }
      if (!soon([&] { return pool.idle(helper); })) {
        bail("send-stuck", "sendJob does not return");
      }
      c.count("held_wakeups");
      verifyDelivered();
    } else if (op < 19) {
      int64_t mod = r.range(1, 4), rem = static_cast<int64_t>(r.below(static_cast<uint64_t>(mod)));
      bool cleanup = r.chance(0.7);
      history += sf("cancel(%lld,%lld) ", static_cast<long long>(mod), static_cast<long long>(rem));
      multiset<int64_t> cleaned, expected;
      bool damaged = false;
      auto selector = [=](const Job& j) { return j.id % mod == rem; };
      if (cleanup) {
        q->cancelQueuedJobs(selector, [&](const Job& j) {
          cleaned.insert(j.id);
          damaged |= !j.intact();
        });
      } else {
        q->cancelQueuedJobs(selector);
      }
      deque<int64_t> left;
      for (int64_t id : model) {
        if (id % mod == rem) {
          expected.insert(id);
        } else {
          left.push_back(id);
        }
      }
      model = left;
      if (cleanup && (cleaned != expected || damaged)) {
        bail("cleanup", "the jobs cleaned-up are not those cancelled");
      }
      c.count("cancels");
      if (!expected.empty() && !left.empty()) {
        c.count("partial_cancels");
      }
    } else if (op == 19) {
      history += "cancelAll ";
      q->cancelAllQueuedJobs();
      model.clear();
    } else if (op == 20) {
      history += "wakeAll ";
      q->wakeAll();
    } else if (op == 21) {
      bool clear = r.chance(0.5);
      history += sf("end%d ", clear);
      vector<size_t> held;
      if (!IS_TSAN && r.chance(0.3)) {
        for (size_t i : waiting) {
          if (r.chance(0.6)) {
            pool.freeze(i);
            held.push_back(i);
          }
        }
      }
      pool.w[helper]->give([=] { clear ? q->endQueue() : q->endQueue(false); });
      pool.settle();
      for (size_t i : held) {
        pool.unfreeze(i);
      }
      if (!soon([&] { return pool.idle(helper); })) {
        bail("end-stuck", "endQueue does not return");
      }
      if (clear) {
        model.clear();
      }
      ended = true;
      bool done = soon([&] {
        for (size_t i : waiting) {
          if (!pool.idle(i)) {
            return false;
          }
        }
        return true;
      }, 2.5); // some implementations wait in slices of 5 s: the end must be noticed at once
      if (!done) {
        bail("end-ignored", "consumers still wait after the end of the queue");
      }
      for (size_t i : waiting) {
        if (res[i].ok) {
          bail("invented", sf("consumer %zu received a job from an ended queue", i));
        }
      }
      c.count("ends");
      c.count("ended_waits", static_cast<int64_t>(waiting.size()));
      waiting.clear();
    } else if (op == 22 && (ended || r.chance(0.2))) {
      history += "reset ";
      q->reset();
      model.clear();
      ended = false;
      c.count("resets");
    }
    verifyWaiting();
  }
  // what is left can be received
  q->endQueue(false);
  if (!soon([&] {
        for (size_t i = 0; i < n; i++) {
          if (!pool.idle(i)) {
            return false;
          }
        }
        return true;
      })) {
    bail("end-ignored", "consumers still wait after the end of the queue");
  }
  Job j;
  deque<int64_t> left;
  while (q->getJob(j)) {
    left.push_back(j.id);
  }
  if (left != model) {
    bail("left", "the queue has " + show(left) + ", not " + show(model));
  }
  c.signature("job " + history);
  c.sample("job queue: " + history);
}

// -- semaphores, step by step ------------------------------------------------------------------------------------------

void semaphoreSteps(Case& c) {
  Rng& r = c.rng;
  size_t n = static_cast<size_t>(r.range(1, 6));
  Pool pool(n);
  unsigned count = static_cast<unsigned>(r.below(4));
  auto* sem = new Semaphore(count);
  vector<int> ok(n);
  vector<double> took(n);
  set<size_t> waiting;
  string history = sf("start%u ", count);
  auto verify = [&]() {
    pool.settle();
    size_t wake = min<size_t>(waiting.size(), count), back = 0;
    for (auto it = waiting.begin(); it != waiting.end();) {
      if (pool.idle(*it)) {
        if (!ok[*it]) {
          c.failNow("semaphore-gave-up", "a wait failed before its time; history: %s", history.c_str());
        }
        it = waiting.erase(it);
        back++;
      } else {
        ++it;
      }
    }
    if (back != wake) {
      c.failNow(back < wake ? "semaphore-lost" : "semaphore-invented", "%zu waits returned, not %zu; history: %s", back, wake, history.c_str());
    }
    count -= static_cast<unsigned>(wake);
    c.count("semaphore_passed", static_cast<int64_t>(back));
  };
  size_t steps = static_cast<size_t>(r.range(4, 30));
  for (size_t s = 0; s < steps; s++) {
    vector<size_t> idle;
    for (size_t i = 0; i < n; i++) {
      if (waiting.count(i) == 0) {
        idle.push_back(i);
      }
    }
    unsigned op = static_cast<unsigned>(r.below(10));
    if (op < 4 && !idle.empty()) {
      size_t i = r.pick(idle);
      bool timed = r.chance(0.5);
      history += sf("wait%zu%s ", i, timed ? "t" : "");
      ok[i] = 0;
      int* out = &ok[i];
      pool.w[i]->give([=] {
        if (timed) {
          *out = sem->timedWait(1000);
        } else {
          sem->wait();
          *out = 1;
        }
      });
      waiting.insert(i);
      c.count(timed ? "semaphore_timed_waits" : "semaphore_waits");
      verify();
    } else if (op < 6 && !idle.empty()) {
      size_t i = r.pick(idle);
      double sec = r.chance(0.3) ? 0 : r.unit() * 0.02;
      history += sf("try%zu ", i);
      int* out = &ok[i];
      double* t = &took[i];
      pool.w[i]->give([=] {
        double start = now();
        *out = sem->timedWait(sec);
        *t = now() - start;
      });
      if (!soon([&] { return pool.idle(i); })) {
        c.failNow("semaphore-timeout-ignored", "a wait of %g s does not return; history: %s", sec, history.c_str());
      }
      bool expected = count > 0;
      if (static_cast<bool>(ok[i]) != expected) {
        c.failNow("semaphore-result", "a wait of %g s returned %d with count %u; history: %s", sec, ok[i], count, history.c_str());
      }
      // the system's clock can be adjusted: only tell waits that clearly don't wait
      if (!expected && sec > 0.01 && took[i] < sec / 2) {
        c.failNow("semaphore-early-timeout", "gave up after %g s, not %g; history: %s", took[i], sec, history.c_str());
      }
      if (expected) {
        count--;
      } else {
        c.count("semaphore_timeouts");
      }
    } else {
      size_t posts = r.chance(0.5) ? 1 : static_cast<size_t>(r.range(2, 6));
      history += sf("post%zu ", posts);
      for (size_t k = 0; k < posts; k++) {
        sem->post();
      }
      count += static_cast<unsigned>(posts);
      verify();
    }
  }
  while (!waiting.empty()) {
    sem->post();
    count++;
    verify();
  }
  // exactly what the model tells is left
  unsigned left = 0;
  while (left < 1000 && sem->timedWait(0)) {
    left++;
  }
  c.check(left == count, "semaphore-count", "%u left, not %u; history: %s", left, count, history.c_str());
  delete sem;
  c.signature("semaphore " + history);
  c.sample("semaphore: " + history);
}

// -- free running --------------------------------------------------------------------------------------------------------

void startPerturb(Case& c) {
  perturb::start(c.rng.next(), static_cast<unsigned>(c.rng.pick({0, 20, 100, 300})), static_cast<unsigned>(c.rng.pick({20, 100, 500})));
}
void stopPerturb(Case& c, const string& what) {
  perturb::stop();
  c.count("pauses", static_cast<int64_t>(perturb::pauses()));
  c.count("lock_ops", static_cast<int64_t>(perturb::lockOps()));
  c.signature(what + sf("%llx", static_cast<unsigned long long>(perturb::signature())));
}

struct Got {
  int64_t id{};
  double start{}, end{}; // of the call which received it
  size_t by{};
};

void jobRace(Case& c) {
  Rng& r = c.rng;
  using Queue = vrs::JobQueueWithThread<Job>;
  size_t producers = static_cast<size_t>(r.range(1, 4)), consumers = static_cast<size_t>(r.range(1, 4));
  size_t each = static_cast<size_t>(r.range(5, 120));
  bool cancel = r.chance(0.4), own = r.chance(0.4), endEarly = r.chance(0.25);
  auto queue = make_unique<Queue>();
  Queue& q = *queue;
  const int64_t kStride = 1000000;
  vector<vector<Got>> got(consumers + 1);
  vector<vector<pair<double, double>>> sentAt(producers);
  multiset<int64_t> cleaned;
  vector<int64_t> bad;
  vector<double> lateEnds(consumers + 1, 0);
  vector<thread> threads, makers;
  atomic<double> endTime{0};
  startPerturb(c);
  auto consume = [&](size_t id, uint64_t seed, bool onlyForever) {
    Rng rng(seed);
    JobResult res;
    for (;;) {
      HowWait how = onlyForever ? kForever : static_cast<HowWait>(rng.below(kHowCount));
      double start = now();
      receive(q, how, rng.pick({0.0, 0.001, 0.003, 0.02, 100.0}), res);
      double end = now();
      for (auto& j : res.jobs) {
        if (!res.ok || !j.intact()) {
          got[id].push_back({-1, start, end, id});
        } else {
          got[id].push_back({j.id, start, end, id});
        }
      }
      if (!res.ok && q.hasEnded()) {
        lateEnds[id] = end;
        return;
      }
      if (rng.chance(0.02)) {
        usleep(static_cast<unsigned>(rng.below(500)));
      }
    }
  };
  uint64_t base = r.next();
  if (own) {
    q.startThread([&consume, base, consumers] { consume(consumers, base + 77, true); });
  }
  for (size_t i = 0; i < consumers; i++) {
    threads.emplace_back([&consume, i, base] { consume(i, base + i, false); });
  }
  for (size_t p = 0; p < producers; p++) {
    sentAt[p].reserve(each);
    makers.emplace_back([&, p] {
      Rng rng(base + 1000 + p);
      for (size_t k = 0; k < each; k++) {
        Job j(static_cast<int64_t>(p) * kStride + static_cast<int64_t>(k));
        double a = now();
        rng.chance(0.5) ? q.sendJob(j) : q.sendJob(std::move(j));
        sentAt[p].emplace_back(a, now());
        if (rng.chance(0.05)) {
          usleep(static_cast<unsigned>(rng.below(800)));
        }
      }
    });
  }
  if (cancel) {
    size_t rounds = static_cast<size_t>(r.range(1, 20));
    for (size_t k = 0; k < rounds; k++) {
      int64_t mod = r.range(2, 5);
      q.cancelQueuedJobs(
          [=](const Job& j) { return j.id % mod == 0; },
          [&](const Job& j) {
            cleaned.insert(j.id);
            if (!j.intact() || j.id % mod != 0) {
              bad.push_back(j.id);
            }
          });
      usleep(static_cast<unsigned>(r.below(400)));
    }
  }
  auto joinAll = [](vector<thread>& v) {
    for (auto& t : v) {
      t.join();
    }
  };
  if (!endEarly) {
    joinAll(makers);
    if (!soon([&] { return q.getQueueSize() == 0; })) {
      c.failNow("job-race-stuck", "jobs stay in the queue while consumers wait");
    }
  }
  vector<int64_t> left;
  endTime = now();
  q.endQueue(false);
  if (endEarly) {
    joinAll(makers);
  }
  joinAll(threads);
  if (own) {
    q.endThread(); // clears the queue
  } else {
    Job j;
    while (q.getJob(j)) {
      left.push_back(j.id);
    }
  }
  double allBack = now();
  queue.reset();
  stopPerturb(c, "job");
  c.check(allBack - endTime < kSlack, "job-race-end-late", "consumers return %g s after the end of the queue", allBack - endTime);
  c.check(bad.empty(), "job-race-cleanup", "cleaned-up job %lld was not to be cancelled", bad.empty() ? 0LL : static_cast<long long>(bad[0]));
  // exactly once
  map<int64_t, const Got*> where;
  for (auto& g : got) {
    map<int64_t, int64_t> lastOf;
    for (auto& x : g) {
      if (x.id < 0) {
        c.failNow("job-race-damaged", "a job was received damaged");
      }
      if (!where.emplace(x.id, &x).second) {
        c.failNow("job-race-twice", "job %lld received twice", static_cast<long long>(x.id));
      }
      int64_t p = x.id / kStride, k = x.id % kStride;
      auto& s = sentAt[static_cast<size_t>(p)];
      if (static_cast<size_t>(k) >= s.size() || s[static_cast<size_t>(k)].first > x.end) {
        c.failNow("job-race-invented", "job %lld received before it was sent", static_cast<long long>(x.id));
      }
      auto it = lastOf.find(p);
      if (it != lastOf.end() && it->second > k) {
        c.failNow("job-race-order", "job %lld of producer %lld received after %lld", static_cast<long long>(k), static_cast<long long>(p), static_cast<long long>(it->second));
      }
      lastOf[p] = k;
      c.count("race_jobs");
    }
  }
  for (size_t p = 0; p < producers; p++) {
    // order across consumers: a later job can't have been received by a call that returned before the one that received
    // an earlier job was made
    double earliestEnd = 1e300;
    for (size_t k = each; k-- > 0;) {
      int64_t id = static_cast<int64_t>(p) * kStride + static_cast<int64_t>(k);
      auto it = where.find(id);
      size_t times = (it != where.end()) + cleaned.count(id) + static_cast<size_t>(count(left.begin(), left.end(), id));
      bool mayBeGone = endEarly && own;
      if (times > 1 || (times == 0 && !mayBeGone)) {
        c.failNow(times > 1 ? "job-race-twice" : "job-race-lost", "job %lld found %zu times", static_cast<long long>(id), times);
      }
      if (it != where.end()) {
        if (it->second->start > earliestEnd) {
          c.failNow("job-race-overtaken", "a job was received before one sent earlier");
        }
        earliestEnd = min(earliestEnd, it->second->end);
      }
    }
  }
  c.count("race_cancelled", static_cast<int64_t>(cleaned.size()));
  c.count("job_races");
  if (own) {
    c.count("own_thread");
  }
}

void eventRace(Case& c) {
  Rng& r = c.rng;
  bool broadcast = r.chance(0.4), timeouts = r.chance(0.4);
  string tag = broadcast ? "broadcast" : "unicast";
  auto owner = make_unique<EventChannel>("race", broadcast ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST);
  EventChannel& ch = *owner;
  size_t listeners = static_cast<size_t>(r.range(1, 5)), senders = static_cast<size_t>(r.range(1, 3));
  size_t each = static_cast<size_t>(r.range(5, 80));
  double lookBack = r.pick({0.0, 0.0, 1000.0});
  const int64_t kStride = 1000000, kStop = -7;
  struct Ev {
    EventChannel::Event e;
    double start, end;
  };
  vector<vector<Ev>> got(listeners);
  vector<vector<pair<double, double>>> sent(senders);
  vector<string> errors(listeners);
  atomic<size_t> running{listeners};
  atomic<bool> stop{false};
  int64_t stops = 0;
  uint64_t base = r.next();
  startPerturb(c);
  vector<thread> ls, ss;
  for (size_t i = 0; i < listeners; i++) {
    ls.emplace_back([&, i] {
      Rng rng(base + i);
      for (;;) {
        EventChannel::Event e{};
        double timeout = timeouts ? rng.pick({0.0, 0.0005, 0.003, 50.0}) : 1e6;
        double start = now();
        auto status = ch.waitForEvent(e, timeout, lookBack);
        double end = now();
        if (status == EventChannel::Status::SUCCESS) {
          got[i].push_back({e, start, end});
        } else if (status == EventChannel::Status::TIMEOUT && timeouts) {
          if (end - start < timeout - 0.002) {
            errors[i] = sf("timed out after %g s, not %g", end - start, timeout);
          }
          if (end - start > timeout + kSlack) {
            errors[i] = sf("timed out after %g s, not %g", end - start, timeout);
          }
        } else {
          errors[i] = sf("wait returned %s", name(status));
        }
        if (stop.load(memory_order_relaxed)) {
          break;
        }
        if (rng.chance(0.1)) {
          usleep(static_cast<unsigned>(rng.below(300)));
        }
      }
      running--;
    });
  }
  for (size_t p = 0; p < senders; p++) {
    ss.emplace_back([&, p] {
      Rng rng(base + 100 + p);
      for (size_t k = 0; k < each; k++) {
        double a = now();
        ch.dispatchEvent(static_cast<int64_t>(p) * kStride + static_cast<int64_t>(k) + 1);
        sent[p].emplace_back(a, now());
        if (rng.chance(0.3)) {
          usleep(static_cast<unsigned>(rng.below(300)));
        }
      }
    });
  }
  for (auto& t : ss) {
    t.join();
  }
  stop.store(true, memory_order_relaxed);
  // no wake-up gets lost: events must get every listener out
  double limit = now() + kSlack;
  while (running > 0) {
    ch.dispatchEvent(kStop);
    stops++;
    usleep(stops < 100 ? 200 : 5000);
    if (now() > limit) {
      owner.release();
      for (auto& t : ls) {
        t.detach();
      }
      c.fail("event-race-" + tag + "-stuck", "listeners do not wake up (%zu)", running.load());
      fflush(stdout);
      _exit(3);
    }
  }
  for (auto& t : ls) {
    t.join();
  }
  int64_t left = ch.getNumEventsSinceLastWait();
  owner.reset();
  stopPerturb(c, "event");
  map<int64_t, size_t> times;
  int64_t successes = 0, missed = 0;
  for (size_t i = 0; i < listeners; i++) {
    c.check(errors[i].empty(), "event-race-" + tag + "-wait", "%s", errors[i].c_str());
    map<int64_t, int64_t> lastOf;
    set<int64_t> mine;
    for (auto& g : got[i]) {
      successes++;
      missed += g.e.numMissedEvents;
      int64_t v = g.e.value;
      if (g.e.numMissedEvents < 0) {
        c.failNow("event-race-" + tag + "-missed", "%lld events missed", static_cast<long long>(g.e.numMissedEvents));
      }
      if (v == kStop) {
        continue;
      }
      v--;
      int64_t p = v / kStride, k = v % kStride;
      if (v < 0 || p >= static_cast<int64_t>(senders) || k >= static_cast<int64_t>(each) ||
          sent[static_cast<size_t>(p)][static_cast<size_t>(k)].first > g.end) {
        c.failNow("event-race-" + tag + "-invented", "value %lld received, before it was sent or never sent", static_cast<long long>(v));
      }
      if (lookBack == 0 && sent[static_cast<size_t>(p)][static_cast<size_t>(k)].second < g.start) {
        c.failNow("event-race-" + tag + "-past", "an event dispatched before the wait started was received without looking back");
      }
      if (!mine.insert(v).second) {
        c.failNow("event-race-" + tag + "-twice", "an event was received twice by a listener");
      }
      auto it = lastOf.find(p);
      if (it != lastOf.end() && it->second > k) {
        c.failNow("event-race-" + tag + "-order", "event %lld of a sender received after event %lld", static_cast<long long>(k), static_cast<long long>(it->second));
      }
      lastOf[p] = k;
      times[v]++;
      c.count("race_events");
    }
  }
  int64_t dispatched = static_cast<int64_t>(senders * each) + stops;
  if (!broadcast) {
    for (auto& t : times) {
      if (t.second > 1) {
        c.failNow("event-race-unicast-several", "an event was received by %zu listeners", t.second);
      }
    }
    if (timeouts) {
      c.check(successes + missed + left <= dispatched, "event-race-unicast-invented", "%lld dispatched, %lld received, %lld missed, %lld left",
              static_cast<long long>(dispatched), static_cast<long long>(successes), static_cast<long long>(missed), static_cast<long long>(left));
    } else {
      c.check(successes + missed + left == dispatched, "event-race-unicast-conservation", "%lld dispatched, %lld received, %lld missed, %lld left",
              static_cast<long long>(dispatched), static_cast<long long>(successes), static_cast<long long>(missed), static_cast<long long>(left));
      c.count("conservation_checks");
    }
  } else {
    int64_t shared = 0;
    for (auto& t : times) {
      shared += t.second > 1;
    }
    c.count("shared_events", shared);
  }
  c.count("event_races");
}

void semaphoreRace(Case& c) {
  Rng& r = c.rng;
  unsigned initial = static_cast<unsigned>(r.below(3));
  Semaphore sem(initial);
  size_t posters = static_cast<size_t>(r.range(1, 3)), waiters = static_cast<size_t>(r.range(1, 4));
  size_t each = static_cast<size_t>(r.range(5, 200));
  size_t total = posters * each + initial;
  atomic<int64_t> passed{0}, posted{initial};
  atomic<bool> stop{false};
  uint64_t base = r.next();
  startPerturb(c);
  vector<thread> ts, ps;
  vector<string> errors(waiters);
  for (size_t i = 0; i < waiters; i++) {
    ts.emplace_back([&, i] {
      Rng rng(base + i);
      while (!stop) {
        double sec = rng.pick({0.0, 0.0005, 0.002, 0.01});
        double start = now();
        bool ok = sem.timedWait(sec);
        double took = now() - start;
        if (took > sec + kSlack) {
          errors[i] = sf("a wait of %g s took %g", sec, took);
        }
        if (ok) {
          int64_t p = ++passed;
          if (p > posted) {
            errors[i] = "more waits passed than posts";
          }
        }
      }
    });
  }
  for (size_t i = 0; i < posters; i++) {
    ps.emplace_back([&, i] {
      Rng rng(base + 50 + i);
      for (size_t k = 0; k < each; k++) {
        posted++;
        sem.post();
        if (rng.chance(0.1)) {
          usleep(static_cast<unsigned>(rng.below(200)));
        }
      }
    });
  }
  for (auto& t : ps) {
    t.join();
  }
  bool all = soon([&] { return passed == static_cast<int64_t>(total); });
  stop = true;
  for (auto& t : ts) {
    t.join();
  }
  stopPerturb(c, "semaphore" + to_string(base));
  for (auto& e : errors) {
    c.check(e.empty(), "semaphore-race-wait", "%s", e.c_str());
  }
  c.check(all && passed == static_cast<int64_t>(total), "semaphore-race-count", "%lld waits passed, %zu posts", static_cast<long long>(passed.load()), total);
  c.check(!sem.timedWait(0), "semaphore-race-extra", "one more wait passes");
  c.count("semaphore_races");
}

} // namespace

static void runCase(Case& c) {
  signal(SIGUSR1, onFreeze);
  unsigned what = static_cast<unsigned>(c.rng.below(10));
  if (c.mode == "race") {
    what < 5 ? jobRace(c) : what < 9 ? eventRace(c) : semaphoreRace(c);
  } else {
    what < 4 ? jobSteps(c) : what < 9 ? eventSteps(c) : semaphoreSteps(c);
  }
}
VH_MAIN()

#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace verif {
// One event of a schedule.
// kind: D delay, T timeout, L nothing happens for an hour, A acknowledgement, O output, Q the end of the schedule
struct Token { char kind; std::string topic, text; };

struct Timer { double secs; bool oneshot; bool active; std::function<void()> fire; };
struct Sub { std::string topic; std::function<void(const std::string&)> deliver; };

struct World {
  std::vector<Token> tokens;
  size_t at = 0;
  std::vector<Timer> timers;
  std::vector<Sub> subs;
  std::vector<std::string> advertised;
  std::vector<std::vector<std::pair<std::string, std::string>>> pubs;  // one list per step, 0 being the start
  std::ostringstream log;
  bool shut = false;
  bool stopped = true;   // whether the program stopped before it was asked for the end of the schedule

  void reset(std::vector<Token> ts) {
    tokens = std::move(ts); at = 0; timers.clear(); subs.clear(); advertised.clear(); pubs.clear(); pubs.resize(1);
    log.str(""); shut = false; stopped = true;
  }
  bool step() {
    if (at >= tokens.size()) return false;
    Token t = tokens[at++];
    if (t.kind == 'Q') { stopped = shut; return true; }
    pubs.emplace_back();
    if (t.kind == 'L') { alone(); return true; }
    if (t.kind == 'D' || t.kind == 'T') {
      // The start delay is the shorter of the two timers.
      size_t lo = 0, hi = 0;
      for (size_t i = 1; i < timers.size(); i++) {
        if (timers[i].secs < timers[lo].secs) lo = i;
        if (timers[i].secs > timers[hi].secs) hi = i;
      }
      if (t.kind == 'D' && timers.size() > 1) fire(lo);
      if (t.kind == 'T' && !timers.empty()) fire(hi);
    } else {
      std::string topic = t.kind == 'A' ? "input_accepted" : t.topic;
      std::vector<Sub> ss = subs;
      for (auto& s : ss) if (s.topic == topic) s.deliver(t.text);
    }
    return true;
  }
  // Fires all timers as they become due.
  void alone() {
    std::vector<double> due;
    for (int n = 0; n < 20000; n++) {
      while (due.size() < timers.size()) due.push_back(timers[due.size()].secs);
      size_t b = timers.size();
      for (size_t i = 0; i < timers.size(); i++) if (timers[i].active && (b == timers.size() || due[i] < due[b])) b = i;
      if (b == timers.size() || due[b] > 3600) return;
      due[b] += timers[b].secs;
      fire(b);
    }
  }
  void fire(size_t i) {
    if (!timers[i].active) return;
    if (timers[i].oneshot) timers[i].active = false;
    auto f = timers[i].fire;
    f();
  }
};
World& world();
inline std::string norm(const std::string& t) { return !t.empty() && t[0] == '/' ? t.substr(1) : t; }
}  // namespace verif

namespace ros {
struct Duration { double s; Duration(double s = 0) : s(s) {} double toSec() const { return s; } bool sleep() const { return true; } };
typedef Duration WallDuration;
struct Time { double s = 0; static Time now() { return Time(); } };
struct Rate { Rate(double) {} bool sleep() { return true; } };
struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
typedef TimerEvent WallTimerEvent;
struct Timer {
  long i = -1;
  void stop() { if (i >= 0) verif::world().timers[i].active = false; }
  void start() { if (i >= 0) verif::world().timers[i].active = true; }
  explicit operator bool() const { return i >= 0; }
};
struct Subscriber { void shutdown() {} explicit operator bool() const { return true; } };
struct Publisher {
  std::string topic;
  template <class M> void publish(const M& m) const { verif::world().pubs.back().emplace_back(topic, m.verifText()); }
  template <class M> void publish(const std::shared_ptr<M>& m) const { publish(*m); }
  std::string getTopic() const { return topic; }
  explicit operator bool() const { return !topic.empty(); }
};
inline bool ok() { return verif::world().at < verif::world().tokens.size(); }
inline void spin() { while (verif::world().step()) {} }
inline void spinOnce() { verif::world().step(); }
inline void shutdown() { verif::world().shut = true; }
inline void requestShutdown() { shutdown(); }
inline bool isShuttingDown() { return verif::world().shut; }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
struct NodeHandle {
  NodeHandle(const std::string& = "") {}
  template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    Publisher p; p.topic = verif::norm(topic); verif::world().advertised.push_back(p.topic); return p;
  }
  template <class M> Subscriber add(const std::string& topic, std::function<void(const std::shared_ptr<M const>&)> f) {
    verif::world().subs.push_back({verif::norm(topic), [f](const std::string& s) {
      auto m = std::make_shared<M>(); m->verifSet(s); f(std::shared_ptr<M const>(m)); }});
    return Subscriber();
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(const std::shared_ptr<M const>&), T* o) {
    return add<M>(t, [=](const std::shared_ptr<M const>& m) { (o->*f)(m); });
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(std::shared_ptr<M const>), T* o) {
    return add<M>(t, [=](const std::shared_ptr<M const>& m) { (o->*f)(m); });
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(const M&), T* o) {
    return add<M>(t, [=](const std::shared_ptr<M const>& m) { (o->*f)(*m); });
  }
  template <class M> Subscriber subscribe(const std::string& t, uint32_t, void (*f)(const std::shared_ptr<M const>&)) {
    return add<M>(t, f);
  }
  template <class M, class F> Subscriber subscribe(const std::string& t, uint32_t, F f) { return add<M>(t, f); }
  Timer mk(double s, std::function<void()> f, bool oneshot, bool autostart) {
    verif::world().timers.push_back({s, oneshot, autostart, f});
    Timer t; t.i = (long)verif::world().timers.size() - 1; return t;
  }
  template <class T> Timer createTimer(Duration d, void (T::*f)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const {
    return const_cast<NodeHandle*>(this)->mk(d.s, [=] { (o->*f)(TimerEvent()); }, oneshot, autostart);
  }
  template <class T> Timer createWallTimer(WallDuration d, void (T::*f)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const {
    return createTimer(d, f, o, oneshot, autostart);
  }
  template <class F> Timer createTimer(Duration d, F f, bool oneshot = false, bool autostart = true) const {
    return const_cast<NodeHandle*>(this)->mk(d.s, [=] { f(TimerEvent()); }, oneshot, autostart);
  }
};
}  // namespace ros

#define VERIF_LOG_(x) do { verif::world().log << x << "\n"; } while (0)
#define ROS_DEBUG_STREAM(x) VERIF_LOG_(x)
#define ROS_INFO_STREAM(x) VERIF_LOG_(x)
#define ROS_WARN_STREAM(x) VERIF_LOG_(x)
#define ROS_ERROR_STREAM(x) VERIF_LOG_(x)
#define ROS_FATAL_STREAM(x) VERIF_LOG_(x)
#define VERIF_LOGF_(...) do { char b_[4096]; snprintf(b_, sizeof b_, __VA_ARGS__); VERIF_LOG_(b_); } while (0)
#define ROS_DEBUG(...) VERIF_LOGF_(__VA_ARGS__)
#define ROS_INFO(...) VERIF_LOGF_(__VA_ARGS__)
#define ROS_WARN(...) VERIF_LOGF_(__VA_ARGS__)
#define ROS_ERROR(...) VERIF_LOGF_(__VA_ARGS__)
#define ROS_FATAL(...) VERIF_LOGF_(__VA_ARGS__)

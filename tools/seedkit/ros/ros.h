// A tiny stand-in for roscpp: ros::spin() delivers the events given on standard input, one per line:
//   delay | timeout | ack | out TOPIC TEXT | alone (all timers of an hour, as they become due)
#pragma once
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace demo {
struct World {
  std::map<std::string, std::function<void(const std::string&)>> subs;
  std::vector<std::pair<double, std::function<void()>>> timers;
};
inline World& world() { static World w; return w; }
}
namespace ros {
struct Duration { double s; Duration(double s) : s(s) {} };
struct TimerEvent {};
struct Timer {};
struct Subscriber {};
inline void init(int, char**, const char*) {}
inline void shutdown() { std::cerr << "SHUTDOWN" << std::endl; }
struct Publisher {
  std::string topic;
  template <class M> void publish(const M& m) { std::cout << "SENT " << topic << " " << m.data << std::endl; }
};
struct NodeHandle {
  template <class M> Publisher advertise(const std::string& t, int) { Publisher p; p.topic = t; return p; }
  template <class T, class M> Subscriber subscribe(const std::string& t, int, void (T::*f)(const std::shared_ptr<const M>&), T* o) {
    demo::world().subs[t] = [=](const std::string& s) {
      auto m = std::make_shared<M>(); m->data = M::parse(s); (o->*f)(std::shared_ptr<const M>(m)); };
    return Subscriber();
  }
  template <class T> Timer createTimer(Duration d, void (T::*f)(const TimerEvent&), T* o) {
    demo::world().timers.emplace_back(d.s, [=] { (o->*f)(TimerEvent()); });
    return Timer();
  }
};
inline void spin() {
  auto& w = demo::world();
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string what, topic, text;
    in >> what;
    if (what == "out") { in >> topic; std::getline(in >> std::ws, text); }
    if (what == "ack") topic = "input_accepted";
    if (what == "alone") {
      std::vector<double> due;
      for (auto& t : w.timers) due.push_back(t.first);
      for (;;) {
        size_t b = due.size();
        for (size_t i = 0; i < due.size(); i++) if (due[i] <= 3600 && (b == due.size() || due[i] < due[b])) b = i;
        if (b == due.size()) break;
        due[b] += w.timers[b].first;
        w.timers[b].second();
      }
    }
    else if (what == "delay" && w.timers.size() > 1) w.timers[w.timers[0].first < w.timers[1].first ? 0 : 1].second();
    else if (what == "timeout" && !w.timers.empty()) w.timers[w.timers.size() > 1 && w.timers[0].first < w.timers[1].first ? 1 : 0].second();
    else if (w.subs.count(topic)) w.subs[topic](text);
  }
}
}
#define ROS_INFO_STREAM(x) std::cerr << x
#define ROS_ERROR_STREAM(x) std::cerr << x
#define ROS_WARN_STREAM(x) std::cerr << x
#define ROS_DEBUG_STREAM(x) std::cerr << x

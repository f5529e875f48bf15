// A message type only the test configurations know.
#pragma once
#include "verif_mock.h"
namespace verif_msgs {
struct Num {
  typedef std::shared_ptr<Num> Ptr;
  typedef std::shared_ptr<Num const> ConstPtr;
  std::string payload;
  void verifSet(const std::string& s) { payload = s; }
  std::string verifText() const { return payload; }
};
}

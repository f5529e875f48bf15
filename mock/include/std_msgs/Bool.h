#pragma once
#include "verif_mock.h"
namespace std_msgs {
struct Bool {
  typedef std::shared_ptr<Bool> Ptr;
  typedef std::shared_ptr<Bool const> ConstPtr;
  uint8_t data = 0;
  // An acknowledgement is any message on the topic, whatever it says.
  void verifSet(const std::string& s) { data = s != "0"; }
  std::string verifText() const { return data ? "true" : "false"; }
};
}

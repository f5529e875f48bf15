#pragma once
#include "verif_mock.h"
namespace std_msgs {
struct String {
  typedef std::shared_ptr<String> Ptr;
  typedef std::shared_ptr<String const> ConstPtr;
  std::string data;
  void verifSet(const std::string& s) { data = s; }
  std::string verifText() const { return data; }
};
}

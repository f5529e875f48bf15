#pragma once
#include <memory>
#include <string>
namespace std_msgs { struct Int32 { long data; typedef std::shared_ptr<const Int32> ConstPtr;
  static long parse(const std::string& s) { return std::stol(s); } }; }

#pragma once
#include <memory>
#include <string>
namespace std_msgs { struct Bool { bool data; typedef std::shared_ptr<const Bool> ConstPtr;
  static bool parse(const std::string&) { return true; } }; }

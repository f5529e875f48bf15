#pragma once
#include <memory>
#include <string>
namespace std_msgs { struct String { std::string data; typedef std::shared_ptr<const String> ConstPtr;
  static std::string parse(const std::string& s) { return s; } }; }

// The world of a single built node: events are read from the file named by VERIF_TOKENS ("kind\ttopic\ttext" lines),
// and what was sent goes to the file named by VERIF_SENT.
#include "verif_mock.h"
#include <fstream>
namespace verif {
struct Node : World {
  Node() {
    std::vector<Token> ts;
    if (const char* p = getenv("VERIF_TOKENS")) {
      std::ifstream in(p);
      std::string l;
      while (std::getline(in, l)) {
        Token t;
        t.kind = l[0];
        auto a = l.find('\t'), b = l.find('\t', a + 1);
        if (a != std::string::npos && b != std::string::npos) { t.topic = l.substr(a + 1, b - a - 1); t.text = l.substr(b + 1); }
        ts.push_back(t);
      }
    }
    reset(ts);
  }
  ~Node() {
    if (const char* p = getenv("VERIF_SENT")) {
      std::ofstream out(p);
      for (auto& step : pubs) for (auto& m : step) out << m.first << '\t' << m.second << '\n';
      out << "end\n";
    }
  }
};
World& world() { static Node n; return n; }
}  // namespace verif

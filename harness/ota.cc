// Imports JSON descriptions with the real parser and records the outcome.
#include "vt.hh"
#include "ota_json_parser.hh"

// ota OUT JOBS CPU DIR COUNT CHUNK: reads DIR/0.json ..; CHUNK descriptions per process
int main(int argc, char **argv) {
  vt::quiet();
  std::vector<vt::Case> cases;
  const std::string dir = argv[4];
  const int n = std::atoi(argv[5]), chunk = std::atoi(argv[6]);
  for (int a = 0; a < n; a += chunk) {
    cases.push_back({"import-" + std::to_string(a), std::atoi(argv[3]), [=](std::ostream &o) {
      for (int i = a; i < std::min(n, a + chunk); ++i) {
        o << "{\"id\":\"ota-" << i << "\",";
        std::unique_ptr<learnta::OtaJsonParser> p;
        std::string why;
        try {
          p = std::make_unique<learnta::OtaJsonParser>(dir + "/" + std::to_string(i) + ".json");
        } catch (const std::exception &e) {
          why = e.what();
        }
        if (p) {
          o << "\"res\":\"ok\",\"aut\":" << vt::taJson(p->getTarget()) << ",\"alpha\":"
            << vt::arr(p->getAlphabet(), [](char c) { return vt::act(c); }) << "}\n";
        } else {
          o << "\"res\":\"refused\",\"why\":" << vt::quote(why) << "}\n";
        }
      }
    }});
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}

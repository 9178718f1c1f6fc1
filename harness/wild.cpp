// Replays wildcard() and findWildcardNames() on small random names that collide: shared prefixes, dashes, empty names.
#include "h.h"
#include "Configuration/ProgramOptionsHelper.h"

using Helper = Euclid::Configuration::ProgramOptionsHelper;

static std::string text(size_t max) {
  static const char* letters = "aA-b";
  std::string        r;
  for (size_t n = H::below(max + 1); n > 0; --n) {
    r += letters[H::below(4)];
  }
  return r;
}

int main(int c, char** v) {
  return H::run(c, v, [](const std::string&) {
    for (long k = H::scale(20000, 400000); k > 0; --k) {
      std::vector<std::string>                                     names;
      std::map<std::string, boost::program_options::variable_value> options;
      std::string                                                  d = "options";
      for (size_t n = H::below(4); n > 0; --n) {
        names.push_back(text(2));
        d += " '" + names.back() + "'";
      }
      d += " entries";
      for (size_t n = H::below(6); n > 0; --n) {
        std::string key = text(2), inst = text(3);
        if (!names.empty() && H::below(3)) {
          key = names[H::below(names.size())];
        }
        std::string e = H::below(3) ? Helper::wildcard(key, inst) : key + inst;
        options.emplace(e, boost::program_options::variable_value{});
        d += " '" + e + "'";
      }
      H::input(d, !names.empty() && !options.empty());
      std::set<std::string> want;
      for (auto& o : names) {
        for (auto& p : options) {
          if (p.first == o) {
            want.insert("");
          } else if (p.first.size() > o.size() && p.first.compare(0, o.size(), o) == 0 && p.first[o.size()] == '-') {
            want.insert(p.first.substr(o.size() + 1));
          }
        }
      }
      std::set<std::string> got;
      bool                  threw = false;
      try {
        got = Helper::findWildcardNames(names, options);
      } catch (const std::exception&) {
        threw = true;
      }
      H::check(!threw, "findWildcardNames throws nothing");
      H::check(got == want, "findWildcardNames gives exactly the instances");
      std::string a = text(3), b = text(3);
      H::check(Helper::wildcard(a, b) == a + "-" + b, "wildcard is name-instance");
      H::check(Helper::wildcard(a) == a + "-*", "wildcard of a name alone");
    }
  });
}

// Runs managers of up to six configurations with random dependencies, declared and registered, circles included, in random orders of registration.
#include "h.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include <ElementsKernel/Exception.h>

using namespace Euclid::Configuration;

static const int                        N = 6;
static bool                             declares[N][N], fails[N];
static int                              made[N], gone[N];
static std::vector<std::pair<int, int>> phases;  // (phase, configuration)

template <int I>
struct X : public Configuration {
  long id;
  template <int J>
  void dep() {
    if (declares[I][J]) {
      declareDependency<X<J>>();
    }
  }
  explicit X(long m) : Configuration(m), id(m) {
    ++made[I];
    dep<0>(), dep<1>(), dep<2>(), dep<3>(), dep<4>(), dep<5>();
    if (fails[I]) {
      ++gone[I];
      throw std::runtime_error("construction");
    }
  }
  std::map<std::string, OptionDescriptionList> getProgramOptions() override {
    return {{I % 2 ? "odd" : "even", {{("option-" + std::to_string(I)).c_str(), boost::program_options::value<int>(), "text"}}}};
  }
  void preInitialize(const UserValues&) override { phases.emplace_back(1, I); }
  void initialize(const UserValues&) override { phases.emplace_back(2, I); }
  void postInitialize(const UserValues&) override { phases.emplace_back(3, I); }
};

template <int I>
static bool ours(ConfigManager& m, long id) {
  X<I>& x = m.getConfiguration<X<I>>();
  return x.id == id && typeid(x) == typeid(X<I>) && &x == &m.getConfiguration<X<I>>();
}
template <int I, int J>
static void edge(ConfigManager& m) {
  m.registerDependency<X<I>, X<J>>();
}
#define ROW(i) {edge<i, 0>, edge<i, 1>, edge<i, 2>, edge<i, 3>, edge<i, 4>, edge<i, 5>}
static void (*edges[N][N])(ConfigManager&) = {ROW(0), ROW(1), ROW(2), ROW(3), ROW(4), ROW(5)};
template <int I>
static void add(ConfigManager& m) {
  m.registerConfiguration<X<I>>();
}
static void (*adds[N])(ConfigManager&)       = {add<0>, add<1>, add<2>, add<3>, add<4>, add<5>};
static bool (*gets[N])(ConfigManager&, long) = {ours<0>, ours<1>, ours<2>, ours<3>, ours<4>, ours<5>};

static long next_id = 1000;

static void one() {
  long           id = ++next_id;
  ConfigManager& m  = ConfigManager::getInstance(id);
  bool           registered[N] = {}, extra[N][N] = {};
  std::string    d;
  size_t         density = 3 + H::below(12);
  for (int i = 0; i < N; ++i) {
    made[i] = gone[i] = 0;
    fails[i] = false;
    for (int j = 0; j < N; ++j) {
      // mostly without circles, now and then any
      bool down      = j < i || H::below(40) == 0;
      declares[i][j] = down && H::below(density) == 0;
      if (declares[i][j]) {
        d += " " + std::to_string(i) + "->" + std::to_string(j);
      }
    }
  }
  int failing = -1;
  if (H::below(8) == 0) {
    failing = H::below(N);
    d += " fails:" + std::to_string(failing);
  }
  phases.clear();
  std::vector<std::pair<int, int>> calls;  // registrations and dependencies, in a random order
  for (size_t n = 1 + H::below(6); n > 0; --n) {
    calls.emplace_back(-1, H::below(N));
  }
  bool noise = H::below(3) == 0;
  for (size_t n = H::below(8); n > 0; --n) {
    int i = H::below(N), j = H::below(N);
    if (j < i || noise) {
      calls.emplace_back(i, j);
    }
  }
  for (size_t i = calls.size(); i > 1; --i) {
    std::swap(calls[i - 1], calls[H::below(i)]);
  }
  for (auto& c : calls) {
    d += c.first < 0 ? " register:" + std::to_string(c.second) : " extra:" + std::to_string(c.first) + "->" + std::to_string(c.second);
  }
  H::input(d, calls.size() > 2);
  for (auto& c : calls) {
    if (c.first >= 0) {
      edges[c.first][c.second](m);
      extra[c.first][c.second] = true;
      continue;
    }
    if (c.second == failing) {
      // a constructor which throws leaves nothing of it behind; later it succeeds
      fails[failing] = true;
      if (!registered[failing]) {
        bool threw = false;
        try {
          adds[failing](m);
        } catch (const std::runtime_error&) {
          threw = true;
        }
        H::check(threw, "the exception of a constructor comes out of registerConfiguration");
      }
      fails[failing] = false;
      for (int i = 0; i < N; ++i) {
        // what the constructor registered before it threw stays
        registered[i] = made[i] > gone[i];
      }
    }
    adds[c.second](m);
    for (int i = 0; i < N; ++i) {
      registered[i] = made[i] > gone[i];
    }
    H::check(registered[c.second], "a registered configuration is made");
  }
  for (int i = 0; i < N; ++i) {
    H::check(made[i] - gone[i] <= 1, "a configuration is made once");
    for (int j = 0; j < N; ++j) {
      H::check(!(registered[i] && declares[i][j]) || registered[j], "declared dependencies are registered");
    }
  }
  bool reach[N][N];
  for (int i = 0; i < N; ++i) {
    for (int j = 0; j < N; ++j) {
      reach[i][j] = registered[i] && registered[j] && (declares[i][j] || extra[i][j]);
    }
  }
  for (int k = 0; k < N; ++k) {
    for (int i = 0; i < N; ++i) {
      for (int j = 0; j < N; ++j) {
        reach[i][j] = reach[i][j] || (reach[i][k] && reach[k][j]);
      }
    }
  }
  bool circle = false;
  for (int i = 0; i < N; ++i) {
    circle = circle || reach[i][i];
  }
  int some = H::below(N);
  H::throws<Elements::Exception>([&] { gets[some](m, id); }, true, "getConfiguration before the registration is closed");
  bool refused = false;
  try {
    auto options = m.closeRegistration();
    size_t n     = 0;
    for (int i = 0; i < N; ++i) {
      n += registered[i];
      H::check((options.find_nothrow("option-" + std::to_string(i), false) != nullptr) == registered[i], "the options are those of the registered configurations");
    }
    H::check(options.options().size() == n, "every option once");
  } catch (const Elements::Exception&) {
    refused = true;
  }
  H::check(refused == circle, "closeRegistration refuses exactly circular dependencies");
  H::throws<Elements::Exception>([&] { adds[some](m); }, true, "registerConfiguration after closing");
  H::throws<Elements::Exception>([&] { edges[some][0](m); }, true, "registerDependency after closing");
  H::throws<Elements::Exception>([&] { gets[some](m, id); }, true, "getConfiguration before initialize");
  H::check(phases.empty(), "no phase runs before initialize");
  if (circle || refused) {
    return;
  }
  m.initialize({});
  int at[4][N] = {}, count[4][N] = {}, first[4] = {}, last[4] = {};
  for (size_t k = 0; k < phases.size(); ++k) {
    int p         = phases[k].first;
    last[p]       = k + 1;
    first[p]      = first[p] ? first[p] : k + 1;
    at[p][phases[k].second] = k + 1;
    count[p][phases[k].second]++;
  }
  H::check(last[1] <= first[2] && last[2] <= first[3], "each phase begins when the one before is over");
  for (int i = 0; i < N; ++i) {
    for (int p = 1; p < 4; ++p) {
      H::check(count[p][i] == (registered[i] ? 1 : 0), "every phase runs once for each registered configuration");
    }
    for (int j = 0; j < N; ++j) {
      H::check(!reach[i][j] || at[2][j] < at[2][i], "a configuration is initialized after its dependencies");
    }
    if (registered[i]) {
      H::check(gets[i](m, id), "getConfiguration gives the configuration of its type");
    } else {
      H::throws<Elements::Exception>([&] { gets[i](m, id); }, true, "getConfiguration of an unregistered type");
    }
  }
}

int main(int c, char** v) {
  return H::run(c, v, [](const std::string&) {
    for (long k = H::scale(4000, 60000); k > 0; --k) {
      one();
    }
  });
}

// Instantiates the GridContainer templates for the extractor with three axes and a cell manager whose iterator is an index; the
// manager is the caller's side of the template and contains no logic of the repository.
#include <memory>
#include <string>
#include <functional>
#include "GridContainer/GridContainer.h"

namespace cppvc_driver {
struct Cells {
  typedef double data_type;
  struct iterator {
    Cells*      m_cells;
    std::size_t m_pos;
    iterator&   operator++() { ++m_pos; return *this; }
    iterator&   operator+=(std::size_t n) { m_pos += n; return *this; }
    double&     operator*() const { return m_cells->m_values[m_pos]; }
    std::size_t operator-(const iterator& o) const { return m_pos - o.m_pos; }
    bool        operator==(const iterator& o) const { return m_pos == o.m_pos; }
    bool        operator!=(const iterator& o) const { return m_pos != o.m_pos; }
    bool        operator>(const iterator& o) const { return m_pos > o.m_pos; }
  };
  std::vector<double> m_values;
  explicit Cells(std::size_t n) : m_values(n) {}
  std::size_t size() const { return m_values.size(); }
  iterator begin() { iterator i; i.m_cells = this; i.m_pos = 0; return i; }
  iterator end() { iterator i; i.m_cells = this; i.m_pos = m_values.size(); return i; }
  const double& operator[](std::size_t i) const { return m_values[i]; }
};
using namespace Euclid::GridContainer;
using A = GridAxis<double>;
using G = GridContainer<Cells, double, double, double>;
void instantiate(A& a, std::size_t i, double v, G& g, const G& c) {
  G x(a, a, a);
  G y(std::make_tuple(a, a, a));
  g.getAxis<0>(); g.getAxis<1>(); g.getAxis<2>(); g.getAxesTuple(); g.axisNumber(); g.size();
  g(i, i, i); c(i, i, i); g.at(i, i, i); c.at(i, i, i);
  c.infimum(v, v, v);
  g.fixAxisByIndex<0>(i); g.fixAxisByIndex<1>(i); g.fixAxisByIndex<2>(i);
  g.fixAxisByValue<0>(v); g.fixAxisByValue<1>(v); g.fixAxisByValue<2>(v);
  c.fixAxisByIndex<1>(i); c.fixAxisByValue<1>(v);
  auto it = g.begin(); auto e = g.end(); auto cb = g.cbegin(); auto ce = c.end(); auto cb2 = c.begin(); g.cend();
  ++it; *it; it == e; it != e; it = e;
  it.axisIndex<0>(); it.axisIndex<1>(); it.axisIndex<2>();
  it.axisValue<0>(); it.axisValue<1>(); it.axisValue<2>();
  it.fixAxisByIndex<0>(i); it.fixAxisByIndex<1>(i); it.fixAxisByIndex<2>(i);
  it.fixAxisByValue<0>(v); it.fixAxisByValue<1>(v); it.fixAxisByValue<2>(v);
  it.fixAllAxes(e);
  a.size(); a.name(); a[i]; a.begin(); a.end(); a == a; a != a; a.infimum(v);
}
}  // namespace cppvc_driver

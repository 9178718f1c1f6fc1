#include "h.h"
#include <memory>
#include "ElementsKernel/PhysConstants.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
using namespace Euclid::PhysicsUtils;
static long double E2(long double om, long double ol, long double z) { long double k = 1 - om - ol, a = 1 + z; return om * a * a * a + k * a * a + ol; }
static long double integral(double om, double ol, double z) {  // composite Gauss-Legendre, 5 points
  static const long double x[5] = {0, 0.538469310105683091036L, -0.538469310105683091036L, 0.906179845938663992798L, -0.906179845938663992798L}, w[5] = {0.568888888888888888889L, 0.478628670499366468041L, 0.478628670499366468041L, 0.236926885056189087514L, 0.236926885056189087514L};
  const int n = 400; long double h = (long double)z / n, s = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < 5; ++j) s += w[j] / std::sqrt(E2(om, ol, (i + 0.5L + x[j] / 2) * h));
  return s * h / 2;
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) {
    CosmologicalDistances D;
    CosmologicalParameters def;
    H::input("default cosmology"); H::eq(def.getOmegaM(), 0.3089, "default Omega_m"); H::eq(def.getOmegaLambda(), 0.6911, "default Omega_Lambda"); H::eq(def.getHubbleConstant(), 67.74, "default H0");
    auto rp = H::rpool();
    for (long k = 0; k < H::scale(700, 15000); ++k) {
      double om = std::round((0.1 + H::unit() * 1.4) * 64) / 64, ol, h0 = 50 + H::below(400) / 8.0, z;
      switch (H::below(4)) { case 0: ol = 1 - om; break; case 1: ol = H::unit(); break; case 2: ol = 0; break; default: ol = 1 - om + (H::below(2) ? 1e-9 : -1e-9) * (1 + H::below(1000)); }
      switch (H::below(8)) { case 0: z = 0; break; case 1: z = 1e-6 * (1 + H::below(1000)); break; case 2: z = H::below(12); break; case 3: z = rp.empty() ? 0.1 : std::fabs(rp[H::below(rp.size())]); if (z > 20) z = 0.5; break; default: z = H::unit() * 7; }
      bool bad = false; for (int i = 0; i <= 200; ++i) if (E2(om, ol, z * i / 200) < 0.05) bad = true;
      if (bad) { om = 0.3; ol = 0.5; }
      CosmologicalParameters p{om, ol, h0};
      std::ostringstream o; o.precision(17); o << "Omega_m=" << om << " Omega_Lambda=" << ol << " H0=" << h0 << " z=" << z; H::input(o.str(), z > 0);
      H::eq(p.getOmegaM(), om, "Omega_m"); H::eq(p.getOmegaLambda(), ol, "Omega_Lambda"); H::eq(p.getHubbleConstant(), h0, "H0"); H::near(p.getOmegaK(), 1 - om - ol, "Omega_k", 1e-12, 1e-15);
      double dh = D.hubbleDistance(p), ez = D.hubbleParameter(z, p), dc = D.comovingDistance(z, p), dm = D.transverseComovingDistance(z, p), dl = D.luminousDistance(z, p);
      H::near(dh, Elements::Units::c_light * 1e3 / h0, "Hubble distance", 1e-12);
      H::near(ez, std::sqrt((double)E2(om, ol, z)), "E(z)", 1e-12); H::near(D.hubbleParameter(0, p), 1, "E(0)", 1e-12);
      H::near(dc, dh * (double)integral(om, ol, z), "comoving distance", 2e-6, 1e-9);
      double okk = p.getOmegaK(), exp = dc;
      if (okk != 0) { double r = dh / std::sqrt(std::fabs(okk)); exp = okk > 0 ? r * std::sinh(dc / r) : r * std::sin(dc / r); }
      H::near(dm, exp, "transverse comoving distance", 1e-10, 1e-12);
      H::near(dl, z == 0 ? 10 : (1 + z) * dm, "luminosity distance", 1e-10); 
      H::near(D.distanceModulus(z, p), 5 * std::log10(dl / 10), "distance modulus", 1e-10, 1e-10);
      H::near(D.dimensionlessComovingVolumeElement(z, p), dm * dm / (ez * dh * dh), "volume element", 1e-10, 1e-300);
      H::near(D.comovingDistance(z, p, 1e-4), dc, "comoving distance at a coarser precision", 1e-3, 1e-9);
    }
  });
}

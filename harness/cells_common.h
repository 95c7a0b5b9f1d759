#ifndef VF_CELLS_COMMON_H
#define VF_CELLS_COMMON_H
#include "maps_common.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"
namespace vf {
inline const char *const kCells[] = {"last", "affine", "mean", "tbm_consistent",
                                     "tbm_even", "gmapping", "credibilist"};
constexpr int kCellsN = 7;
inline std::shared_ptr<GridCell> make_cell(int k, double base = 0.5) {
  switch (k) {
  case 0: return std::make_shared<GridCell>(Occupancy{base, 1});
  case 1: return std::make_shared<AffineQualityMergeCell>();
  case 2: return std::make_shared<MeanProbabilityCell>();
  case 3: return std::make_shared<TbmOccConsistentCell>();
  case 4: return std::make_shared<TbmUnknownEvenOccCell>();
  case 5: return std::make_shared<GmappingBaseCell>();
  default: return std::make_shared<CredibilistCell>();
  }
}
// tame observations keep away from 0/0 corners
inline AreaOccupancyObservation tame_obs(Rng &rng) {
  return mk_obs(rng.uni(0.05, 0.95), rng.uni(0.2, 0.95), rng.uni(0.2, 0.95),
                rng.chance(0.5), Point2D{rng.uni(-5, 5), rng.uni(-5, 5)});
}
inline bool same_cell(const GridCell &a, const GridCell &b,
                      const AreaOccupancyObservation &probe, std::string *why,
                      double eps = 1e-9) {
  std::ostringstream os; os << std::setprecision(17);
  bool ok = true;
  auto cmp = [&](const char *n, double x, double y) {
    if (!near(x, y, eps)) { ok = false; os << n << " " << x << " vs " << y << "; "; }
  };
  cmp("occ", a.occupancy().prob_occ, b.occupancy().prob_occ);
  cmp("qual", a.occupancy().estimation_quality, b.occupancy().estimation_quality);
  cmp("unknown", a.is_unknown(), b.is_unknown());
  cmp("discrepancy", a.discrepancy(probe), b.discrepancy(probe));
  if (why) { *why = os.str(); }
  return ok;
}
} // namespace vf
#endif

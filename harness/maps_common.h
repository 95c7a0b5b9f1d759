#ifndef VF_MAPS_COMMON_H
#define VF_MAPS_COMMON_H
#include "common.h"
#include "core/maps/grid_cell.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"

namespace vf {
using C = DiscretePoint2D;
struct CLess {
  bool operator()(const C &a, const C &b) const {
    return a.x != b.x ? a.x < b.x : a.y < b.y;
  }
};

inline AreaOccupancyObservation mk_obs(double p, double est_q = 1.0,
                                       double q = 1.0, bool occ = true,
                                       Point2D obst = Point2D{0, 0}) {
  return AreaOccupancyObservation{occ, Occupancy{p, est_q}, obst, q};
}

// A cell whose value is a digest of its whole update history: two cells with
// different histories read differently.
class HistCell : public GridCell {
public:
  explicit HistCell(double init = 0.5) : GridCell{Occupancy{init, 1}} {}
  std::unique_ptr<GridCell> clone() const override {
    return std::make_unique<HistCell>(*this);
  }
  void operator+=(const AreaOccupancyObservation &aoo) override {
    Hash h;
    h.add(_occupancy.prob_occ).add(aoo.occupancy.prob_occ).add(n);
    n += 1;
    _occupancy.prob_occ = (h.h >> 11) * (1.0 / 9007199254740992.0);
    on_update();
  }
  uint64_t n = 0;
};

inline const char *const kMapKinds[] = {"plain", "lazy", "uplain", "ulazy"};

inline std::unique_ptr<GridMap> make_map(int kind,
                                         std::shared_ptr<GridCell> proto,
                                         GridMapParams p) {
  switch (kind) {
  case 0: return std::make_unique<PlainGridMap>(proto, p);
  case 1: return std::make_unique<LazyTiledGridMap>(proto, p);
  case 2: return std::make_unique<UnboundedPlainGridMap>(proto, p);
  default: return std::make_unique<UnboundedLazyTiledGridMap>(proto, p);
  }
}
inline bool is_unbounded(int kind) { return 2 <= kind; }

struct Geo {
  int w, h; C o; double s;
  explicit Geo(const GridMap &m)
    : w{m.width()}, h{m.height()}, o{m.origin()}, s{m.scale()} {}
  bool operator==(const Geo &g) const {
    return w == g.w && h == g.h && o == g.o && s == g.s;
  }
  bool covers(const C &c) const {
    long x = (long)c.x + o.x, y = (long)c.y + o.y;
    return 0 <= x && x < w && 0 <= y && y < h;
  }
  // covered coordinate range includes g's
  bool includes(const Geo &g) const {
    return -g.o.x >= -o.x && -g.o.y >= -o.y &&
           g.w - g.o.x <= w - o.x && g.h - g.o.y <= h - o.y;
  }
  std::string str() const {
    std::ostringstream os;
    os << w << "x" << h << "@(" << o.x << "," << o.y << ") s=" << s;
    return os.str();
  }
};

inline std::string cs(const C &c) {
  return "(" + std::to_string(c.x) + "," + std::to_string(c.y) + ")";
}
} // namespace vf
#endif

//@ level: model_checking
//@ technique: explicit-state model checking of the real triangulation: breadth first search over every history of point and constraint insertions from small sets of points, the Delaunay criterion decided for every unconstrained edge of every reached mesh with exact 128 bit arithmetic
//@ note: The same histories as C34: all cocircular and collinear cases of the grids, points of the whole coordinate range, constraints that cross, overlap and repeat, capacities so small that constraints stay unfinished, and whole families of large point sets.
//@ cxx: -O2
//@ config plain:
//@ config asan: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -DSMALL
//@ repo: os.cpp os_posix.cpp to_text.cpp
//@ bounds: as C34, without the capacities
#include "cdtops.h"
using namespace mc;
template<class T> static void check(typename T::context& c) { cdtops::delaunay(c.after, c.fresh ? "after reset" : T::text(c.last)); }
template<class M> static void check_large(M const&, cdtops::snap const& s, char const* w) { cdtops::delaunay(s, w); }
#include "cdtsets.inc"
#include "cdtwide.inc"

// Stand-in for the lanelet2 forward declarations.
#ifndef VERIF_LANELET2_FORWARD_H_
#define VERIF_LANELET2_FORWARD_H_
#include <cstdint>
#include <memory>
#include <vector>
namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
class LaneletMap;
using LaneletMapPtr = std::shared_ptr<LaneletMap>;
using LaneletMapConstPtr = std::shared_ptr<const LaneletMap>;
class Lanelet;
class ConstLanelet;
}  // namespace lanelet
#endif

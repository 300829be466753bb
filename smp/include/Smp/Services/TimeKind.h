// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/TimeKind.h>.
#ifndef STANDIN_SMP_SERVICES_TIMEKIND_H
#define STANDIN_SMP_SERVICES_TIMEKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp::Services {
enum class TimeKind : ::Smp::Int32 {
  TK_SimulationTime = 0,
  TK_MissionTime = 1,
  TK_EpochTime = 2,
  TK_ZuluTime = 3
};
std::ostream &operator<<(std::ostream &os, const TimeKind &obj);
}
#endif

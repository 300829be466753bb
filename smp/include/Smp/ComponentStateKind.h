// Stand-in for the ECSS-E-ST-40-07C header <Smp/ComponentStateKind.h>.
#ifndef STANDIN_SMP_COMPONENTSTATEKIND_H
#define STANDIN_SMP_COMPONENTSTATEKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class ComponentStateKind : ::Smp::Int32 {
  CSK_Created = 0,
  CSK_Publishing = 1,
  CSK_Configured = 2,
  CSK_Connected = 3,
  CSK_Disconnected = 4
};
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &obj);
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/AccessKind.h>.
#ifndef STANDIN_SMP_ACCESSKIND_H
#define STANDIN_SMP_ACCESSKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class AccessKind : ::Smp::Int32 {
  AK_ReadWrite = 0,
  AK_ReadOnly = 1,
  AK_WriteOnly = 2
};
std::ostream &operator<<(std::ostream &os, const AccessKind &obj);
}
#endif

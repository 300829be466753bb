// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/ParameterDirectionKind.h>.
#ifndef STANDIN_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H
#define STANDIN_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp::Publication {
enum class ParameterDirectionKind : ::Smp::Int32 {
  PDK_In = 0,
  PDK_Out = 1,
  PDK_InOut = 2,
  PDK_Return = 3
};
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &obj);
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/LogMessageKind.h>.
#ifndef STANDIN_SMP_SERVICES_LOGMESSAGEKIND_H
#define STANDIN_SMP_SERVICES_LOGMESSAGEKIND_H
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
using LogMessageKind = ::Smp::Int32;
}
#endif

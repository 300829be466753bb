// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/EventId.h>.
#ifndef STANDIN_SMP_SERVICES_EVENTID_H
#define STANDIN_SMP_SERVICES_EVENTID_H
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
using EventId = ::Smp::Int64;
}
#endif

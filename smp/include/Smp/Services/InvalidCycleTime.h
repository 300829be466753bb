// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidCycleTime.h>.
#ifndef STANDIN_SMP_SERVICES_INVALIDCYCLETIME_H
#define STANDIN_SMP_SERVICES_INVALIDCYCLETIME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Services {
class InvalidCycleTime : public virtual ::Smp::Exception {
public:
  ~InvalidCycleTime() noexcept override = default;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventTime.h>.
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTTIME_H
#define STANDIN_SMP_SERVICES_INVALIDEVENTTIME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Services {
class InvalidEventTime : public virtual ::Smp::Exception {
public:
  ~InvalidEventTime() noexcept override = default;
};
}
#endif

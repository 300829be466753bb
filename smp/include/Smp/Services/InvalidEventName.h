// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventName.h>.
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTNAME_H
#define STANDIN_SMP_SERVICES_INVALIDEVENTNAME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Services {
class InvalidEventName : public virtual ::Smp::Exception {
public:
  ~InvalidEventName() noexcept override = default;
};
}
#endif

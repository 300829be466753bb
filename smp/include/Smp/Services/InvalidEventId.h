// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventId.h>.
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTID_H
#define STANDIN_SMP_SERVICES_INVALIDEVENTID_H
#include <Smp/Exception.h>
#include <Smp/Services/EventId.h>
namespace Smp {

}
namespace Smp::Services {
class InvalidEventId : public virtual ::Smp::Exception {
public:
  ~InvalidEventId() noexcept override = default;
  virtual EventId GetInvalidEventId() const noexcept = 0;
};
}
#endif

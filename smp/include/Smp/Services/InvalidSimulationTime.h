// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidSimulationTime.h>.
#ifndef STANDIN_SMP_SERVICES_INVALIDSIMULATIONTIME_H
#define STANDIN_SMP_SERVICES_INVALIDSIMULATIONTIME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Services {
class InvalidSimulationTime : public virtual ::Smp::Exception {
public:
  ~InvalidSimulationTime() noexcept override = default;
  virtual Duration GetCurrentTime() const noexcept = 0;
  virtual Duration GetProvidedTime() const noexcept = 0;
  virtual Duration GetMaximumTime() const noexcept = 0;
};
}
#endif

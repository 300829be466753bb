// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/ITimeKeeper.h>.
#ifndef STANDIN_SMP_SERVICES_ITIMEKEEPER_H
#define STANDIN_SMP_SERVICES_ITIMEKEEPER_H
#include <Smp/IService.h>
namespace Smp {

namespace Services {
class ITimeKeeper : public virtual ::Smp::IService {
public:
  ~ITimeKeeper() noexcept override = default;
  virtual Duration GetSimulationTime() const = 0;
  virtual DateTime GetEpochTime() const = 0;
  virtual DateTime GetMissionStartTime() const = 0;
  virtual Duration GetMissionTime() const = 0;
  virtual DateTime GetZuluTime() const = 0;
  virtual void SetSimulationTime(Duration simulationTime) = 0;
  virtual void SetEpochTime(DateTime epochTime) = 0;
  virtual void SetMissionStartTime(DateTime missionStart) = 0;
  virtual void SetMissionTime(Duration missionTime) = 0;
};
} // namespace Services
} // namespace Smp
#endif

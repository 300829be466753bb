// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidSimulatorState.h>.
#ifndef STANDIN_SMP_INVALIDSIMULATORSTATE_H
#define STANDIN_SMP_INVALIDSIMULATORSTATE_H
#include <Smp/Exception.h>
#include <Smp/SimulatorStateKind.h>
namespace Smp {

}
namespace Smp {
class InvalidSimulatorState : public virtual ::Smp::Exception {
public:
  ~InvalidSimulatorState() noexcept override = default;
  virtual SimulatorStateKind GetInvalidState() const noexcept = 0;
};
}
#endif

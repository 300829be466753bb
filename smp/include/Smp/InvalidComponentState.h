// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidComponentState.h>.
#ifndef STANDIN_SMP_INVALIDCOMPONENTSTATE_H
#define STANDIN_SMP_INVALIDCOMPONENTSTATE_H
#include <Smp/Exception.h>
#include <Smp/ComponentStateKind.h>
namespace Smp {

}
namespace Smp {
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  ~InvalidComponentState() noexcept override = default;
  virtual ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ComponentStateKind GetExpectedState() const noexcept = 0;
};
}
#endif

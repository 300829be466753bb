// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotRemove.h>.
#ifndef STANDIN_SMP_CANNOTREMOVE_H
#define STANDIN_SMP_CANNOTREMOVE_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class CannotRemove : public virtual ::Smp::Exception {
public:
  ~CannotRemove() noexcept override = default;
  virtual String8 GetReferenceName() const noexcept = 0;
  virtual IComponent *GetComponent() const noexcept = 0;
  virtual Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif

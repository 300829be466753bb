// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotDelete.h>.
#ifndef STANDIN_SMP_CANNOTDELETE_H
#define STANDIN_SMP_CANNOTDELETE_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class CannotDelete : public virtual ::Smp::Exception {
public:
  ~CannotDelete() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual IComponent *GetComponent() const noexcept = 0;
  virtual Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif

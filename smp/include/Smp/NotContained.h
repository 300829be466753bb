// Stand-in for the ECSS-E-ST-40-07C header <Smp/NotContained.h>.
#ifndef STANDIN_SMP_NOTCONTAINED_H
#define STANDIN_SMP_NOTCONTAINED_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class NotContained : public virtual ::Smp::Exception {
public:
  ~NotContained() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual IComponent *GetComponent() const noexcept = 0;
};
}
#endif

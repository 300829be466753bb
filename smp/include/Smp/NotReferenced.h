// Stand-in for the ECSS-E-ST-40-07C header <Smp/NotReferenced.h>.
#ifndef STANDIN_SMP_NOTREFERENCED_H
#define STANDIN_SMP_NOTREFERENCED_H
#include <Smp/Exception.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class NotReferenced : public virtual ::Smp::Exception {
public:
  ~NotReferenced() noexcept override = default;
  virtual String8 GetReferenceName() const noexcept = 0;
  virtual IComponent *GetComponent() const noexcept = 0;
};
}
#endif

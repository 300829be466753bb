// Stand-in for the ECSS-E-ST-40-07C header <Smp/IComposite.h>.
#ifndef STANDIN_SMP_ICOMPOSITE_H
#define STANDIN_SMP_ICOMPOSITE_H
#include <Smp/IContainer.h>
namespace Smp {
class IComposite : public virtual ::Smp::IObject {
public:
  ~IComposite() noexcept override = default;
  virtual const ContainerCollection *GetContainers() const = 0;
  virtual IContainer *GetContainer(String8 name) const = 0;
};
}
#endif

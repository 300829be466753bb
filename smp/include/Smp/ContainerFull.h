// Stand-in for the ECSS-E-ST-40-07C header <Smp/ContainerFull.h>.
#ifndef STANDIN_SMP_CONTAINERFULL_H
#define STANDIN_SMP_CONTAINERFULL_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class ContainerFull : public virtual ::Smp::Exception {
public:
  ~ContainerFull() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual Int64 GetContainerSize() const noexcept = 0;
};
}
#endif

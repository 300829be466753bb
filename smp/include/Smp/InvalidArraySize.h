// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArraySize.h>.
#ifndef STANDIN_SMP_INVALIDARRAYSIZE_H
#define STANDIN_SMP_INVALIDARRAYSIZE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidArraySize : public virtual ::Smp::Exception {
public:
  ~InvalidArraySize() noexcept override = default;
  virtual Int64 GetArraySize() const noexcept = 0;
  virtual Int64 GetInvalidSize() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArrayIndex.h>.
#ifndef STANDIN_SMP_INVALIDARRAYINDEX_H
#define STANDIN_SMP_INVALIDARRAYINDEX_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidArrayIndex : public virtual ::Smp::Exception {
public:
  ~InvalidArrayIndex() noexcept override = default;
  virtual Int64 GetInvalidIndex() const noexcept = 0;
  virtual Int64 GetArraySize() const noexcept = 0;
};
}
#endif

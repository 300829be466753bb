// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterIndex.h>.
#ifndef STANDIN_SMP_INVALIDPARAMETERINDEX_H
#define STANDIN_SMP_INVALIDPARAMETERINDEX_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidParameterIndex : public virtual ::Smp::Exception {
public:
  ~InvalidParameterIndex() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual Int32 GetParameterIndex() const noexcept = 0;
  virtual Int32 GetParameterCount() const noexcept = 0;
};
}
#endif

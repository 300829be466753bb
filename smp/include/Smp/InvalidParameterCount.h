// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterCount.h>.
#ifndef STANDIN_SMP_INVALIDPARAMETERCOUNT_H
#define STANDIN_SMP_INVALIDPARAMETERCOUNT_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidParameterCount : public virtual ::Smp::Exception {
public:
  ~InvalidParameterCount() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual Int32 GetOperationParameters() const noexcept = 0;
  virtual Int32 GetRequestParameters() const noexcept = 0;
};
}
#endif

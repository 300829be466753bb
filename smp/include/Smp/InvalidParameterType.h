// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterType.h>.
#ifndef STANDIN_SMP_INVALIDPARAMETERTYPE_H
#define STANDIN_SMP_INVALIDPARAMETERTYPE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidParameterType : public virtual ::Smp::Exception {
public:
  ~InvalidParameterType() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual String8 GetParameterName() const noexcept = 0;
  virtual PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif

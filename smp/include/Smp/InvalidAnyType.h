// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidAnyType.h>.
#ifndef STANDIN_SMP_INVALIDANYTYPE_H
#define STANDIN_SMP_INVALIDANYTYPE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidAnyType : public virtual ::Smp::Exception {
public:
  ~InvalidAnyType() noexcept override = default;
  virtual PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif

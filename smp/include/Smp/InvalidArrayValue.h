// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArrayValue.h>.
#ifndef STANDIN_SMP_INVALIDARRAYVALUE_H
#define STANDIN_SMP_INVALIDARRAYVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {

}
namespace Smp {
class InvalidArrayValue : public virtual ::Smp::Exception {
public:
  ~InvalidArrayValue() noexcept override = default;
  virtual Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual AnySimple GetInvalidValue() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidReturnValue.h>.
#ifndef STANDIN_SMP_INVALIDRETURNVALUE_H
#define STANDIN_SMP_INVALIDRETURNVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {

}
namespace Smp {
class InvalidReturnValue : public virtual ::Smp::Exception {
public:
  ~InvalidReturnValue() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual AnySimple GetValue() const noexcept = 0;
};
}
#endif

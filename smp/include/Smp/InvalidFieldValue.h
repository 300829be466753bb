// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldValue.h>.
#ifndef STANDIN_SMP_INVALIDFIELDVALUE_H
#define STANDIN_SMP_INVALIDFIELDVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {

}
namespace Smp {
class InvalidFieldValue : public virtual ::Smp::Exception {
public:
  ~InvalidFieldValue() noexcept override = default;
  virtual AnySimple GetInvalidFieldValue() const noexcept = 0;
};
}
#endif

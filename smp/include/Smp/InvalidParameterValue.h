// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterValue.h>.
#ifndef STANDIN_SMP_INVALIDPARAMETERVALUE_H
#define STANDIN_SMP_INVALIDPARAMETERVALUE_H
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp {

}
namespace Smp {
class InvalidParameterValue : public virtual ::Smp::Exception {
public:
  ~InvalidParameterValue() noexcept override = default;
  virtual String8 GetParameterName() const noexcept = 0;
  virtual AnySimple GetValue() const noexcept = 0;
};
}
#endif

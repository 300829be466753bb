// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidOperationName.h>.
#ifndef STANDIN_SMP_INVALIDOPERATIONNAME_H
#define STANDIN_SMP_INVALIDOPERATIONNAME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidOperationName : public virtual ::Smp::Exception {
public:
  ~InvalidOperationName() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
};
}
#endif

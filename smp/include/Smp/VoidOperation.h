// Stand-in for the ECSS-E-ST-40-07C header <Smp/VoidOperation.h>.
#ifndef STANDIN_SMP_VOIDOPERATION_H
#define STANDIN_SMP_VOIDOPERATION_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class VoidOperation : public virtual ::Smp::Exception {
public:
  ~VoidOperation() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
};
}
#endif

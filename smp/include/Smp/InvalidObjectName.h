// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidObjectName.h>.
#ifndef STANDIN_SMP_INVALIDOBJECTNAME_H
#define STANDIN_SMP_INVALIDOBJECTNAME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidObjectName : public virtual ::Smp::Exception {
public:
  ~InvalidObjectName() noexcept override = default;
  virtual String8 GetInvalidName() const noexcept = 0;
};
}
#endif

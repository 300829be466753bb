// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidObjectType.h>.
#ifndef STANDIN_SMP_INVALIDOBJECTTYPE_H
#define STANDIN_SMP_INVALIDOBJECTTYPE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidObjectType : public virtual ::Smp::Exception {
public:
  ~InvalidObjectType() noexcept override = default;
  virtual IObject *GetInvalidObject() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldName.h>.
#ifndef STANDIN_SMP_INVALIDFIELDNAME_H
#define STANDIN_SMP_INVALIDFIELDNAME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidFieldName : public virtual ::Smp::Exception {
public:
  ~InvalidFieldName() noexcept override = default;
  virtual String8 GetFieldName() const noexcept = 0;
};
}
#endif

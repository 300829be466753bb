// Stand-in for the ECSS-E-ST-40-07C header <Smp/DuplicateUuid.h>.
#ifndef STANDIN_SMP_DUPLICATEUUID_H
#define STANDIN_SMP_DUPLICATEUUID_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class DuplicateUuid : public virtual ::Smp::Exception {
public:
  ~DuplicateUuid() noexcept override = default;
  virtual String8 GetOldName() const noexcept = 0;
  virtual String8 GetNewName() const noexcept = 0;
};
}
#endif

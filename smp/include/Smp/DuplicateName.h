// Stand-in for the ECSS-E-ST-40-07C header <Smp/DuplicateName.h>.
#ifndef STANDIN_SMP_DUPLICATENAME_H
#define STANDIN_SMP_DUPLICATENAME_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class DuplicateName : public virtual ::Smp::Exception {
public:
  ~DuplicateName() noexcept override = default;
  virtual String8 GetDuplicateName() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/ReferenceFull.h>.
#ifndef STANDIN_SMP_REFERENCEFULL_H
#define STANDIN_SMP_REFERENCEFULL_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class ReferenceFull : public virtual ::Smp::Exception {
public:
  ~ReferenceFull() noexcept override = default;
  virtual String8 GetReferenceName() const noexcept = 0;
  virtual Int64 GetReferenceSize() const noexcept = 0;
};
}
#endif

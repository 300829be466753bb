// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IEnumerationType.h>.
#ifndef STANDIN_SMP_PUBLICATION_IENUMERATIONTYPE_H
#define STANDIN_SMP_PUBLICATION_IENUMERATIONTYPE_H
#include <Smp/Publication/IType.h>
namespace Smp::Publication {
class IEnumerationType : public virtual ::Smp::Publication::IType {
public:
  ~IEnumerationType() noexcept override = default;
  virtual void AddLiteral(String8 name, String8 description, Int32 value) = 0;
};
}
#endif

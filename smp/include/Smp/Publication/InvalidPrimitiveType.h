// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/InvalidPrimitiveType.h>.
#ifndef STANDIN_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H
#define STANDIN_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp::Publication {
class InvalidPrimitiveType : public virtual ::Smp::Exception {
public:
  ~InvalidPrimitiveType() noexcept override = default;
  virtual String8 GetTypeName() const noexcept = 0;
  virtual PrimitiveTypeKind GetType() const noexcept = 0;
};
}
#endif

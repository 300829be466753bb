// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/TypeAlreadyRegistered.h>.
#ifndef STANDIN_SMP_PUBLICATION_TYPEALREADYREGISTERED_H
#define STANDIN_SMP_PUBLICATION_TYPEALREADYREGISTERED_H
#include <Smp/Exception.h>
#include <Smp/Publication/IType.h>
namespace Smp {

}
namespace Smp::Publication {
class TypeAlreadyRegistered : public virtual ::Smp::Exception {
public:
  ~TypeAlreadyRegistered() noexcept override = default;
  virtual String8 GetTypeName() const noexcept = 0;
  virtual const IType *GetType() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/IAggregate.h>.
#ifndef STANDIN_SMP_IAGGREGATE_H
#define STANDIN_SMP_IAGGREGATE_H
#include <Smp/IReference.h>
namespace Smp {
class IAggregate : public virtual ::Smp::IComponent {
public:
  ~IAggregate() noexcept override = default;
  virtual const ReferenceCollection *GetReferences() const = 0;
  virtual IReference *GetReference(String8 name) const = 0;
};
}
#endif

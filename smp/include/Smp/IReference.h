// Stand-in for the ECSS-E-ST-40-07C header <Smp/IReference.h>.
#ifndef STANDIN_SMP_IREFERENCE_H
#define STANDIN_SMP_IREFERENCE_H
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp {
class IReference : public virtual ::Smp::IObject {
public:
  ~IReference() noexcept override = default;
  virtual const ComponentCollection *GetComponents() const = 0;
  virtual IComponent *GetComponent(String8 name) const = 0;
  virtual void AddComponent(IComponent *component) = 0;
  virtual void RemoveComponent(IComponent *component) = 0;
  virtual Int64 GetCount() const = 0;
  virtual Int64 GetUpper() const = 0;
  virtual Int64 GetLower() const = 0;
};
using ReferenceCollection = ICollection<IReference>;
}
#endif

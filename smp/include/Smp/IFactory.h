// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFactory.h>.
#ifndef STANDIN_SMP_IFACTORY_H
#define STANDIN_SMP_IFACTORY_H
#include <Smp/IObject.h>
#include <Smp/Uuid.h>
#include <Smp/ICollection.h>
namespace Smp {
class IComponent;
class IComposite;
class IFactory : public virtual ::Smp::IObject {
public:
  ~IFactory() noexcept override = default;
  virtual Uuid GetUuid() const = 0;
  virtual IComponent *CreateInstance(String8 name, String8 description, IComposite *parent) = 0;
  virtual void DeleteInstance(IComponent *instance) = 0;
  virtual String8 GetTypeName() const = 0;
};
using FactoryCollection = ICollection<IFactory>;
}
#endif

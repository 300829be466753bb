// Stand-in for the ECSS-E-ST-40-07C header <Smp/IComponent.h>.
#ifndef STANDIN_SMP_ICOMPONENT_H
#define STANDIN_SMP_ICOMPONENT_H
#include <Smp/IObject.h>
#include <Smp/IField.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/Uuid.h>
#include <Smp/ICollection.h>
namespace Smp {
class IPublication;
class ISimulator;
namespace Services { class ILogger; class ILinkRegistry; }
class IComponent : public virtual ::Smp::IObject {
public:
  ~IComponent() noexcept override = default;
  virtual ComponentStateKind GetState() const = 0;
  virtual void Publish(IPublication *receiver) = 0;
  virtual void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry = nullptr) = 0;
  virtual void Connect(ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual IField *GetField(String8 fullName) const = 0;
  virtual const FieldCollection *GetFields() const = 0;
  virtual const Uuid &GetUuid() const = 0;
};
using ComponentCollection = ICollection<IComponent>;
}
#endif

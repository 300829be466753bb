// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/ILinkRegistry.h>.
#ifndef STANDIN_SMP_SERVICES_ILINKREGISTRY_H
#define STANDIN_SMP_SERVICES_ILINKREGISTRY_H
#include <Smp/IService.h>
namespace Smp {

namespace Services {
class ILinkRegistry : public virtual ::Smp::IService {
public:
  ~ILinkRegistry() noexcept override = default;
  virtual void AddLink(IComponent *source, const IComponent *target) = 0;
  virtual UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const = 0;
  virtual Bool RemoveLink(IComponent *source, const IComponent *target) = 0;
  virtual const ComponentCollection *GetLinkSources(const IComponent *target) const = 0;
  virtual Bool CanRemove(const IComponent *target) = 0;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
} // namespace Services
} // namespace Smp
#endif

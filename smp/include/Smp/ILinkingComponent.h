// Stand-in for the ECSS-E-ST-40-07C header <Smp/ILinkingComponent.h>.
#ifndef STANDIN_SMP_ILINKINGCOMPONENT_H
#define STANDIN_SMP_ILINKINGCOMPONENT_H
#include <Smp/IComponent.h>
namespace Smp {
class ILinkingComponent : public virtual ::Smp::IComponent {
public:
  ~ILinkingComponent() noexcept override = default;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
}
#endif

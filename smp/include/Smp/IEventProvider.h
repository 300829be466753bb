// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventProvider.h>.
#ifndef STANDIN_SMP_IEVENTPROVIDER_H
#define STANDIN_SMP_IEVENTPROVIDER_H
#include <Smp/IComponent.h>
#include <Smp/IEventSource.h>
namespace Smp {
class IEventProvider : public virtual ::Smp::IComponent {
public:
  ~IEventProvider() noexcept override = default;
  virtual const EventSourceCollection *GetEventSources() const = 0;
  virtual IEventSource *GetEventSource(String8 name) const = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventConsumer.h>.
#ifndef STANDIN_SMP_IEVENTCONSUMER_H
#define STANDIN_SMP_IEVENTCONSUMER_H
#include <Smp/IComponent.h>
#include <Smp/IEventSink.h>
namespace Smp {
class IEventConsumer : public virtual ::Smp::IComponent {
public:
  ~IEventConsumer() noexcept override = default;
  virtual const EventSinkCollection *GetEventSinks() const = 0;
  virtual IEventSink *GetEventSink(String8 name) const = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/EventSinkNotSubscribed.h>.
#ifndef STANDIN_SMP_EVENTSINKNOTSUBSCRIBED_H
#define STANDIN_SMP_EVENTSINKNOTSUBSCRIBED_H
#include <Smp/Exception.h>
namespace Smp {
class IEventSource; class IEventSink;
}
namespace Smp {
class EventSinkNotSubscribed : public virtual ::Smp::Exception {
public:
  ~EventSinkNotSubscribed() noexcept override = default;
  virtual const IEventSource *GetEventSource() const noexcept = 0;
  virtual const IEventSink *GetEventSink() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/EventSinkAlreadySubscribed.h>.
#ifndef STANDIN_SMP_EVENTSINKALREADYSUBSCRIBED_H
#define STANDIN_SMP_EVENTSINKALREADYSUBSCRIBED_H
#include <Smp/Exception.h>
namespace Smp {
class IEventSource; class IEventSink;
}
namespace Smp {
class EventSinkAlreadySubscribed : public virtual ::Smp::Exception {
public:
  ~EventSinkAlreadySubscribed() noexcept override = default;
  virtual const IEventSource *GetEventSource() const noexcept = 0;
  virtual const IEventSink *GetEventSink() const noexcept = 0;
};
}
#endif

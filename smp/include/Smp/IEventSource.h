// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventSource.h>.
#ifndef STANDIN_SMP_IEVENTSOURCE_H
#define STANDIN_SMP_IEVENTSOURCE_H
#include <Smp/IEventSink.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEventSource : public virtual ::Smp::IObject {
public:
  ~IEventSource() noexcept override = default;
  virtual void Subscribe(IEventSink *eventSink) = 0;
  virtual void Unsubscribe(IEventSink *eventSink) = 0;
};
using EventSourceCollection = ICollection<IEventSource>;
}
#endif

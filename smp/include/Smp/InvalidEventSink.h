// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidEventSink.h>.
#ifndef STANDIN_SMP_INVALIDEVENTSINK_H
#define STANDIN_SMP_INVALIDEVENTSINK_H
#include <Smp/Exception.h>
namespace Smp {
class IEventSource; class IEventSink;
}
namespace Smp {
class InvalidEventSink : public virtual ::Smp::Exception {
public:
  ~InvalidEventSink() noexcept override = default;
  virtual const IEventSource *GetEventSource() const noexcept = 0;
  virtual const IEventSink *GetEventSink() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventSink.h>.
#ifndef STANDIN_SMP_IEVENTSINK_H
#define STANDIN_SMP_IEVENTSINK_H
#include <Smp/IObject.h>
#include <Smp/AnySimple.h>
#include <Smp/ICollection.h>
namespace Smp {
class IEventSink : public virtual ::Smp::IObject {
public:
  ~IEventSink() noexcept override = default;
  virtual PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(IObject *sender, AnySimple arg) = 0;
};
using EventSinkCollection = ICollection<IEventSink>;
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/TypeNotRegistered.h>.
#ifndef STANDIN_SMP_PUBLICATION_TYPENOTREGISTERED_H
#define STANDIN_SMP_PUBLICATION_TYPENOTREGISTERED_H
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
namespace Smp {

}
namespace Smp::Publication {
class TypeNotRegistered : public virtual ::Smp::Exception {
public:
  ~TypeNotRegistered() noexcept override = default;
  virtual Uuid GetUuid() const noexcept = 0;
};
}
#endif

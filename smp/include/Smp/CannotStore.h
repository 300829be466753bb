// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotStore.h>.
#ifndef STANDIN_SMP_CANNOTSTORE_H
#define STANDIN_SMP_CANNOTSTORE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class CannotStore : public virtual ::Smp::Exception {
public:
  ~CannotStore() noexcept override = default;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotRestore.h>.
#ifndef STANDIN_SMP_CANNOTRESTORE_H
#define STANDIN_SMP_CANNOTRESTORE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class CannotRestore : public virtual ::Smp::Exception {
public:
  ~CannotRestore() noexcept override = default;
};
}
#endif

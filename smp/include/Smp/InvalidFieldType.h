// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldType.h>.
#ifndef STANDIN_SMP_INVALIDFIELDTYPE_H
#define STANDIN_SMP_INVALIDFIELDTYPE_H
#include <Smp/Exception.h>
namespace Smp {

}
namespace Smp {
class InvalidFieldType : public virtual ::Smp::Exception {
public:
  ~InvalidFieldType() noexcept override = default;
};
}
#endif

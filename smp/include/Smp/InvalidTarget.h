// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidTarget.h>.
#ifndef STANDIN_SMP_INVALIDTARGET_H
#define STANDIN_SMP_INVALIDTARGET_H
#include <Smp/Exception.h>
namespace Smp {
class IDataflowField; class IField;
}
namespace Smp {
class InvalidTarget : public virtual ::Smp::Exception {
public:
  ~InvalidTarget() noexcept override = default;
  virtual const IDataflowField *GetSource() const noexcept = 0;
  virtual const IField *GetTarget() const noexcept = 0;
};
}
#endif

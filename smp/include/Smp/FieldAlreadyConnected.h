// Stand-in for the ECSS-E-ST-40-07C header <Smp/FieldAlreadyConnected.h>.
#ifndef STANDIN_SMP_FIELDALREADYCONNECTED_H
#define STANDIN_SMP_FIELDALREADYCONNECTED_H
#include <Smp/Exception.h>
namespace Smp {
class IDataflowField; class IField;
}
namespace Smp {
class FieldAlreadyConnected : public virtual ::Smp::Exception {
public:
  ~FieldAlreadyConnected() noexcept override = default;
  virtual const IDataflowField *GetSource() const noexcept = 0;
  virtual const IField *GetTarget() const noexcept = 0;
};
}
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/IArrayField.h>.
#ifndef STANDIN_SMP_IARRAYFIELD_H
#define STANDIN_SMP_IARRAYFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IArrayField : public virtual ::Smp::IField {
public:
  ~IArrayField() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual IField *GetItem(UInt64 index) const = 0;
};
}
#endif

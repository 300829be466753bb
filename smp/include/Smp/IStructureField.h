// Stand-in for the ECSS-E-ST-40-07C header <Smp/IStructureField.h>.
#ifndef STANDIN_SMP_ISTRUCTUREFIELD_H
#define STANDIN_SMP_ISTRUCTUREFIELD_H
#include <Smp/IField.h>
namespace Smp {
class IStructureField : public virtual ::Smp::IField {
public:
  ~IStructureField() noexcept override = default;
  virtual const FieldCollection *GetFields() const = 0;
  virtual IField *GetField(String8 name) const = 0;
};
}
#endif

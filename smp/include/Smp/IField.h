// Stand-in for the ECSS-E-ST-40-07C header <Smp/IField.h>.
#ifndef STANDIN_SMP_IFIELD_H
#define STANDIN_SMP_IFIELD_H
#include <Smp/IPersist.h>
#include <Smp/ViewKind.h>
#include <Smp/ICollection.h>
namespace Smp {
namespace Publication { class IType; }
class IField : public virtual ::Smp::IPersist {
public:
  ~IField() noexcept override = default;
  virtual ViewKind GetView() const = 0;
  virtual Bool IsState() const = 0;
  virtual Bool IsInput() const = 0;
  virtual Bool IsOutput() const = 0;
  virtual const Publication::IType *GetType() const = 0;
};
using FieldCollection = ICollection<IField>;
}
#endif

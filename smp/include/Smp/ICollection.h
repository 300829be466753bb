// Stand-in for the ECSS-E-ST-40-07C header <Smp/ICollection.h>.
#ifndef STANDIN_SMP_ICOLLECTION_H
#define STANDIN_SMP_ICOLLECTION_H
#include <Smp/CollectionIterator.h>
#include <Smp/IObject.h>
namespace Smp {
template <typename T> class ICollection : public virtual IObject {
public:
  using iterator = CollectionIterator<T>;
  using const_iterator = CollectionIterator<T>;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
template <typename T> T *CollectionIterator<T>::operator*() const { return _collection->at(_index); }
}
#endif

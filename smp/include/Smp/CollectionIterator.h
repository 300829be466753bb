// Stand-in for the ECSS-E-ST-40-07C header <Smp/CollectionIterator.h>.
#ifndef STANDIN_SMP_COLLECTIONITERATOR_H
#define STANDIN_SMP_COLLECTIONITERATOR_H
#include <cstddef>
#include <iterator>
namespace Smp {
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T **;
  using reference = T *;
  CollectionIterator(const ICollection<T> &collection, std::size_t index) : _collection(&collection), _index(index) {}
  T *operator*() const;
  T *operator->() const { return **this; }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto c = *this; ++_index; return c; }
  bool operator==(const CollectionIterator &o) const { return _collection == o._collection && _index == o._index; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
private:
  const ICollection<T> *_collection;
  std::size_t _index;
};
}
#endif

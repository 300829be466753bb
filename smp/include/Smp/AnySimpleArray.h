// Stand-in for the ECSS-E-ST-40-07C header <Smp/AnySimpleArray.h>.
#ifndef STANDIN_SMP_ANYSIMPLEARRAY_H
#define STANDIN_SMP_ANYSIMPLEARRAY_H
#include <Smp/AnySimple.h>
namespace Smp {
using AnySimpleArray = AnySimple *;
}
#endif

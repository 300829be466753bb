// Stand-in for the ECSS-E-ST-40-07C header <Smp/PrimitiveTypeKind.h>.
#ifndef STANDIN_SMP_PRIMITIVETYPEKIND_H
#define STANDIN_SMP_PRIMITIVETYPEKIND_H
#include <Smp/PrimitiveTypes.h>

#endif

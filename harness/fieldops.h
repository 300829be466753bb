// arithmetic on native field values, drawn so that it is defined
#ifndef XV_FIELDOPS_H
#define XV_FIELDOPS_H
#include "values.h"
#include "xv.h"
namespace smpx {
template <typename T> struct IsEnumOrText { static constexpr bool value = std::is_enum_v<T> || std::is_class_v<T>; };
/// an operand for which the operation is defined on the plain value; false if none was found
template <typename T, typename Op> bool defined(Op op, T v, T o) {
  if constexpr (std::is_floating_point_v<T>) { (void)v; return op != 4 && !(op == 3 && o == 0); }
  else if constexpr (std::is_same_v<T, bool>) { (void)op; (void)v; (void)o; return false; }
  else {
    if (std::is_unsigned_v<T> && sizeof(T) >= 4 && (op < 3 || op == 10 || op == 11)) return true; // wraps
    const I128 a = v, b = o;
    I128 r = 0;
    switch (op) {
    case 0: r = a + b; break;
    case 1: r = a - b; break;
    case 2: r = a * b; break;
    case 3: case 4: if (b == 0) return false; r = a / b; break;
    case 5: case 6: return b >= 0 && b < static_cast<int>(sizeof(T) * 8 < 32 ? 16 : sizeof(T) * 8 - 1) && a >= 0 && (op == 6 || (a << static_cast<int>(b)) <= static_cast<I128>(std::numeric_limits<T>::max()));
    case 10: r = a + 1; break;
    case 11: r = a - 1; break;
    default: return true;
    }
    if (sizeof(T) < 4) return r >= INT32_MIN && r <= INT32_MAX; // computed as int, then cut
    return r >= static_cast<I128>(std::numeric_limits<T>::min()) && r <= static_cast<I128>(std::numeric_limits<T>::max());
  }
}
template <typename L, typename T> void apply(int op, L &l, const T &o) {
  if constexpr (!IsEnumOrText<T>::value && !std::is_same_v<T, bool>) {
    switch (op) {
    case 0: l += o; break;
    case 1: l -= o; break;
    case 2: l *= o; break;
    case 3: l /= o; break;
    case 10: ++l; break;
    case 11: --l; break;
    default:
      if constexpr (std::is_integral_v<T>) {
        switch (op) {
        case 4: l %= o; break;
        case 5: l <<= o; break;
        case 6: l >>= o; break;
        case 7: l &= o; break;
        case 8: l |= o; break;
        case 9: l ^= o; break;
        }
      }
    }
  }
}
template <typename T> bool operation(xv::Case &c, int &op, const T &now, T &operand) {
  if constexpr (IsEnumOrText<T>::value || std::is_same_v<T, bool>) { (void)c; (void)op; (void)now; (void)operand; return false; }
  else {
    for (int n = 0; n < 10; ++n) {
      op = static_cast<int>(std::is_floating_point_v<T> ? c.rng.pick({0, 1, 2, 3, 10, 11}) : static_cast<int>(c.rng.below(12)));
      operand = c.rng.chance(1, 2) ? Native<T>::random(c.rng) : static_cast<T>(c.rng.below(7));
      if (defined<T>(op, now, operand)) return true;
    }
    return false;
  }
}
} // namespace smpx
#endif

// Stand-in for the ECSS-E-ST-40-07C header <Smp/Uuid.h>.
#ifndef STANDIN_SMP_UUID_H
#define STANDIN_SMP_UUID_H
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iosfwd>

namespace Smp {
struct Uuid {
  std::uint32_t Data1{};
  std::array<std::uint16_t, 3> Data2{};
  std::array<std::uint8_t, 6> Data3{};
  constexpr Uuid() noexcept = default;
  constexpr Uuid(std::uint32_t d1, std::uint16_t a, std::uint16_t b, std::uint16_t c, std::uint64_t d3) noexcept
      : Data1{d1}, Data2{a, b, c},
        Data3{static_cast<std::uint8_t>((d3 >> 40U) & 0xFFU), static_cast<std::uint8_t>((d3 >> 32U) & 0xFFU),
              static_cast<std::uint8_t>((d3 >> 24U) & 0xFFU), static_cast<std::uint8_t>((d3 >> 16U) & 0xFFU),
              static_cast<std::uint8_t>((d3 >> 8U) & 0xFFU), static_cast<std::uint8_t>(d3 & 0xFFU)} {}
  constexpr Uuid(std::uint32_t d1, const std::array<std::uint16_t, 3> &d2, const std::array<std::uint8_t, 6> &d3) noexcept
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  Uuid(const char *string);
  constexpr Uuid(const Uuid &) noexcept = default;
  constexpr Uuid &operator=(const Uuid &) noexcept = default;
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);
struct Uuids {
  static constexpr Uuid Uuid_Void{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xA0B1C2D3E3FFULL};
  static constexpr Uuid Uuid_Uuid{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e400ULL};
  static constexpr Uuid Uuid_Char8{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e401ULL};
  static constexpr Uuid Uuid_Bool{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e402ULL};
  static constexpr Uuid Uuid_Int8{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e403ULL};
  static constexpr Uuid Uuid_UInt8{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e404ULL};
  static constexpr Uuid Uuid_Int16{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e405ULL};
  static constexpr Uuid Uuid_UInt16{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e406ULL};
  static constexpr Uuid Uuid_Int32{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e407ULL};
  static constexpr Uuid Uuid_UInt32{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e408ULL};
  static constexpr Uuid Uuid_Int64{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e409ULL};
  static constexpr Uuid Uuid_UInt64{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40aULL};
  static constexpr Uuid Uuid_Float32{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40bULL};
  static constexpr Uuid Uuid_Float64{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40cULL};
  static constexpr Uuid Uuid_Duration{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40dULL};
  static constexpr Uuid Uuid_DateTime{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40eULL};
  static constexpr Uuid Uuid_String8{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e40fULL};
  static constexpr Uuid Uuid_PrimitiveTypeKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e410ULL};
  static constexpr Uuid Uuid_EventId{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e411ULL};
  static constexpr Uuid Uuid_LogMessageKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e412ULL};
  static constexpr Uuid Uuid_TimeKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e413ULL};
  static constexpr Uuid Uuid_ViewKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e414ULL};
  static constexpr Uuid Uuid_ParameterDirectionKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e415ULL};
  static constexpr Uuid Uuid_ComponentStateKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e416ULL};
  static constexpr Uuid Uuid_AccessKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e417ULL};
  static constexpr Uuid Uuid_SimulatorStateKind{0xd55fcff6U, 0x6b4f, 0x4c3e, 0x9d0a, 0xa0b1c2d3e418ULL};
};
} // namespace Smp
namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
} // namespace std
#endif

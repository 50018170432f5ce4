// Enum shapes used by the enum harnesses. KEYS<K>() lists the enumerators in the order in which the
// library must present them (ascending value for enums reflected by magic_enum, the adapter's own
// order for adapted types).
#pragma once
#include "fixed_containers/enum_utils.hpp"
#include <array>
#include <cstdint>
#include <string_view>
#include <vector>
namespace en
{
namespace fc = fixed_containers;
enum class Plain { ALPHA, BETA, GAMMA, DELTA };
enum class Gaps : std::int8_t { MINUS = -3, SEVEN = 7, ZERO = 0, BIG = 100 };
enum class One : unsigned { ONLY = 5 };
enum Old { OLD_A = 1, OLD_B = 4, OLD_C = 9 };
enum class None_ {};
enum class Many : std::uint8_t { A, B, C, D, E = 20, F, G, H = 120 };
enum class RB : std::uint32_t { C_ONE = 19, C_FOUR = 25, C_TWO = 21, C_THREE = 23 };
class Rich : public fc::rich_enums::SkeletalRichEnum<Rich, RB>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_ONE)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_TWO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_THREE)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Rich, C_FOUR)
};
enum class BB : bool { NO = false, YES = true };
class Bool : public fc::rich_enums::SkeletalRichEnum<Bool, BB>
{
    friend SkeletalRichEnum::ValuesFriend;
    using SkeletalRichEnum::SkeletalRichEnum;

public:
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Bool, NO)
    FIXED_CONTAINERS_RICH_ENUM_CONSTANT_GEN_HELPER(Bool, YES)
};
// an adapted type whose order is unrelated to its values
enum class Ad { P = 50, Q = 3, S = 40 };
}  // namespace en
template <>
struct fixed_containers::rich_enums::EnumAdapter<en::Ad>
{
    using Enum = en::Ad;
    static constexpr std::array<en::Ad, 3> VALS{en::Ad::P, en::Ad::Q, en::Ad::S};
    static constexpr std::size_t count() { return 3; }
    static constexpr const std::array<en::Ad, 3>& values() { return VALS; }
    static constexpr std::size_t ordinal(const en::Ad& k) { return k == en::Ad::P ? 0 : k == en::Ad::Q ? 1 : 2; }
    static constexpr std::string_view to_string(const en::Ad& k) { return k == en::Ad::P ? "P" : k == en::Ad::Q ? "Q" : "S"; }
};
namespace en
{
template <class K> std::vector<K> KEYS();
template <> inline std::vector<Plain> KEYS() { return {Plain::ALPHA, Plain::BETA, Plain::GAMMA, Plain::DELTA}; }
template <> inline std::vector<Gaps> KEYS() { return {Gaps::MINUS, Gaps::ZERO, Gaps::SEVEN, Gaps::BIG}; }
template <> inline std::vector<One> KEYS() { return {One::ONLY}; }
template <> inline std::vector<Old> KEYS() { return {OLD_A, OLD_B, OLD_C}; }
template <> inline std::vector<None_> KEYS() { return {}; }
template <> inline std::vector<Many> KEYS() { return {Many::A, Many::B, Many::C, Many::D, Many::E, Many::F, Many::G, Many::H}; }
template <> inline std::vector<Rich> KEYS() { return {Rich::C_ONE(), Rich::C_TWO(), Rich::C_THREE(), Rich::C_FOUR()}; }
template <> inline std::vector<Bool> KEYS() { return {Bool::NO(), Bool::YES()}; }
template <> inline std::vector<Ad> KEYS() { return {Ad::P, Ad::Q, Ad::S}; }
}  // namespace en

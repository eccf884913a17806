// A user-defined scalar of the kind the library supports: converts implicitly only to its native type.
#ifndef VERIF_TAGGED_HPP
#define VERIF_TAGGED_HPP
#include <cstdint>
namespace ext {
template <typename T, int TAG>
struct Tag {
    using type = T;
    T value;
    constexpr Tag() = default;
    constexpr explicit Tag(T v) : value(v) {}
    constexpr operator T() const { return value; }
};
#define VF_T template <typename T, int G>
#define VF_BIN(op) VF_T constexpr Tag<T, G> operator op(Tag<T, G> a, Tag<T, G> b) { return Tag<T, G>(static_cast<T>(a.value op b.value)); }
#define VF_ASG(op) VF_T inline Tag<T, G>& operator op(Tag<T, G>& a, Tag<T, G> b) { a.value op b.value; return a; }
#define VF_CMP(op) VF_T constexpr bool operator op(Tag<T, G> a, Tag<T, G> b) { return a.value op b.value; }
VF_BIN(+) VF_BIN(-) VF_BIN(*) VF_BIN(/)
VF_ASG(+=) VF_ASG(-=) VF_ASG(*=) VF_ASG(/=)
VF_CMP(<) VF_CMP(>) VF_CMP(<=) VF_CMP(>=) VF_CMP(==) VF_CMP(!=)
VF_T constexpr Tag<T, G> operator+(Tag<T, G> a) { return a; }
VF_T constexpr Tag<T, G> operator-(Tag<T, G> a) { return Tag<T, G>(static_cast<T>(-a.value)); }
VF_T inline Tag<T, G>& operator++(Tag<T, G>& a) { ++a.value; return a; }
VF_T inline Tag<T, G>& operator--(Tag<T, G>& a) { --a.value; return a; }
VF_T inline Tag<T, G> operator++(Tag<T, G>& a, int) { auto o = a; ++a.value; return o; }
VF_T inline Tag<T, G> operator--(Tag<T, G>& a, int) { auto o = a; --a.value; return o; }
#undef VF_T
#undef VF_BIN
#undef VF_ASG
#undef VF_CMP
}  // namespace ext
namespace cft {
template <typename T>
struct native;
template <typename T, int TAG>
struct native<ext::Tag<T, TAG>> {
    using type = T;
};
}  // namespace cft
#endif

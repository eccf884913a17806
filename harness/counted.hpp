// Scalars of the kind the library supports that count every operation: the count drives a virtual clock.
#ifndef VERIF_COUNTED_HPP
#define VERIF_COUNTED_HPP
#include <cstdint>
namespace vclock {
extern uint64_t ops;  // operations done so far
}
namespace ext {
template <typename T, int TAG>
struct Cnt {
    using type = T;
    T value;
    constexpr Cnt() = default;
    constexpr explicit Cnt(T v) : value(v) {}
    constexpr operator T() const { return value; }
};
#define VF_T template <typename T, int G>
#define VF_BIN(op) VF_T inline Cnt<T, G> operator op(Cnt<T, G> a, Cnt<T, G> b) { return ++vclock::ops, Cnt<T, G>(static_cast<T>(a.value op b.value)); }
#define VF_ASG(op) VF_T inline Cnt<T, G>& operator op(Cnt<T, G>& a, Cnt<T, G> b) { ++vclock::ops; a.value op b.value; return a; }
#define VF_CMP(op) VF_T inline bool operator op(Cnt<T, G> a, Cnt<T, G> b) { return ++vclock::ops, a.value op b.value; }
VF_BIN(+) VF_BIN(-) VF_BIN(*) VF_BIN(/)
VF_ASG(+=) VF_ASG(-=) VF_ASG(*=) VF_ASG(/=)
VF_CMP(<) VF_CMP(>) VF_CMP(<=) VF_CMP(>=) VF_CMP(==) VF_CMP(!=)
VF_T constexpr Cnt<T, G> operator+(Cnt<T, G> a) { return a; }
VF_T constexpr Cnt<T, G> operator-(Cnt<T, G> a) { return Cnt<T, G>(static_cast<T>(-a.value)); }
VF_T inline Cnt<T, G>& operator++(Cnt<T, G>& a) { ++vclock::ops; ++a.value; return a; }
VF_T inline Cnt<T, G>& operator--(Cnt<T, G>& a) { ++vclock::ops; --a.value; return a; }
VF_T inline Cnt<T, G> operator++(Cnt<T, G>& a, int) { ++vclock::ops; auto o = a; ++a.value; return o; }
VF_T inline Cnt<T, G> operator--(Cnt<T, G>& a, int) { ++vclock::ops; auto o = a; --a.value; return o; }
#undef VF_T
#undef VF_BIN
#undef VF_ASG
#undef VF_CMP
}  // namespace ext
namespace cft {
template <typename T>
struct native;
template <typename T, int TAG>
struct native<ext::Cnt<T, TAG>> {
    using type = T;
};
}  // namespace cft
#endif

// C59: what is derived from types, against spec/Types.tla. -DGEN: the file made by tools/types_gen.py.
#include "vk.h"
#include "Awl/Mp/Mp.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Reflection.h"
#include "Awl/VectorSet.h"
#include "Awl/Decimal.h"
#include <deque>
#include <list>
#include <optional>
#include <variant>
#include <atomic>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <chrono>
using vk::Val;
namespace mp = awl::mp;
using Time = std::chrono::system_clock::time_point;
enum E8 : uint8_t {}; enum class E32 : int32_t {};
static Val parse(const char* p) { return Val::parse(p); }
// The term of a type, by definition and not by the library.
template <class T> struct Term;
#define ATOM(type, name) template <> struct Term<type> { static Val get() { return Val::t(name); } };
ATOM(bool, "bool") ATOM(char, "char") ATOM(int8_t, "i8") ATOM(uint8_t, "u8") ATOM(int16_t, "i16") ATOM(uint16_t, "u16") ATOM(int32_t, "i32") ATOM(uint32_t, "u32")
ATOM(int64_t, "i64") ATOM(uint64_t, "u64") ATOM(float, "float") ATOM(double, "double") ATOM(std::string, "string") ATOM(std::wstring, "wstring") ATOM(Time, "time") ATOM(std::monostate, "monostate")
template <uint8_t N> struct Term<awl::decimal<uint64_t, N>> { static Val get() { return Val::t("dec", (int)N); } };
template <> struct Term<E8> { static Val get() { return Val::t("enum", 8); } };
template <> struct Term<E32> { static Val get() { return Val::t("enum", 32); } };
#define ONE(type, name) template <class T> struct Term<type> { static Val get() { return Val::t(name, Term<T>::get()); } };
ONE(std::vector<T>, "vector") ONE(std::deque<T>, "deque") ONE(std::list<T>, "list") ONE(std::set<T>, "set") ONE(std::multiset<T>, "multiset") ONE(std::unordered_set<T>, "unordered_set")
ONE(awl::vector_set<T>, "vector_set") ONE(std::optional<T>, "optional") ONE(std::atomic<T>, "atomic") ONE(std::shared_ptr<T>, "shared_ptr") ONE(std::unique_ptr<T>, "unique_ptr") ONE(T *, "pointer")
template <class T, size_t N> struct Term<std::array<T, N>> { static Val get() { return Val::t("array", Term<T>::get(), (int)N); } };
template <class A, class B> struct Term<std::pair<A, B>> { static Val get() { return Val::t("pair", Term<A>::get(), Term<B>::get()); } };
template <class A, class B> struct Term<std::map<A, B>> { static Val get() { return Val::t("map", Term<A>::get(), Term<B>::get()); } };
template <class A, class B> struct Term<std::unordered_map<A, B>> { static Val get() { return Val::t("unordered_map", Term<A>::get(), Term<B>::get()); } };
template <class... T> struct Term<std::variant<T...>> { static Val get() { return Val::t("variant", Val::t(Term<T>::get()...)); } };

template <class V> struct List;
template <class... T> struct List<std::variant<T...>> { static Val get() { return Val::t(Term<T>::get()...); } };
template <class V> Val list() { return List<V>::get(); }
template <class T> Val name()
{
    constexpr auto n = mp::make_type_name<T>(); Val v, h;
    for (char c : n) v.push((int)(unsigned char)c);
    const std::string s = std::string(n.begin(), n.end()); if (s.size() != n.size()) return Val("the size of the name");
    constexpr uint64_t k = mp::make_type_hash<T>(); if (mp::calc_type_hash(n) != k) return Val("another hash");
    for (int i = 7; i >= 0; --i) h.push((int)(k >> (8 * i) & 255));
    return Val::t(v, h);
}
template <class T> struct mp_struct : std::bool_constant<awl::is_reflectable_v<T>> {};
template <class T> Val split() { using S = mp::split_variant<mp::variant_from_struct<T>, mp_struct>; return Val::t(list<typename S::matching>(), list<typename S::non_matching>()); }
template <class V, class T> Val find()
{
    if constexpr (mp::variant_contains<V, T>) return Val::t(1, (int)awl::find_variant_type_v<T, V>); else return Val::t(0, -1);
}
struct Entry { const char* op; Val (*get)(); };
using Table = std::vector<Entry>;
#include GEN
namespace
{
    const Table& table() { static const Table t = [] { Table x; fill(x); return x; }(); return t; }
    struct Sut : vk::Sut
    {
        static inline size_t next = 0; static inline const Entry* current = nullptr;
        Val apply(const Val&) override { return current->get(); }
        Val random_op(vk::Rng&) override { current = &table()[next++ % table().size()]; return parse(current->op); }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }

// C06: std::vector<bool> and std::array<bool, N> are stored packed under the type name of a sequence of bytes.
#include "vk.h"
#include "Awl/Io/Vts.h"
namespace o { struct A { std::vector<uint8_t> v; int32_t x = 1; AWL_REFLECT(v, x) }; struct B { std::vector<bool> v; std::string s; int32_t x = 1; AWL_REFLECT(v, s, x) }; }
namespace n { struct A { int32_t x = 1; std::vector<bool> v; AWL_REFLECT(x, v) }; struct B { std::vector<bool> v; int32_t x = 1; AWL_REFLECT(v, x) }; }
template <class Old, class New, class VO, class VN> bool right(const Old& a, New& b)
{
    using namespace awl::io;
    std::vector<uint8_t> v;
    VectorOutputStream o(v); Writer<VO> w; w.WriteNewPrototypes(o); w.WriteV(o, a);
    VectorInputStream in(v); Reader<VN> r;
    try { r.ReadOldPrototypes(in); r.ReadV(in, b); } catch (const EndOfFileException&) { return false; } catch (const awl::Exception&) { return true; }
    return in.End();
}
int main()
{
    o::A a{ { 1, 2, 3, 4, 5, 6, 7, 8, 9 }, 7 }; n::A a1;
    bool changed = right<o::A, n::A, std::variant<o::A, std::vector<uint8_t>, int32_t>, std::variant<n::A, std::vector<bool>, int32_t, std::vector<uint8_t>>>(a, a1);
    o::B b{ { true, false }, "abcdefghijklmnop", 7 }; n::B b1;
    bool skipped = right<o::B, n::B, std::variant<o::B, std::vector<bool>, int32_t, std::string>, std::variant<n::B, std::vector<bool>, int32_t, std::string>>(b, b1) && b1.x == 7;
    printf("OK wrong=%d\n", !changed + !skipped);
}

// C46: options of a command line against spec/Options.tla.
#include "vk.h"
#include "Awl/Testing/CommandLineProvider.h"
#include "Awl/Testing/LocalAttribute.h"
#include <cmath>
using vk::Val;
using namespace awl::testing;
namespace
{
    std::string text(const Val& v) { std::string s; for (auto& c : v.a) s += (char)c.i; return s; }
    Val codes(const std::string& s) { Val v; for (char c : s) v.push((int)(unsigned char)c); return v; }
    template <class T> Val integer(T x)
    {
        Val d; std::string s = std::to_string(x);
        for (char c : s) if (c != '-' && !(s == "0")) d.push(c - '0');
        return Val::t(int(x < 0), d);
    }
    template <class T> Val show(const T& x)
    {
        if constexpr (std::is_same_v<T, bool>) return Val((int)x);
        else if constexpr (std::is_integral_v<T>) return integer(x);
        else if constexpr (std::is_floating_point_v<T>) return Val((long long)std::llround(x * 1000));
        else if constexpr (std::is_same_v<T, std::string>) return codes(x);
        else
        {
            Val v; for (const auto& e : x)
            {
                if constexpr (std::is_same_v<T, std::vector<bool>>) v.push(integer((int)e)); else v.push(show(e));
            }
            return v;
        }
    }
    template <class T> Val get(const AttributeProvider& ap, const std::string& name, const T& a, const T& b)
    {
        // A value that was not given is the default whatever the default is.
        try
        {
            LocalAttribute<T> x(ap, "T", name.c_str(), a); LocalAttribute<T> y(ap, "T", name.c_str(), b);
            if (x.GetName() != name || x.GetTypeName() != "T") return Val("the attribute has another name");
            if (x.GetValue() == a && y.GetValue() == b) return Val::t("default");
            if (x.GetValue() != y.GetValue()) return Val("the value depends on the default");
            return Val::t("ok", show(x.GetValue()));
        }
        catch (const TestException&) { return Val::t("thrown"); }
    }
    Val ask(const AttributeProvider& ap, const std::string& name, const std::string& type)
    {
        if (type == "bool") return get<bool>(ap, name, false, true);
        if (type == "int") return get<int>(ap, name, 7, -8);
        if (type == "unsigned") return get<unsigned>(ap, name, 7, 8);
        if (type == "long") return get<long>(ap, name, 7, -8);
        if (type == "ulong") return get<unsigned long>(ap, name, 7, 8);
        if (type == "llong") return get<long long>(ap, name, 7, -8);
        if (type == "ullong") return get<unsigned long long>(ap, name, 7, 8);
        if (type == "float") return get<float>(ap, name, 0.5f, -1);
        if (type == "double") return get<double>(ap, name, 0.5, -1);
        if (type == "ldouble") return get<long double>(ap, name, 0.5, -1);
        if (type == "string") return get<std::string>(ap, name, "", "x");
        if (type == "ints") return get<std::vector<int>>(ap, name, {}, { 1, 2 });
        if (type == "bools") return get<std::vector<bool>>(ap, name, {}, { true });
        if (type == "words") return get<std::set<std::string>>(ap, name, {}, { "x", "y" });
        return get<std::vector<std::string>>(ap, name, {}, { "x" });
    }
    // The arguments of a process outlive the provider.
    struct Line
    {
        std::vector<std::string> texts; std::vector<char*> argv; std::unique_ptr<CommandLineProvider> p;
        explicit Line(std::vector<std::string> a) : texts(std::move(a))
        {
            texts.insert(texts.begin(), "--program"); for (auto& t : texts) argv.push_back(t.data());
            int n = (int)argv.size(); argv.push_back(nullptr); p = std::make_unique<CommandLineProvider>(n, argv.data());
        }
    };
    std::unique_ptr<Line> make(const std::vector<std::string>& a) { try { return std::make_unique<Line>(a); } catch (const TestException&) { return nullptr; } }
    Val done(std::unique_ptr<Line> l)
    {
        std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); l = nullptr; std::cout.rdbuf(old);
        std::set<std::string> names; std::istringstream in(out.str()); std::string s;
        while (std::getline(in, s))
        {
            size_t b = s.find('\''), e = s.rfind('\'');
            if (s.rfind("Unused option", 0) != 0 || b >= e) return Val("printed: " + s);
            if (!names.insert(s.substr(b + 1, e - b - 1)).second) return Val("reported twice");
        }
        Val v; for (auto& n : names) v.push(codes(n));
        return v;
    }
    struct Sut : vk::Sut
    {
        std::unique_ptr<Line> line; AttributeProvider none;
        ~Sut() { done(std::move(line)); }
        Val apply(const Val& o) override
        {
            const std::string& n = o.name();
            if (n == "parse")
            {
                Val unused = done(std::move(line)); std::vector<std::string> a; for (auto& x : o[1].a) a.push_back(text(x));
                line = make(a); return Val::t(line ? "ok" : "thrown", unused);
            }
            if (n == "get") return ask(line ? *line->p : none, text(o[1]), o[2].s);
            if (n == "done") return done(std::move(line));
            std::unique_ptr<Line> l = make(n == "only" ? std::vector<std::string>{ text(o[1]) } : std::vector<std::string>{ "--ab", text(o[1]) });
            if (!l) return Val::t("thrown");
            if (n == "only") return Val::t("ok", done(std::move(l)));
            Val v = ask(*l->p, "ab", o[2].s), w = ask(*l->p, "ab", o[2].s); done(std::move(l));
            return v.str() == w.str() ? v : Val("the second time another value is given");
        }
        Val random_op(vk::Rng& r) override
        {
            static const char* const types[] = { "bool", "int", "unsigned", "long", "ulong", "llong", "ullong", "float", "double", "ldouble", "string", "ints", "bools", "words", "wordlist" };
            static const char* const names[] = { "ab", "loop", "X9", "a_very_long_name_with_digits_0123456789", "b__", "filter", "Filter", "aa" };
            static const char* const limits[] = { "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999" };
            auto word = [&](int n) { std::string s; for (int k = vk::rnd(r, n); k > 0; --k) s += "abzZ_59 ,'"[vk::rnd(r, 10)]; return s; };
            auto number = [&]
            {
                std::string s = vk::rnd(r, 3) ? "" : vk::rnd(r, 2) ? "-" : "+"; for (int k = vk::rnd(r, 4); k > 0; --k) s += '0' + vk::rnd(r, 10);
                if (vk::rnd(r, 3) == 0) { s += '.'; for (int k = vk::rnd(r, 4); k > 0; --k) s += '0' + vk::rnd(r, 10); }
                return s;
            };
            auto value = [&]() -> std::string
            {
                switch (vk::rnd(r, 5))
                {
                case 0: return word(12);
                case 1: { std::string s; for (int k = vk::rnd(r, 5); k > 0; --k) s += (s.empty() ? "" : vk::rnd(r, 9) ? " " : "  \t") + std::to_string(vk::rnd(r, 400) - 200); return s; }
                case 2: { std::string s; for (int k = vk::rnd(r, 5); k > 0; --k) s += "01 0"[vk::rnd(r, 4)]; return s; }
                default: return number();
                }
            };
            // what is converted to a floating point number has few digits
            auto text = [&](bool real) { return !real && vk::rnd(r, 6) == 0 ? (vk::rnd(r, 2) ? "-" : "") + std::string(limits[vk::rnd(r, 9)]) : value(); };
            switch (vk::rnd(r, 6))
            {
            case 0:
            {
                Val a; for (int k = vk::rnd(r, 7); k > 0; --k)
                {
                    std::string s = "--"; s += names[vk::rnd(r, 8)]; if (vk::rnd(r, 12) == 0) s[vk::rnd(r, (int)s.size())] = "-_a1 ="[vk::rnd(r, 6)];
                    a.push(codes(s)); if (vk::rnd(r, 3)) a.push(codes(vk::rnd(r, 20) ? text(true) : std::string()));
                }
                return Val::t("parse", a);
            }
            case 1: return vk::rnd(r, 4) ? Val::t("get", codes(names[vk::rnd(r, 8)]), types[vk::rnd(r, 15)]) : Val::t("done");
            case 2: case 3: return Val::t("get", codes(names[vk::rnd(r, 8)]), types[vk::rnd(r, 15)]);
            case 4: { std::string t = types[vk::rnd(r, 15)]; if (t[0] != 'f' && t.find("double") != std::string::npos && vk::rnd(r, 2)) return Val::t("convert", codes((vk::rnd(r, 2) ? "-" : "") + std::to_string(1000000 + vk::rnd(r, 1000000)) + "." + std::to_string(100 + vk::rnd(r, 900))), t); return Val::t("convert", codes(text(t == "float" || t == "double" || t == "ldouble")), t); }
            default: { std::string s = vk::rnd(r, 4) ? "--" : "-"; for (int k = vk::rnd(r, 6); k > 0; --k) s += "aZ_9-= "[vk::rnd(r, 7)]; return Val::t("only", codes(s)); }
            }
        }
    };
}
int main(int argc, char** argv) { return vk::main<Sut>(argc, argv); }

// C35: a unit that uses the compile-time observers under their own names, in a program that uses the run-time ones elsewhere
#include <xitren/comm/observer_static.hpp>

#include <vector>

namespace {
struct First : xitren::comm::observer<int, First> {
    std::vector<int>* v{};
    void notification_impl(xitren::comm::observable_impl<int> const&, int const& x) noexcept { v->push_back(x); }
};
struct Second : xitren::comm::observer<int, Second> {
    std::vector<int>* v{};
    void notification_impl(xitren::comm::observable_impl<int> const&, int const& x) noexcept { v->push_back(-x); }
};
}    // namespace

std::vector<int>
compile_time_chain(int n)
{
    std::vector<int>                              v;
    First                                         a;
    Second                                        b;
    xitren::comm::observable<int, First, Second>  s(a, b);
    a.v = b.v = &v;
    for (int i = 1; i <= n; i++)
        s.notify(i);
    return v;
}

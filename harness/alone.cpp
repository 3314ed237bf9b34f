// C35: one header alone, first, twice, and in two units of one program.
#include HDR
#include HDR

#include "vf.hpp"

#define VF_STR_(x) #x
#define VF_STR(x) VF_STR_(x)
int other_unit();
void
vf_case(vf::Src& s)
{
    VF_EXPECT("C35", other_unit() == 2, "alone", "the units of a program do not work together");
    vf::count("units.headers_alone");
    vf::mix(s.u64());
    for (char const* p = VF_STR(HDR); *p; p++)
        vf::mix(static_cast<unsigned char>(*p));
    vf::tr("%s alone in two units", VF_STR(HDR));
    vf::nontrivial();
}
void
vf_directed()
{}

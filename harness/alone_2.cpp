// C35: the other unit (see alone.cpp)
#include HDR
#include HDR

int
other_unit()
{
    return 2;
}

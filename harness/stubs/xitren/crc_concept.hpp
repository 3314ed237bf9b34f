// Stand-in for the one external header packet.hpp names (xitren/crc, which is not in this repository).
// packet.hpp itself uses nothing from it.
#pragma once
#include <iterator>
namespace xitren::crc {
template <class T>
concept crc_iterator = std::input_iterator<T>;
}

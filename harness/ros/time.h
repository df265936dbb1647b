#pragma once
#include <cstdint>
namespace ros { struct Time { uint32_t sec = 0, nsec = 0; bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; } }; }

#pragma once
#include "drive.h"
#include <cstring>
inline drv::i64 D(double d){ drv::i64 v; memcpy(&v, &d, 8); return v; }
inline std::vector<drv::i64> DS(std::vector<double> v){ std::vector<drv::i64> r; for(double d : v) r.push_back(D(d)); return r; }
inline drv::Case fish(bool star, int ticks){ drv::Case c; c.cfg = drv::cfgFish(star); c.maxTicks = ticks; return c; }

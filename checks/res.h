#pragma once
#include <cstddef>
struct Res { const unsigned char* data; size_t size; };
Res res_font();
Res res_leaves();

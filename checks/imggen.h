// Generator of valid image files (PNG, APNG, BMP, QOI, JPEG) with the pixels a decoder has to produce.
#pragma once
#include "../sim/sim.h"
#include <blend2d/blend2d.h>
#include <string>
#include <vector>
namespace ig {
using namespace sim;
using Bytes = std::vector<u8>;
struct Frame { int w = 0, h = 0; BLFormat fmt = BL_FORMAT_PRGB32; std::vector<u32> px; std::vector<u8> bg; };   // premultiplied; bg: pixels the file skips, which have one colour of the decoder's choice
struct File { Bytes data; std::string codec, desc; std::vector<Frame> frames; int tol = 1; Bytes twin; std::string twin_desc; };  // twin: same picture, other encoding
File png(Rng& r, int max_side), bmp(Rng& r, int max_side), qoi(Rng& r, int max_side), jpeg(Rng& r, int max_side);
File random_file(Rng& r, int max_side);
void deflate(Rng& r, const Bytes& in, Bytes& out);      // raw DEFLATE stream with random structure
// Damages a file: bits, bytes, ranges, length fields, truncation, foreign data. PNG checksums are not corrected.
// Changes fields which say how large something is so that they disagree with the data (PNG IHDR, BMP and JPEG headers, ...).
void reshape(Rng& r, Bytes& b, const std::string& codec, std::string* desc);
void damage(Rng& r, Bytes& b, const Bytes& other, std::string* desc);
}

// Generator of valid OpenType fonts with the characters, advances, kerning and outlines they have to give, and of damage.
#pragma once
#include "../sim/sim.h"
#include <blend2d/blend2d.h>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace fg {
using namespace sim;
using Bytes = std::vector<u8>;
struct Pt { int x, y; bool on; };
struct Comp { u32 glyph; int dx, dy; };
struct Glyph { std::vector<std::vector<Pt>> contours; std::vector<Comp> comps; };
struct Table { u32 tag; Bytes data; };
// What a lookup of GSUB or GPOS does; `known` if the reference below covers it.
struct Look {
  bool gsub = false, known = false; u32 type = 0, vf1 = 0; std::set<u32> cov; std::map<u32, std::vector<u32>> seq; std::map<u32, std::vector<std::vector<u32>>> lig; std::vector<std::set<u32>> back, ahead;
  std::map<u32, std::vector<int>> single; std::map<std::pair<u32, u32>, std::vector<int>> pair; std::map<u32, u32> cd1, cd2; std::map<std::pair<u32, u32>, std::vector<int>> cls;
};
struct Feat { u32 tag; std::vector<u32> lookups; };
struct Layout { bool present = false; std::vector<Look> looks; std::vector<Feat> feats; bool has_lang = false; u32 required = 0xFFFF; std::vector<u32> lang; };
struct GlyphPos { int px = 0, py = 0, ax = 0, ay = 0; };
struct Font {
  std::vector<Table> tables; Bytes data; std::string desc; bool exact = false, cff = false, layout = false; u32 version = 0x00010000, nglyphs = 0, upem = 1000, face_index = 0, face_count = 1;
  std::map<u32, u32> cmap; std::vector<u16> adv; std::map<std::pair<u32, u32>, int> kern; std::vector<Glyph> glyphs; std::string family, subfamily, full, ps; std::vector<u32> chars; std::vector<Bytes> cs, lsubr, gsubr; Layout lay[2];
};
void apply_lookup(const Look& l, std::vector<u32>& glyphs, std::vector<u32>& clusters);
void apply_lookup(const Look& l, const std::vector<u32>& glyphs, std::vector<GlyphPos>& pos);
std::set<u32> plan_of(const Layout& l, const std::map<u32, u32>& settings);   // all features of the font have to be in `settings`
void cff_outline(const Font& f, u32 glyph, BLPath& out);   // reference interpreter of the charstrings that are generated
Font random_font(Rng& r);                         // generated
Font real_font(Rng& r);                           // one of the files in checks/data
void serialize(Rng& r, Font& f, bool ttc);        // tables -> data, random order of tables
void damage(Rng& r, Font& f, const Font& other, std::string* desc);   // damages tables (and re-serializes) or the file
}

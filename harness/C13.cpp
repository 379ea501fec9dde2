// C13: the file header and the serialisation primitives round-trip; the layout is the documented little-endian one.
#include "sym.h"
#include "header.h"
#include <sstream>
#include <cstring>
using dyscostman::Header; using dyscostman::GenericColumnHeader;
static uint64_t le(const std::string &s, size_t at, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)(unsigned char)s[at + i] << (8 * i); return v; }
#ifndef LENS
#define LENS 0, 1, 15, 16, 33
#endif
static std::string anyString(const char *name) { static const unsigned lens[] = {LENS}; unsigned n = lens[sym_choice(sizeof(lens) / sizeof(lens[0]), "length")]; std::string s(n, ' '); for (unsigned i = 0; i < n; i++) s[i] = (char)sym_u8(name); return s; }
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool eq = true; for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i]; return eq; }
static Header anyHeader(const std::string &name) {
  Header h; h.headerSize = sym_u32("headerSize"); h.columnHeaderOffset = sym_u32("columnHeaderOffset"); h.columnCount = sym_u32("columnCount"); h.storageManagerName = name;
  h.rowsPerBlock = sym_u32("rowsPerBlock"); h.antennaCount = sym_u32("antennaCount"); h.blockSize = sym_u32("blockSize"); h.versionMajor = (uint16_t)sym_make(16, "major"); h.versionMinor = (uint16_t)sym_make(16, "minor");
  h.dataBitCount = sym_u8("dataBits"); h.weightBitCount = sym_u8("weightBits"); h.distribution = sym_u8("distribution"); h.normalization = sym_u8("normalization"); uint64_t a = sym_u64("nu"), b = sym_u64("truncation"); memcpy(&h.studentTNu, &a, 8); memcpy(&h.distributionTruncation, &b, 8); return h; }
static void equal(const Header &g, const Header &h, const char *m) {
  sym_assert(g.headerSize == h.headerSize && g.columnHeaderOffset == h.columnHeaderOffset && g.columnCount == h.columnCount, m); sym_assert(same(g.storageManagerName, h.storageManagerName), m);
  sym_assert(g.rowsPerBlock == h.rowsPerBlock && g.antennaCount == h.antennaCount && g.blockSize == h.blockSize, m); sym_assert(g.versionMajor == h.versionMajor && g.versionMinor == h.versionMinor, m);
  sym_assert(g.dataBitCount == h.dataBitCount && g.weightBitCount == h.weightBitCount && g.distribution == h.distribution && g.normalization == h.normalization, m);
  sym_assert(bits_of(g.studentTNu) == bits_of(h.studentTNu) && bits_of(g.distributionTruncation) == bits_of(h.distributionTruncation), m); }
extern "C" void c13_header() {
  const std::string name = anyString("name"); Header h = anyHeader(name); std::stringstream s; h.Serialize(s); sym_assert(!s.fail(), "writing the header succeeds");
  const std::string b = s.str(); const size_t L = name.size();
  sym_assert(b.size() == 52 + L && h.calculateColumnHeaderOffset() == b.size(), "the header takes the advertised number of bytes");
  sym_assert(le(b, 0, 4) == h.headerSize && le(b, 4, 4) == h.columnHeaderOffset && le(b, 8, 4) == h.columnCount && le(b, 12, 4) == L, "layout: sizes"); bool eq = true; for (size_t i = 0; i < L; i++) eq &= b[16 + i] == name[i]; sym_assert(eq, "layout: name");
  sym_assert(le(b, 16 + L, 4) == h.rowsPerBlock && le(b, 20 + L, 4) == h.antennaCount && le(b, 24 + L, 4) == h.blockSize, "layout: block"); sym_assert(le(b, 28 + L, 2) == h.versionMajor && le(b, 30 + L, 2) == h.versionMinor, "layout: version");
  sym_assert(le(b, 32 + L, 1) == h.dataBitCount && le(b, 33 + L, 1) == h.weightBitCount && le(b, 34 + L, 1) == h.distribution && le(b, 35 + L, 1) == h.normalization, "layout: configuration"); sym_assert(le(b, 36 + L, 8) == bits_of(h.studentTNu) && le(b, 44 + L, 8) == bits_of(h.distributionTruncation), "layout: parameters");
  Serializable::SerializeToUInt32(s, 0xA1B2C3D4u); Header g; g.Unserialize(s); sym_assert(!s.fail(), "reading the header succeeds"); equal(g, h, "the header reads back as written");
  sym_assert(Serializable::UnserializeUInt32(s) == 0xA1B2C3D4u && !s.fail(), "reading consumes exactly the header"); sym_reach("header"); }
// overwriting a header with one of the same size, as is done when columns are added
extern "C" void c13_rewrite() {
  Header h = anyHeader("abc"), k = anyHeader("xyz"); std::stringstream s; h.Serialize(s); s.seekp(0, std::ios_base::beg); k.Serialize(s); sym_assert(s.str().size() == 55, "same size"); s.seekg(0, std::ios_base::beg); Header g; g.Unserialize(s); equal(g, k, "the rewritten header reads back"); sym_reach("rewrite"); }
template <typename T> static T any(const char *n) { uint64_t v = sym_make(8 * sizeof(T), n); T t; memcpy(&t, &v, sizeof(T)); return t; }
extern "C" void c13_primitives() {
  std::stringstream s; size_t len = 0; struct It { unsigned kind; uint64_t v; std::string str; }; static It it[3]; const unsigned n = 2;
  for (unsigned i = 0; i < n; i++) {
    It &x = it[i]; x.kind = (unsigned)sym_choice(10, "kind"); x.v = sym_u64("value"); const size_t before = s.str().size(); len = 0;
    switch (x.kind) {
      case 0: Serializable::SerializeToUInt64(s, x.v); len = 8; break; case 1: Serializable::SerializeToUInt32(s, (uint32_t)x.v); len = 4; break; case 2: Serializable::SerializeToUInt16(s, (uint16_t)x.v); len = 2; break; case 3: Serializable::SerializeToUInt8(s, (uint8_t)x.v); len = 1; break;
      case 4: Serializable::SerializeToBool8(s, x.v & 1); len = 1; break; case 5: { float f; uint32_t u = (uint32_t)x.v; memcpy(&f, &u, 4); Serializable::SerializeToFloat(s, f); len = 4; break; } case 6: { double d; memcpy(&d, &x.v, 8); Serializable::SerializeToDouble(s, d); len = 8; break; }
      case 7: x.str = anyString("char"); Serializable::SerializeToString(s, x.str); len = 8 + x.str.size(); break; case 8: x.str = anyString("char"); Serializable::SerializeTo32bString(s, x.str); len = 4 + x.str.size(); break;
      default: { GenericColumnHeader g; g.columnHeaderSize = (uint32_t)x.v; g.Serialize(s); len = g.calculateSize(); sym_assert(len == 4, "size of the generic column header"); } }
    const std::string b = s.str(); sym_assert(b.size() == before + len, "bytes used"); const unsigned w = x.kind == 7 ? 8 : x.kind == 8 ? 4 : (unsigned)len; const uint64_t want = x.kind >= 7 && x.kind <= 8 ? x.str.size() : x.kind == 4 ? x.v & 1 : w == 8 ? x.v : x.v & ((1ull << (8 * w)) - 1); sym_assert(le(b, before, w) == want, "little endian"); }
  for (unsigned i = 0; i < n; i++) {
    It &x = it[i]; const char *m = "the value reads back"; std::string r("previous");
    switch (x.kind) {
      case 0: sym_assert(Serializable::UnserializeUInt64(s) == x.v, m); break; case 1: sym_assert(Serializable::UnserializeUInt32(s) == (uint32_t)x.v, m); break; case 2: sym_assert(Serializable::UnserializeUInt16(s) == (uint16_t)x.v, m); break; case 3: sym_assert(Serializable::UnserializeUInt8(s) == (uint8_t)x.v, m); break;
      case 4: sym_assert(Serializable::UnserializeBool8(s) == (bool)(x.v & 1), m); break; case 5: { float f; uint32_t u = (uint32_t)x.v; memcpy(&f, &u, 4); float g = (float)Serializable::UnserializeFloat(s); sym_assert(f != f ? g != g : bits_of(g) == u, m); break; }
      case 6: sym_assert(bits_of(Serializable::UnserializeDouble(s)) == x.v, m); break; case 7: Serializable::UnserializeString(s, r); sym_assert(same(r, x.str), m); break; case 8: Serializable::Unserialize32bString(s, r); sym_assert(same(r, x.str), m); break;
      default: { GenericColumnHeader g; g.Unserialize(s); sym_assert(g.columnHeaderSize == (uint32_t)x.v, m); } } }
  sym_assert(!s.fail(), "all values are read"); sym_reach("primitives"); }

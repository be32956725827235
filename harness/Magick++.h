#pragma once
// ---- stand-in for Magick++, which records the images made and what was done to them, in order
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
struct Picture { size_t w, h; std::string map, file, done; std::vector<uint8_t> px; std::vector<uint16_t> px16; size_t sw = 0, sh = 0; }; static std::vector<Picture> pictures; static int picture_fails = 0; static int pictures_alive = 0; static std::string picture_there;
namespace Magick
{
enum StorageType { UndefinedPixel, CharPixel, ShortPixel };
enum CompositeOperator { UndefinedCompositeOp, PlusCompositeOp };
struct Geometry { size_t w, h; Geometry(size_t w, size_t h) : w(w), h(h) {} };
struct Image
{
    Picture p; Image() { p.w = p.h = 0; ++pictures_alive; } Image(const Image& o) : p(o.p) { ++pictures_alive; } ~Image() { --pictures_alive; }
    Image(size_t w, size_t h, const std::string& m, StorageType t, const void* px) { ++pictures_alive; p.w = w; p.h = h; p.map = m; msym_assert((t == CharPixel || t == ShortPixel) && m == "I", "gray pixels"); if (t == CharPixel) p.px.assign((const uint8_t*)px, (const uint8_t*)px + w * h); else p.px16.assign((const uint16_t*)px, (const uint16_t*)px + w * h); }
    void write(const std::string& f) { if (picture_fails) throw std::runtime_error("cannot write"); p.file = f; pictures.push_back(p); } void display() { write("X11"); }
    void read(const std::string& f) { if (f != picture_there) throw std::runtime_error("cannot read"); p.file = f; p.w = p.h = 7; }
    void normalize() { p.done += "n"; } void rotate(double a) { msym_assert(a == 180.0, "rotated by half a turn"); p.done += "r"; } void scale(const Geometry& g) { p.done += "s"; p.sw = g.w; p.sh = g.h; } void composite(const Image& o, ssize_t x, ssize_t y, CompositeOperator op) { msym_assert(x == 0 && y == 0 && op == PlusCompositeOp, "added"); p.done += "c" + o.p.file; }
};
}

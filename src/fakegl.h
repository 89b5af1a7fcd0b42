// A stand-in for OpenGL: carries out in software what aux-gl.cpp asks of it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace fakegl
{
// Forgets everything and gives a black screen of W x H.
void reset (int w, int h);
void resize (int w, int h);
// The pixels of the screen, top row first, as 0xRRGGBB.
const std::vector<uint32_t> &screen ();
// What was done that OpenGL does not allow or leaves undefined ("" if nothing).
std::string misuse ();
// Textures that are neither deleted nor yet to be created.
int textures ();
int quads ();
}

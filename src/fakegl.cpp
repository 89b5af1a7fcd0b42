// A stand-in for OpenGL (see fakegl.h). Objects, vertex attributes, textures,
// blending and the drawing of triangles follow the OpenGL specification; the
// shaders are not compiled: they are taken for what those of aux-gl.cpp are, a
// position in pixels of the window and a colour, times a texture if so asked,
// and the role of each attribute is found by its type and use.
#define GL_GLEXT_PROTOTYPES 1
#include <GL/gl.h>
#include <GL/glext.h>
#include "fakegl.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using std::map;
using std::string;
using std::vector;

namespace
{
struct Attr { bool on = false; int size = 4; int stride = 0; size_t off = 0; GLuint buf = 0; };
struct Tex { int w = 0, h = 0; vector<uint8_t> rgba; GLint wrapS = GL_REPEAT, wrapT = GL_REPEAT, mag = GL_LINEAR, min = GL_NEAREST_MIPMAP_LINEAR; };
struct Shader { GLenum type; string src; };
struct Program { vector<GLuint> shaders; bool linked = false; string pos, color, coord, win, use, sampler; map<string, vector<double>> uni; map<string, int> loc; map<int, string> name; map<string, int> bound; };
struct State
{
  int W = 0, H = 0;
  vector<double> fb; // r,g,b,a of the pixels, bottom row first
  vector<uint32_t> shown;
  map<GLuint, vector<uint8_t>> bufs;
  map<GLuint, Tex> texs;
  map<GLuint, Shader> shaders;
  map<GLuint, Program> progs;
  map<GLuint, map<int, Attr>> vaos;
  map<GLuint, GLuint> vaoElem;
  GLuint vao = 0, arrayBuf = 0, prog = 0;
  int unit = 0;
  map<int, GLuint> bound;
  bool blend = false, scissor = false;
  GLenum src = GL_ONE, dst = GL_ZERO, srcA = GL_ONE, dstA = GL_ZERO, eq = GL_FUNC_ADD;
  int vp[4] = { 0, 0, 0, 0 }, sc[4] = { 0, 0, 0, 0 };
  double clear[4] = { 0, 0, 0, 0 };
  GLenum err = GL_NO_ERROR;
  int unpackAlign = 4, unpackRow = 0;
  string misuse;
  int quads = 0;
} S;
// What was set up when the program was first used: a case begins with this.
struct Setup { bool have = false; map<GLuint, vector<uint8_t>> bufs; map<GLuint, map<int, Attr>> vaos; map<GLuint, GLuint> vaoElem; GLuint vao, arrayBuf; } B;

void
bad (const string &what, GLenum err = GL_NO_ERROR)
{
  if (S.misuse == "")
    S.misuse = what;
  if (err != GL_NO_ERROR && S.err == GL_NO_ERROR)
    S.err = err;
}
template <class T> GLuint
fresh (map<GLuint, T> &m)
{
  GLuint i = 1; // the lowest unused name, as drivers do
  while (m.count (i))
    i++;
  m[i];
  return i;
}
GLuint &
elem ()
{
  return S.vaoElem[S.vao];
}
vector<uint8_t> *
target (GLenum t)
{
  GLuint b = t == GL_ARRAY_BUFFER ? S.arrayBuf : elem ();
  if (!S.bufs.count (b))
    {
      bad ("data for a buffer while none is bound", GL_INVALID_OPERATION);
      return nullptr;
    }
  return &S.bufs[b];
}
Tex *
boundTex ()
{
  GLuint t = S.bound[S.unit];
  if (!S.texs.count (t))
    {
      bad ("an operation on a texture while none (or one that was deleted) is bound", GL_INVALID_OPERATION);
      return nullptr;
    }
  return &S.texs[t];
}
void
store (Tex &t, int x0, int y0, int w, int h, GLenum format, GLenum type, const void *p)
{
  if (type != GL_UNSIGNED_BYTE || (format != GL_BGRA && format != GL_RGBA && format != GL_RGB && format != GL_BGR))
    {
      bad ("a format of pixels that the stand-in does not know");
      return;
    }
  int n = format == GL_BGRA || format == GL_RGBA ? 4 : 3;
  bool swap = format == GL_BGRA || format == GL_BGR;
  int row = (S.unpackRow ? S.unpackRow : w) * n;
  row = (row + S.unpackAlign - 1) / S.unpackAlign * S.unpackAlign;
  if (x0 < 0 || y0 < 0 || x0 + w > t.w || y0 + h > t.h)
    {
      bad ("pixels outside of a texture", GL_INVALID_VALUE);
      return;
    }
  if (p)
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++)
        {
          const uint8_t *s = (const uint8_t *) p + (size_t) y * row + (size_t) x * n;
          uint8_t *d = &t.rgba[((size_t) (y0 + y) * t.w + (x0 + x)) * 4];
          d[0] = s[swap ? 2 : 0], d[1] = s[1], d[2] = s[swap ? 0 : 2], d[3] = n == 4 ? s[3] : 255;
        }
}
Program *
current ()
{
  if (!S.progs.count (S.prog))
    {
      bad ("no program is in use", GL_INVALID_OPERATION);
      return nullptr;
    }
  return &S.progs[S.prog];
}
void
link (Program &p)
{
  string vs, fs;
  for (auto s : p.shaders)
    (S.shaders[s].type == GL_VERTEX_SHADER ? vs : fs) += S.shaders[s].src;
  std::regex decl ("\\b(in|attribute|uniform)\\s+(?:(?:lowp|mediump|highp)\\s+)?(vec2|vec3|vec4|int|float|bool|sampler2D|mat4)\\s+(\\w+)\\s*;");
  vector<string> v2;
  auto scan = [&] (const string &src, bool vertex) {
    for (std::sregex_iterator i (src.begin (), src.end (), decl), e; i != e; ++i)
      {
        string how = (*i)[1], type = (*i)[2], name = (*i)[3];
        if (how == "uniform")
          {
            if (type == "vec2")
              p.win = name;
            else if (type == "sampler2D")
              p.sampler = name;
            else if (type == "int" || type == "float" || type == "bool")
              p.use = name;
          }
        else if (!vertex)
          continue;
        else if (type == "vec4" && p.color == "")
          p.color = name;
        else
          v2.push_back (name);
        if (how == "uniform" || vertex)
          if (!p.loc.count (name))
            {
              int n = how == "uniform" ? 100 : 0;
              if (how != "uniform" && p.bound.count (name))
                n = p.bound[name];
              else
                while (p.name.count (n))
                  n++;
              p.loc[name] = n;
              p.name[n] = name;
            }
      }
  };
  scan (vs, true);
  scan (fs, false);
  std::smatch m;
  string expr = std::regex_search (vs, m, std::regex ("gl_Position\\s*=([^;]*);")) ? m[1].str () : "";
  for (auto &n : v2)
    if (std::regex_search (expr, std::regex ("\\b" + n + "\\b")) && p.pos == "")
      p.pos = n;
    else
      p.coord = n;
  p.linked = p.pos != "" && p.color != "" && p.coord != "" && p.win != "" && p.use != "";
  if (!p.linked)
    bad ("shaders that the stand-in does not understand");
}
double
factor (GLenum f, const double *s, const double *d, int i)
{
  switch (f)
    {
    case GL_ZERO: return 0;
    case GL_ONE: return 1;
    case GL_SRC_ALPHA: return s[3];
    case GL_ONE_MINUS_SRC_ALPHA: return 1 - s[3];
    case GL_DST_ALPHA: return d[3];
    case GL_ONE_MINUS_DST_ALPHA: return 1 - d[3];
    case GL_SRC_COLOR: return s[i];
    case GL_ONE_MINUS_SRC_COLOR: return 1 - s[i];
    case GL_DST_COLOR: return d[i];
    case GL_ONE_MINUS_DST_COLOR: return 1 - d[i];
    }
  bad ("a blending factor that the stand-in does not know");
  return 1;
}
void
put (int x, int y, const double *s)
{
  if (x < 0 || y < 0 || x >= S.W || y >= S.H)
    return;
  if (S.scissor && (x < S.sc[0] || y < S.sc[1] || x >= S.sc[0] + S.sc[2] || y >= S.sc[1] + S.sc[3]))
    return;
  double *d = &S.fb[((size_t) y * S.W + x) * 4], o[4];
  for (int i = 0; i < 4; i++)
    {
      o[i] = S.blend ? s[i] * factor (i < 3 ? S.src : S.srcA, s, d, i) + d[i] * factor (i < 3 ? S.dst : S.dstA, s, d, i) : s[i];
      o[i] = floor (std::min (std::max (o[i], 0.), 1.) * 255 + .5) / 255;
    }
  memcpy (d, o, sizeof o);
}
void
sample (const Tex &t, double u, double v, double *out)
{
  auto wrap = [] (int i, int n, GLint mode) { return mode == GL_REPEAT ? ((i % n) + n) % n : std::min (std::max (i, 0), n - 1); };
  double x = u * t.w - .5, y = v * t.h - .5;
  bool nearest = t.mag == GL_NEAREST;
  if (nearest)
    x = floor (x + .5), y = floor (y + .5);
  int x0 = (int) floor (x), y0 = (int) floor (y);
  double fx = x - x0, fy = y - y0;
  for (int i = 0; i < 4; i++)
    out[i] = 0;
  for (int j = 0; j < 2; j++)
    for (int k = 0; k < 2; k++)
      {
        double w = (k ? fx : 1 - fx) * (j ? fy : 1 - fy);
        if (w == 0)
          continue;
        const uint8_t *p = &t.rgba[((size_t) wrap (y0 + j, t.h, t.wrapT) * t.w + wrap (x0 + k, t.w, t.wrapS)) * 4];
        for (int i = 0; i < 4; i++)
          out[i] += w * p[i] / 255.;
      }
}
struct V { double x, y, c[4], u, v; };
void
fetch (const Program &p, const string &name, GLuint i, double *out, int want)
{
  const double dflt[4] = { 0, 0, 0, 1 };
  for (int k = 0; k < want; k++)
    out[k] = dflt[k];
  Attr &a = S.vaos[S.vao][p.loc.at (name)];
  if (!a.on)
    {
      bad ("something is drawn while the attribute " + name + " of its vertices is not given");
      return;
    }
  if (!S.bufs.count (a.buf))
    {
      bad ("the attribute " + name + " is taken from no buffer", GL_INVALID_OPERATION);
      return;
    }
  auto &b = S.bufs[a.buf];
  size_t at = a.off + (size_t) i * (size_t) (a.stride ? a.stride : a.size * 4);
  if (at + (size_t) a.size * 4 > b.size ())
    {
      bad ("a vertex beyond the end of its buffer");
      return;
    }
  if (a.size < std::min (want, name == p.color ? 4 : 2))
    bad ("the attribute " + name + " has too few components");
  for (int k = 0; k < a.size && k < want; k++)
    {
      float f;
      memcpy (&f, &b[at + (size_t) k * 4], 4);
      out[k] = f;
    }
}
void
triangle (const V &a, const V &b0, const V &c0, bool tex)
{
  V b = b0, c = c0;
  auto area = [] (double ax, double ay, double bx, double by, double px, double py) { return (bx - ax) * (py - ay) - (by - ay) * (px - ax); };
  double A = area (a.x, a.y, b.x, b.y, c.x, c.y);
  if (A == 0)
    return;
  if (A < 0)
    {
      std::swap (b, c);
      A = -A;
    }
  const Tex *t = nullptr;
  if (tex)
    {
      GLuint n = S.bound[0];
      if (!S.texs.count (n))
        {
          bad ("a texture is drawn while none (or one that was deleted) is bound");
          return;
        }
      t = &S.texs[n];
      if (t->w == 0 || (t->min != GL_LINEAR && t->min != GL_NEAREST))
        {
          bad ("an incomplete texture is drawn");
          return;
        }
    }
  auto top = [] (const V &p, const V &q) { return (p.y == q.y && q.x < p.x) || q.y < p.y; };
  int x0 = (int) floor (std::min ({ a.x, b.x, c.x })), x1 = (int) ceil (std::max ({ a.x, b.x, c.x }));
  int y0 = (int) floor (std::min ({ a.y, b.y, c.y })), y1 = (int) ceil (std::max ({ a.y, b.y, c.y }));
  for (int y = std::max (y0, 0); y < std::min (y1, S.H); y++)
    for (int x = std::max (x0, 0); x < std::min (x1, S.W); x++)
      {
        double px = x + .5, py = y + .5;
        double w0 = area (b.x, b.y, c.x, c.y, px, py), w1 = area (c.x, c.y, a.x, a.y, px, py), w2 = area (a.x, a.y, b.x, b.y, px, py);
        const double e = 1e-9;
        auto in = [&] (double w, const V &p, const V &q) { return w > e || (w >= -e && top (p, q)); };
        if (!in (w0, b, c) || !in (w1, c, a) || !in (w2, a, b))
          continue;
        w0 /= A, w1 /= A, w2 /= A;
        double s[4];
        for (int i = 0; i < 4; i++)
          s[i] = w0 * a.c[i] + w1 * b.c[i] + w2 * c.c[i];
        if (t)
          {
            double k[4];
            sample (*t, w0 * a.u + w1 * b.u + w2 * c.u, w0 * a.v + w1 * b.v + w2 * c.v, k);
            for (int i = 0; i < 4; i++)
              s[i] *= k[i];
          }
        for (int i = 0; i < 4; i++)
          s[i] = std::min (std::max (s[i], 0.), 1.);
        put (x, y, s);
      }
}
void
draw (GLenum mode, const vector<GLuint> &idx)
{
  Program *p = current ();
  if (!p || !p->linked)
    return;
  if (S.eq != GL_FUNC_ADD)
    bad ("a blending equation that the stand-in does not know");
  auto &win = p->uni[p->win];
  if (win.size () != 2 || win[0] <= 0 || win[1] <= 0)
    {
      bad ("the size of the window is not given");
      return;
    }
  auto &use = p->uni[p->use];
  bool tex = use.size () && use[0] != 0;
  vector<V> v;
  for (auto i : idx)
    {
      V x;
      double q[4];
      fetch (*p, p->pos, i, q, 2);
      double nx = q[0] / win[0] * 2 - 1, ny = q[1] / win[1] * -2 + 1;
      x.x = S.vp[0] + (nx + 1) / 2 * S.vp[2];
      x.y = S.vp[1] + (ny + 1) / 2 * S.vp[3];
      // single precision leaves the grid by little
      x.x = round (x.x * 256) / 256, x.y = round (x.y * 256) / 256;
      fetch (*p, p->color, i, x.c, 4);
      fetch (*p, p->coord, i, q, 2);
      x.u = q[0], x.v = q[1];
      v.push_back (x);
    }
  S.quads++;
  for (size_t i = 0; i + 2 < v.size () + 0; i += mode == GL_TRIANGLES ? 3 : 1)
    if (mode == GL_TRIANGLES || (mode == GL_TRIANGLE_STRIP && i % 2 == 0))
      triangle (v[i], v[i + 1], v[i + 2], tex);
    else if (mode == GL_TRIANGLE_STRIP)
      triangle (v[i + 1], v[i], v[i + 2], tex);
    else if (mode == GL_TRIANGLE_FAN)
      triangle (v[0], v[i + 1], v[i + 2], tex);
    else
      {
        bad ("a kind of primitive that the stand-in does not know");
        return;
      }
}
}

namespace fakegl
{
void
resize (int w, int h)
{
  S.W = w, S.H = h;
  S.fb.assign ((size_t) w * (size_t) h * 4, .3);
}
void
reset (int w, int h)
{
  // The program keeps the names of its shaders and buffers for good.
  S.texs.clear ();
  S.bound.clear ();
  S.misuse = "";
  S.err = GL_NO_ERROR;
  S.quads = 0;
  if (B.have)
    {
      S.bufs = B.bufs, S.vaos = B.vaos, S.vaoElem = B.vaoElem, S.vao = B.vao, S.arrayBuf = B.arrayBuf;
      S.blend = S.scissor = false;
      S.unit = 0;
      for (auto &p : S.progs)
        p.second.uni.clear ();
    }
  resize (w, h);
}
const vector<uint32_t> &
screen ()
{
  S.shown.assign ((size_t) S.W * (size_t) S.H, 0);
  for (int y = 0; y < S.H; y++)
    for (int x = 0; x < S.W; x++)
      {
        const double *d = &S.fb[((size_t) (S.H - 1 - y) * S.W + x) * 4];
        uint32_t v = 0;
        for (int i = 0; i < 3; i++)
          v = v << 8 | (uint32_t) lround (d[i] * 255);
        S.shown[(size_t) y * S.W + x] = v;
      }
  return S.shown;
}
string misuse () { return S.misuse; }
int textures () { return (int) S.texs.size (); }
int quads () { return S.quads; }
}

static bool dummy;
extern "C" {
GLenum glGetError (void) { GLenum e = S.err; S.err = GL_NO_ERROR; return e; }
// Buffers and vertices.
void glGenBuffers (GLsizei n, GLuint *p) { for (int i = 0; i < n; i++) p[i] = fresh (S.bufs); }
void glDeleteBuffers (GLsizei n, const GLuint *p) { for (int i = 0; i < n; i++) S.bufs.erase (p[i]); }
void glBindBuffer (GLenum t, GLuint b)
{
  if (b && !S.bufs.count (b))
    bad ("a buffer that does not exist is bound", GL_INVALID_OPERATION);
  (t == GL_ARRAY_BUFFER ? S.arrayBuf : elem ()) = b;
}
void glBufferData (GLenum t, GLsizeiptr n, const void *p, GLenum)
{
  if (auto b = target (t))
    {
      b->assign ((size_t) n, 0);
      if (p)
        memcpy (b->data (), p, (size_t) n);
    }
}
void glBufferSubData (GLenum t, GLintptr o, GLsizeiptr n, const void *p)
{
  if (auto b = target (t))
    {
      if ((size_t) (o + n) > b->size ())
        return bad ("data beyond the end of a buffer", GL_INVALID_VALUE);
      memcpy (b->data () + o, p, (size_t) n);
    }
}
void glGenVertexArrays (GLsizei n, GLuint *p) { for (int i = 0; i < n; i++) p[i] = fresh (S.vaos); }
void glDeleteVertexArrays (GLsizei n, const GLuint *p) { for (int i = 0; i < n; i++) S.vaos.erase (p[i]); }
void glBindVertexArray (GLuint v) { S.vao = v; }
void glEnableVertexAttribArray (GLuint i) { S.vaos[S.vao][(int) i].on = true; }
void glDisableVertexAttribArray (GLuint i) { S.vaos[S.vao][(int) i].on = false; }
void glVertexAttribPointer (GLuint i, GLint size, GLenum type, GLboolean, GLsizei stride, const void *off)
{
  if (type != GL_FLOAT)
    bad ("a type of attribute that the stand-in does not know");
  Attr &a = S.vaos[S.vao][(int) i];
  a.size = size, a.stride = stride, a.off = (size_t) off, a.buf = S.arrayBuf;
}
void glDrawElements (GLenum mode, GLsizei n, GLenum type, const void *off)
{
  GLuint e = elem ();
  if (!S.bufs.count (e))
    return bad ("elements are drawn without a buffer of elements", GL_INVALID_OPERATION);
  size_t sz = type == GL_UNSIGNED_INT ? 4 : type == GL_UNSIGNED_SHORT ? 2 : 1;
  auto &b = S.bufs[e];
  if ((size_t) off + (size_t) n * sz > b.size ())
    return bad ("elements beyond the end of their buffer", GL_INVALID_OPERATION);
  vector<GLuint> idx;
  for (int i = 0; i < n; i++)
    {
      GLuint v = 0;
      memcpy (&v, &b[(size_t) off + (size_t) i * sz], sz);
      idx.push_back (v);
    }
  draw (mode, idx);
}
void glDrawArrays (GLenum mode, GLint first, GLsizei n)
{
  vector<GLuint> idx;
  for (int i = 0; i < n; i++)
    idx.push_back ((GLuint) (first + i));
  draw (mode, idx);
}
// Shaders.
GLuint glCreateShader (GLenum t) { GLuint i = fresh (S.shaders); S.shaders[i].type = t; return i; }
void glShaderSource (GLuint s, GLsizei n, const GLchar *const *p, const GLint *len)
{
  S.shaders[s].src = "";
  for (int i = 0; i < n; i++)
    S.shaders[s].src += len && len[i] >= 0 ? string (p[i], (size_t) len[i]) : string (p[i]);
}
void glCompileShader (GLuint) {}
void glGetShaderiv (GLuint, GLenum what, GLint *v) { *v = what == GL_COMPILE_STATUS ? GL_TRUE : 0; }
void glGetShaderInfoLog (GLuint, GLsizei, GLsizei *n, GLchar *) { if (n) *n = 0; }
void glDeleteShader (GLuint) {}
GLuint glCreateProgram (void) { return fresh (S.progs); }
void glAttachShader (GLuint p, GLuint s) { S.progs[p].shaders.push_back (s); }
void glDetachShader (GLuint, GLuint) {}
void glLinkProgram (GLuint p) { link (S.progs[p]); }
void glGetProgramiv (GLuint, GLenum what, GLint *v) { *v = what == GL_LINK_STATUS || what == GL_VALIDATE_STATUS ? GL_TRUE : 0; }
void glGetProgramInfoLog (GLuint, GLsizei, GLsizei *n, GLchar *) { if (n) *n = 0; }
void glValidateProgram (GLuint) {}
void glDeleteProgram (GLuint p) { S.progs.erase (p); }
void glUseProgram (GLuint p)
{
  if (p && !S.progs.count (p)) 
    bad ("a program that does not exist is used", GL_INVALID_VALUE);
  S.prog = p;
  if (!B.have)
    B.have = true, B.bufs = S.bufs, B.vaos = S.vaos, B.vaoElem = S.vaoElem, B.vao = S.vao, B.arrayBuf = S.arrayBuf;
}
void glBindAttribLocation (GLuint p, GLuint i, const GLchar *n) { S.progs[p].bound[n] = (int) i; }
void glBindFragDataLocation (GLuint, GLuint, const GLchar *) {}
GLint glGetAttribLocation (GLuint p, const GLchar *n) { auto &m = S.progs[p].loc; return m.count (n) && m[n] < 100 ? m[n] : -1; }
GLint glGetUniformLocation (GLuint p, const GLchar *n) { auto &m = S.progs[p].loc; return m.count (n) && m[n] >= 100 ? m[n] : -1; }
static void uni (GLint l, vector<double> v)
{
  if (l == -1)
    return;
  if (Program *p = current ())
    {
      if (!p->name.count (l))
        return bad ("a uniform that does not exist is set", GL_INVALID_OPERATION);
      p->uni[p->name[l]] = v;
    }
}
void glUniform1i (GLint l, GLint a) { uni (l, { (double) a }); }
void glUniform1f (GLint l, GLfloat a) { uni (l, { a }); }
void glUniform2f (GLint l, GLfloat a, GLfloat b) { uni (l, { a, b }); }
void glUniform2i (GLint l, GLint a, GLint b) { uni (l, { (double) a, (double) b }); }
void glUniform2fv (GLint l, GLsizei, const GLfloat *p) { uni (l, { p[0], p[1] }); }
// Textures.
void glActiveTexture (GLenum t) { S.unit = (int) (t - GL_TEXTURE0); }
void glGenTextures (GLsizei n, GLuint *p) { for (int i = 0; i < n; i++) p[i] = fresh (S.texs); }
void glDeleteTextures (GLsizei n, const GLuint *p)
{
  for (int i = 0; i < n; i++)
    {
      if (p[i] && !S.texs.count (p[i]))
        bad ("a texture is deleted which does not exist");
      S.texs.erase (p[i]);
      for (auto &b : S.bound)
        if (b.second == p[i])
          b.second = 0;
    }
}
void glBindTexture (GLenum, GLuint t)
{
  if (t && !S.texs.count (t))
    bad ("a texture is bound that does not exist", GL_INVALID_OPERATION);
  S.bound[S.unit] = t;
}
void glTexParameteri (GLenum, GLenum what, GLint v)
{
  if (Tex *t = boundTex ())
    (what == GL_TEXTURE_WRAP_S ? t->wrapS : what == GL_TEXTURE_WRAP_T ? t->wrapT : what == GL_TEXTURE_MAG_FILTER ? t->mag : t->min) = v;
}
void glTexParameterf (GLenum a, GLenum what, GLfloat v) { glTexParameteri (a, what, (GLint) v); }
void glTexImage2D (GLenum, GLint, GLint, GLsizei w, GLsizei h, GLint, GLenum f, GLenum type, const void *p)
{
  if (w < 0 || h < 0)
    return bad ("a texture of negative size", GL_INVALID_VALUE);
  if (Tex *t = boundTex ())
    {
      t->w = w, t->h = h;
      t->rgba.assign ((size_t) w * (size_t) h * 4, 0);
      store (*t, 0, 0, w, h, f, type, p);
    }
}
void glTexSubImage2D (GLenum, GLint, GLint x, GLint y, GLsizei w, GLsizei h, GLenum f, GLenum type, const void *p)
{
  if (Tex *t = boundTex ())
    store (*t, x, y, w, h, f, type, p);
}
void glPixelStorei (GLenum what, GLint v)
{
  if (what == GL_UNPACK_ALIGNMENT)
    S.unpackAlign = v;
  else if (what == GL_UNPACK_ROW_LENGTH)
    S.unpackRow = v;
}
// The screen.
void glViewport (GLint x, GLint y, GLsizei w, GLsizei h) { S.vp[0] = x, S.vp[1] = y, S.vp[2] = w, S.vp[3] = h; }
void glScissor (GLint x, GLint y, GLsizei w, GLsizei h) { S.sc[0] = x, S.sc[1] = y, S.sc[2] = w, S.sc[3] = h; }
void glClearColor (GLfloat r, GLfloat g, GLfloat b, GLfloat a) { S.clear[0] = r, S.clear[1] = g, S.clear[2] = b, S.clear[3] = a; }
void glClear (GLbitfield m)
{
  if (m & GL_COLOR_BUFFER_BIT)
    for (size_t i = 0; i < S.fb.size (); i++)
      S.fb[i] = S.clear[i % 4];
}
void glEnable (GLenum c) { (c == GL_SCISSOR_TEST ? S.scissor : c == GL_BLEND ? S.blend : dummy) = true; }
void glDisable (GLenum c) { (c == GL_SCISSOR_TEST ? S.scissor : c == GL_BLEND ? S.blend : dummy) = false; }
void glBlendFunc (GLenum s, GLenum d) { S.src = S.srcA = s, S.dst = S.dstA = d; }
void glBlendFuncSeparate (GLenum s, GLenum d, GLenum sa, GLenum da) { S.src = s, S.dst = d, S.srcA = sa, S.dstA = da; }
void glBlendEquation (GLenum e) { S.eq = e; }
void glFlush (void) {}
void glFinish (void) {}
}

// C20 scalar notations, C21 string utilities, C22 paths and URIs, C29 user data.
#include "aux-ginga.h"
#include "pbt.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace pbt;

static string
rndstr (Case &c, const string &alphabet, int lo, int hi)
{
  string s;
  int n = (int) c.src.range (lo, hi);
  for (int i = 0; i < n; i++)
    s += alphabet[c.src.draw (alphabet.size ())];
  return s;
}
static const string ALNUM = "abcxyzABCXYZ0189";
static const string PRINT = "ab Z09_-.:;!?#%&()[]<>/\\+*@~^|$\"'`";

static string
spaces (Case &c)
{
  return c.src.chance (1, 3) ? rndstr (c, " \t\n", 1, 3) : "";
}
static string
fmt (const char *f, ...)
{
  char b[600];
  va_list ap;
  va_start (ap, f);
  vsnprintf (b, sizeof b, f, ap);
  va_end (ap);
  return b;
}
static string
recase (Case &c, string s)
{
  for (auto &ch : s)
    if (c.src.chance (1, 2))
      ch = (char) (isupper ((unsigned char) ch) ? tolower (ch) : toupper (ch));
  return s;
}
static string
join (const vector<string> &v, const string &sep)
{
  string s;
  for (size_t i = 0; i < v.size (); i++)
    s += (i ? sep : "") + v[i];
  return s;
}
static string
show (const list<string> &v)
{
  string s = "[";
  for (auto &x : v)
    s += "'" + x + "' ";
  return s + "]";
}

// ---------------------------------------------------------------- C20
static void
t_bool (Case &c)
{
  bool want = c.src.chance (1, 2);
  bool valid = c.src.chance (2, 3);
  string s = recase (c, want ? "true" : "false");
  if (!valid)
    switch (c.src.draw (4))
      {
      case 0: s += rndstr (c, ALNUM, 1, 3); break;
      case 1: s = rndstr (c, ALNUM, 1, 3) + s; break;
      case 2: s = s.substr (0, c.src.draw (s.size ())); break;
      default: s = c.src.pick (vector<string>{ "0", "1", "yes", "no", "t", "f", "" });
      }
  c.desc << "bool '" << s << "'";
  bool r = !want, r0 = r;
  bool ok = try_parse_bool (s, &r);
  c.eq (ok, valid, "bool-accept", "acceptance");
  c.eq (r, valid ? want : r0, "bool-value", "value");
  c.eq (try_parse_bool (s, nullptr), valid, "bool-null", "acceptance without result");
  if (valid)
    c.eq (parse_bool (s), want, "bool-asserted", "parse_bool");
}
struct Named { const char *n; int r, g, b; };
static const Named NAMED[] = { { "black", 0, 0, 0 }, { "white", 255, 255, 255 }, { "red", 255, 0, 0 },
  { "lime", 0, 255, 0 }, { "blue", 0, 0, 255 }, { "yellow", 255, 255, 0 }, { "cyan", 0, 255, 255 },
  { "magenta", 255, 0, 255 }, { "orange", 255, 165, 0 }, { "pink", 255, 192, 203 }, { "gold", 255, 215, 0 },
  { "navy", 0, 0, 128 }, { "salmon", 250, 128, 114 }, { "tomato", 255, 99, 71 } };
static void
t_color (Case &c)
{
  double r, g, b, a = 1;
  string s;
  int k = (int) c.src.draw (6);
  double tol = 1e-6;
  if (k == 0)
    {
      auto &n = NAMED[c.src.draw (sizeof NAMED / sizeof *NAMED)];
      s = recase (c, n.n);
      r = n.r / 255., g = n.g / 255., b = n.b / 255.;
    }
  else if (k == 1)
    {
      int R = (int) c.src.draw (256), G = (int) c.src.draw (256), B = (int) c.src.draw (256);
      s = fmt (c.src.chance (1, 2) ? "#%02x%02x%02x" : "#%02X%02X%02X", R, G, B);
      r = R / 255., g = G / 255., b = B / 255.;
    }
  else if (k == 2)
    {
      int R = (int) c.src.draw (16), G = (int) c.src.draw (16), B = (int) c.src.draw (16);
      s = fmt ("#%x%x%x", R, G, B);
      r = R / 15., g = G / 15., b = B / 15.;
    }
  else if (k == 3)
    {
      int R = (int) c.src.draw (256), G = (int) c.src.draw (256), B = (int) c.src.draw (256);
      s = fmt (c.src.chance (1, 2) ? "rgb(%d,%d,%d)" : "rgb( %d , %d , %d )", R, G, B);
      r = R / 255., g = G / 255., b = B / 255.;
    }
  else if (k == 4)
    {
      int R = (int) c.src.draw (256), G = (int) c.src.draw (256), B = (int) c.src.draw (256),
          A = (int) c.src.draw (101);
      s = fmt ("rgba(%d,%d,%d,%d.%02d)", R, G, B, A / 100, A % 100);
      r = R / 255., g = G / 255., b = B / 255., a = A / 100.;
    }
  else
    {
      s = "";
      r = g = b = a = 0;
    }
  bool valid = c.src.chance (3, 4);
  if (!valid)
    switch (c.src.draw (4))
      {
      case 0: s = "no" + rndstr (c, "qxz", 2, 6); break;
      case 1: s = "#" + rndstr (c, "0123abc", 1, 2) ; break;
      case 2: s = "#12345g"; break;
      default: s = "rgb(1,2"; break;
      }
  c.desc << "color '" << s << "'";
  Color col = { 7, 7, 7, 7 };
  bool ok = try_parse_color (s, &col);
  c.eq (ok, valid, "color-accept", "acceptance of '" + s + "'");
  if (!valid)
    return;
  c.check (fabs (col.red - r) < tol && fabs (col.green - g) < tol && fabs (col.blue - b) < tol
               && fabs (col.alpha - a) < tol,
           "color-value", fmt ("'%s' parsed as %g %g %g %g, expected %g %g %g %g", s.c_str (), col.red,
                               col.green, col.blue, col.alpha, r, g, b, a));
  Color col2 = parse_color (s);
  c.check (gdk_rgba_equal (&col, &col2), "color-asserted", "parse_color differs");
}
static void
t_list (Case &c)
{
  char sep = c.src.pick (vector<char>{ ',', ';', ' ', '=', ':' });
  int n = (int) c.src.range (1, 6);
  vector<string> items, raw;
  for (int i = 0; i < n; i++)
    {
      string in;
      if (sep == ' ')
        in = rndstr (c, ALNUM, 1, 5);
      else
        {
          in = rndstr (c, ALNUM, i + 1 == n ? 1 : 0, 5);
          if (in.size () > 1 && c.src.chance (1, 3))
            in.insert (1, " ");
        }
      items.push_back (in);
      raw.push_back (sep == ' ' ? in : spaces (c) + in + spaces (c));
    }
  string s = join (raw, string (1, sep));
  size_t lo = (size_t) c.src.draw (8), hi = lo + (size_t) c.src.draw (4);
  if (c.src.chance (1, 2))
    lo = hi = (size_t) n;
  bool valid = lo <= (size_t) n && (size_t) n <= hi;
  c.desc << "list '" << s << "' sep '" << sep << "' " << lo << ".." << hi;
  list<string> got = { "before" }, want = { "before" };
  if (valid)
    want.insert (want.end (), items.begin (), items.end ());
  c.eq (try_parse_list (s, sep, lo, hi, &got), valid, "list-accept", "acceptance");
  c.check (got == want, "list-items", "items " + show (got) + ", expected " + show (want));
  c.eq (try_parse_list (s, sep, lo, hi, nullptr), valid, "list-null", "acceptance without result");
  if (valid)
    c.check (parse_list (s, sep, lo, hi) == list<string> (items.begin (), items.end ()), "list-asserted",
             "parse_list differs");
}
static void
t_table (Case &c)
{
  int n = (int) c.src.range (0, 5);
  map<string, string> want;
  vector<string> fields;
  for (int i = 0; i < n; i++)
    {
      string k = rndstr (c, "abcdefgh", 1, 3) + to_string (i);
      char q = c.src.chance (1, 2) ? '\'' : '"';
      string v = rndstr (c, string ("abc 019_-.:;!?#%&()[]{}<>/\\+*@~^|$,=,") + (q == '"' ? '\'' : '"'), 0, 8);
      want[k] = v;
      fields.push_back (spaces (c) + k + spaces (c) + "=" + spaces (c) + q + v + q + spaces (c));
    }
  bool valid = true, built = false;
  string s;
  if (c.src.chance (1, 3))
    {
      valid = false;
      switch (c.src.draw (8))
        {
        case 7: fields.insert (fields.begin () + (long) c.src.draw (fields.size () + 1), "k='a' b"); break;
        case 0: fields.insert (fields.begin () + (long) c.src.draw (fields.size () + 1), "k=v"); break;
        case 1: fields.insert (fields.begin () + (long) c.src.draw (fields.size () + 1), "k'v'"); break;
        case 2: fields.push_back ("k='v\""); break;
        case 3: fields.insert (fields.begin () + (long) c.src.draw (fields.size () + 1), "k='a'='b'"); break;
        case 4: fields.push_back ("k='"); break;
        case 5: s = join (fields, ","), s = c.src.chance (1, 2) ? "{" + s : s + "}", built = true; break;
        default: s = c.src.pick (vector<string>{ "", "{", "}", "()", "x" }), built = true;
        }
    }
  if (!built)
    s = spaces (c) + "{" + join (fields, ",") + (fields.empty () ? "" : spaces (c)) + "}" + spaces (c);
  c.desc << "table " << s;
  map<string, string> got = { { "before", "x" } };
  bool ok = try_parse_table (s, &got);
  c.eq (ok, valid, "table-accept", "acceptance of " + s);
  if (valid)
    {
      c.check (got == want, "table-value", "wrong entries for " + s);
      c.check (parse_table (s) == want, "table-asserted", "parse_table differs");
    }
  else
    c.check (got.size () == 1 && got.count ("before"), "table-touched", "result changed upon failure");
}
static void
t_time (Case &c)
{
  string s;
  double want; // ns
  int k = (int) c.src.draw (4);
  if (k <= 1)
    {
      guint64 ms = c.src.draw (c.src.chance (1, 2) ? 5000 : 100000000);
      want = (double) ms * 1e6;
      s = ms % 1000 == 0 && c.src.chance (1, 2) ? fmt ("%llu", (unsigned long long) ms / 1000)
                                             : fmt ("%llu.%03llu", (unsigned long long) ms / 1000,
                                                    (unsigned long long) ms % 1000);
      if (k)
        s += "s";
    }
  else
    {
      int h = (int) c.src.draw (30), m = (int) c.src.draw (60), sec = (int) c.src.draw (60),
          ms = c.src.chance (1, 2) ? (int) c.src.draw (1000) : 0;
      want = ((h * 3600. + m * 60 + sec) * 1000 + ms) * 1e6;
      s = fmt (c.src.chance (1, 2) ? "%02d:%02d:%02d" : "%d:%d:%d", h, m, sec);
      if (ms)
        s += fmt (".%03d", ms);
    }
  string pad = c.src.chance (1, 5) ? " \n" : "";
  bool valid = c.src.chance (3, 4);
  string v = s;
  if (!valid)
    switch (c.src.draw (6))
      {
      case 0: s += rndstr (c, "xqs", 1, 2) + "z"; break;
      case 1: s = "1:2"; break;
      case 2: s = "1:2:3:4"; break;
      case 3: s = s + "ms"; break;
      case 4: s = "1:02:03x"; break;
      default: s = c.src.pick (vector<string>{ "x", "s1", "1s2", "one", "1h" }); break;
      }
  s += pad;
  c.desc << "time '" << s << "'";
  Time t = 12345;
  bool ok = try_parse_time (s, &t);
  c.eq (ok, valid, "time-accept", "acceptance of '" + s + "'");
  if (!valid)
    {
      c.eq (t, (Time) 12345, "time-touched", "result upon failure");
      return;
    }
  c.check (fabs ((double) t - want) <= 1000, "time-value",
           fmt ("'%s' parsed as %.0f ns, expected %.0f ns", s.c_str (), (double) t, want));
  c.eq (parse_time (s), t, "time-asserted", "parse_time");
}
static void
t_percent (Case &c)
{
  bool perc = c.src.chance (1, 2);
  long m = c.src.range (0, c.src.chance (1, 5) ? 9000000000LL : 3000) - (c.src.chance (1, 2) ? 500 : 0);
  int frac = c.src.chance (1, 3) ? (int) c.src.draw (100) : 0;
  // avoid exact halves, where the rounding direction would be a convention
  double x = (double) m + (m < 0 ? -1 : 1) * frac / 100.;
  string s = fmt ("%.2f", x);
  if (!frac)
    s = fmt ("%ld", m);
  if (perc)
    s += "%";
  int base = (int) c.src.draw (4000);
  int lo = (int) c.src.range (0, 100) - (int) c.src.draw (200), hi = lo + (int) c.src.draw (4000);
  if (c.src.chance (1, 4))
    lo = G_MININT, hi = G_MAXINT;
  c.desc << "percent '" << s << "' base " << base << " in [" << lo << "," << hi << "]";
  double exact = perc ? x * base / 100 : x;
  double cl = exact < lo ? lo : exact > hi ? hi : exact;
  int got = parse_percent (s, base, lo, hi);
  c.check (got >= lo && got <= hi, "percent-range", "out of range: " + to_string (got));
  c.check (fabs (got - cl) <= 0.5 + 1e-3, "percent-value", fmt ("%s: got %d, expected about %g", s.c_str (), got, cl));
  int p = parse_pixel (s);
  double e2 = perc ? x * 255 / 100 : x;
  e2 = e2 < 0 ? 0 : e2 > 255 ? 255 : e2;
  c.check (fabs (p - e2) <= 0.5 + 1e-3, "pixel-value", fmt ("%s: got %d, expected about %g", s.c_str (), p, e2));
  bool isp = !perc;
  double num = xstrtodorpercent (s, &isp);
  c.eq (isp, perc, "percent-flag", "percent flag of " + s);
  c.check (fabs (num - (perc ? x / 100 : x)) < 1e-6 * (1 + fabs (x)), "percent-number", fmt ("%s: got %.17g", s.c_str (), num));
  c.eq (xstrispercent (s), perc, "ispercent", "xstrispercent " + s);
}
static RegP c20 (Property{
    "C20", "the string is well formed, or differs from a well-formed one by one fault",
    [] (Case &c) {
      c.nontrivial = true;
      switch (c.src.draw (6))
        {
        case 0: c.cls ("bool"); t_bool (c); break;
        case 1: c.cls ("color"); t_color (c); break;
        case 2: c.cls ("list"); t_list (c); break;
        case 3: c.cls ("table"); t_table (c); break;
        case 4: c.cls ("time"); t_time (c); break;
        default: c.cls ("percent"); t_percent (c); break;
        }
    },
    400000, 4000000,
    { "colours are spelled as CSS names, #rgb, #rrggbb, rgb() or rgba(); table keys contain no comma, '=' or quote and values no quote of their own kind" } });

// ---------------------------------------------------------------- C21
typedef __int128 i128;
static i128
powi (int b, int e)
{
  i128 r = 1;
  while (e--)
    r *= b;
  return r;
}
static string
digits (i128 v, int base, bool up)
{
  if (v == 0)
    return "0";
  string s;
  while (v > 0)
    {
      int d = (int) (v % base);
      s.insert (s.begin (), (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10));
      v /= base;
    }
  return s;
}
static void
t_ints (Case &c)
{
  int base = (int) c.src.pick (vector<int>{ 10, 16, 8, 2, 36 });
  i128 mag;
  static const guint64 LIM[] = { 0, 127, 128, 255, 256, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull,
                                 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
  if (c.src.chance (2, 3))
    mag = (i128) LIM[c.src.draw (12)] + (i128) c.src.draw (5) - 2;
  else
    mag = (i128) c.src.draw (10000000000000ull) >> c.src.draw (40);
  if (c.src.chance (1, 10))
    mag = powi (10, (int) c.src.range (20, 25));
  if (mag < 0)
    mag = 0;
  bool neg = c.src.chance (1, 3) && mag > 0;
  string tail = c.src.chance (1, 5) ? c.src.pick (vector<string>{ " ", "!", ".5", "%", " 7" }) : "";
  string s = (c.src.chance (1, 6) ? "  " : "") + string (neg ? "-" : "") + digits (mag, base, c.src.chance (1, 2)) + tail;
  c.desc << "int '" << s << "' base " << base;
  i128 v = neg ? -mag : mag;
  auto cl = [] (i128 x, i128 lo, i128 hi) { return x < lo ? lo : x > hi ? hi : x; };
  auto eq = [&] (i128 got, i128 want, const char *w) {
    c.check (got == want, w, string (w) + " of '" + s + "': got " + (got < 0 ? "-" : "") + digits (got < 0 ? -got : got, 10, false)
                              + ", expected " + (want < 0 ? "-" : "") + digits (want < 0 ? -want : want, 10, false));
  };
  guint8 b8 = (guint8) base;
  eq (xstrtoint (s, b8), cl (v, G_MININT, G_MAXINT), "xstrtoint");
  eq (xstrtoint8 (s, b8), cl (v, G_MININT8, G_MAXINT8), "xstrtoint8");
  eq (xstrtoint64 (s, b8), cl (v, G_MININT64, G_MAXINT64), "xstrtoint64");
  gint64 i64 = 99;
  c.check (_xstrtoll (s, &i64, (guint) base), "_xstrtoll", "rejected " + s);
  eq (i64, cl (v, G_MININT64, G_MAXINT64), "_xstrtoll");
  if (!neg)
    {
      eq (xstrtouint (s, b8), cl (v, 0, G_MAXUINT), "xstrtouint");
      eq (xstrtouint8 (s, b8), cl (v, 0, G_MAXUINT8), "xstrtouint8");
      eq ((i128) xstrtouint64 (s, b8), cl (v, 0, (i128) G_MAXUINT64), "xstrtouint64");
      guint64 u64 = 99;
      c.check (_xstrtoull (s, &u64, (guint) base), "_xstrtoull", "rejected " + s);
      eq ((i128) u64, cl (v, 0, (i128) G_MAXUINT64), "_xstrtoull");
    }
  string bad = c.src.pick (vector<string>{ "", "!", " ", "--1", "$", "+", "." });
  gint64 keep = 77;
  guint64 keepu = 77;
  double keepd = 77;
  c.check (!_xstrtoll (bad, &keep, (guint) base) && keep == 77, "_xstrtoll-reject", "'" + bad + "' accepted");
  c.check (!_xstrtoull (bad, &keepu, (guint) base) && keepu == 77, "_xstrtoull-reject", "'" + bad + "' accepted");
  c.check (!_xstrtod (bad, &keepd) && keepd == 77, "_xstrtod-reject", "'" + bad + "' accepted");
  c.check (_xstrtoll ("5", nullptr, 10) && _xstrtoull ("5", nullptr, 10) && _xstrtod ("5", nullptr), "null-result", "null result");
}
static void
t_double (Case &c)
{
  gint64 m = (gint64) c.src.draw (2000001) - 1000000;
  int e = (int) c.src.range (0, 6);
  double want = (double) m / pow (10, e);
  string s = fmt ("%.*f", e, want);
  if (c.src.chance (1, 4))
    s += c.src.pick (vector<string>{ "px", " ", "%", "q" });
  c.desc << "double '" << s << "'";
  double got = 0;
  c.check (_xstrtod (s, &got), "_xstrtod", "rejected " + s);
  c.check (fabs (got - want) <= 1e-9 * (1 + fabs (want)), "_xstrtod-value", fmt ("%s: got %.17g", s.c_str (), got));
  c.check (fabs (xstrtod (s) - want) <= 1e-9 * (1 + fabs (want)), "xstrtod-value", s);
  double a = want, d = pow (10, -(double) c.src.range (1, 9)) * (c.src.chance (1, 2) ? 1 : 3),
         eps = pow (10, -(double) c.src.range (1, 9));
  if (fabs (d - eps) > eps * .01 && fabs (a) < 1000)
    {
      c.eq (floateq (a, a + d, eps), d < eps, "floateq", fmt ("floateq(%g,+%g,%g)", a, d, eps));
      c.eq (floateq (a + d, a, -eps), d < eps, "floateq-sym", "floateq symmetric");
    }
}
static void
t_text (Case &c)
{
  string a = rndstr (c, PRINT, 0, 12), b = rndstr (c, PRINT, 0, 12);
  if (c.src.chance (1, 2))
    {
      size_t k = c.src.draw (a.size () + 1);
      b = c.src.chance (1, 2) ? a.substr (0, k) : a.substr (k);
      if (c.src.chance (1, 3) && b.size ())
        b[c.src.draw (b.size ())] ^= 1;
    }
  c.desc << "text '" << a << "' '" << b << "'";
  bool pre = b.size () <= a.size () && a.compare (0, b.size (), b) == 0;
  bool suf = b.size () <= a.size () && a.compare (a.size () - b.size (), b.size (), b) == 0;
  c.eq (xstrhasprefix (a, b), pre, "prefix", "'" + a + "' starts with '" + b + "'");
  c.eq (xstrhassuffix (a, b), suf, "suffix", "'" + a + "' ends with '" + b + "'");
  auto low = [] (string s) { for (auto &x : s) x = (char) tolower ((unsigned char) x); return s; };
  string A = recase (c, a);
  c.check (xstrcasecmp (a, A) == 0 && xstrcaseeq (A, a), "casecmp-eq", "'" + a + "' and '" + A + "'");
  int w = low (a).compare (low (b)), g = xstrcasecmp (a, b);
  c.check ((w < 0) == (g < 0) && (w > 0) == (g > 0), "casecmp-order", "'" + a + "' vs '" + b + "': " + to_string (g));
  // strip
  string ws1 = rndstr (c, " \t\n\r\f", 0, 3), ws2 = rndstr (c, " \t\n\r\f", 0, 3);
  string core = rndstr (c, ALNUM, 0, 3) + rndstr (c, " \tx", 0, 3) + rndstr (c, ALNUM, 0, 3);
  while (core.size () && strchr (" \t", core.front ()))
    core.erase (0, 1);
  while (core.size () && strchr (" \t", core.back ()))
    core.pop_back ();
  c.eq (xstrstrip (ws1 + core + ws2), core, "strip", "xstrstrip");
  // split and join
  char sep = c.src.pick (vector<char>{ ',', ';', ' ', '\n', 'x' });
  int n = (int) c.src.range (0, 5);
  vector<string> v;
  for (int i = 0; i < n; i++)
    v.push_back (rndstr (c, "ab ;,", i + 1 == n ? 1 : 0, 3));
  for (auto &x : v)
    x.erase (remove (x.begin (), x.end (), sep), x.end ());
  if (n && v.back () == "")
    v.back () = "q";
  auto sp = xstrsplit (join (v, string (1, sep)), sep);
  c.check (sp == list<string> (v.begin (), v.end ()), "split", show (sp) + " from '" + join (v, string (1, sep)) + "'");
  // formatting
  string big = string ((size_t) c.src.draw (3000), 'z') + a;
  int num = (int) c.src.draw (100000) - 50000;
  string want = "<" + big + "|" + to_string (num) + ">";
  c.eq (xstrbuild ("<%s|%d>", big.c_str (), num), want, "build", "xstrbuild");
  string out = "old";
  int len = xstrassign (out, "<%s|%d>", big.c_str (), num);
  c.eq (out, want, "assign", "xstrassign");
  c.eq ((size_t) len, want.size (), "assign-length", "length");
}
static RegP c21 (Property{
    "C21", "always (every case checks several operations on generated text)",
    [] (Case &c) {
      c.nontrivial = true;
      switch (c.src.draw (3))
        {
        case 0: c.cls ("integers"); t_ints (c); break;
        case 1: c.cls ("reals"); t_double (c); break;
        default: c.cls ("text"); t_text (c); break;
        }
    },
    400000, 4000000,
    { "unsigned conversions are given non-negative numerals; text is ASCII" } });

// ---------------------------------------------------------------- C22
static string
pathseg (Case &c, bool odd)
{
  string s;
  do
    s = rndstr (c, odd ? string ("ab.-_ %#?&+~'\"é") : string ("abc123_"), 1, 6);
  while (s == "." || s == "..");
  return s;
}
static string
normjoin (const string &a, const string &b)
{
  string x = a, y = b;
  while (x.size () > 1 && x.back () == '/')
    x.pop_back ();
  while (y.size () && y.front () == '/')
    y.erase (0, 1);
  if (x == "/")
    return "/" + y;
  return x + "/" + y;
}
static void
writefile (const string &p, const string &d)
{
  ofstream o (p, ios::binary);
  o << d;
}
static void
t_path (Case &c)
{
  bool odd = c.src.chance (1, 2);
  int n = (int) c.src.range (1, 4);
  string rel;
  vector<string> segs;
  for (int i = 0; i < n; i++)
    segs.push_back (pathseg (c, odd));
  rel = join (segs, "/");
  string base;
  int m = (int) c.src.range (1, 3);
  for (int i = 0; i < m; i++)
    base += "/" + pathseg (c, odd);
  string baseslash = base + (c.src.chance (1, 3) ? "/" : "");
  c.desc << "base '" << baseslash << "' rel '" << rel << "'";
  string cwd = c.tmpdir;
  c.check (chdir (cwd.c_str ()) == 0, "harness", "chdir");
  char buf[4096];
  cwd = getcwd (buf, sizeof buf);
  // classification
  c.check (xpathisabs (base) && !xpathisabs (rel), "isabs", "absolute");
  c.check (!xpathisuri (base), "isuri-path", "absolute path taken for an URI: " + base);
  // taking apart what was put together
  string full = xpathbuild (baseslash, rel);
  c.eq (full, normjoin (base, rel), "build", "xpathbuild");
  c.eq (xpathbasename (full), segs.back (), "basename", "basename of " + full);
  string dir = base;
  for (int i = 0; i + 1 < n; i++)
    dir += "/" + segs[(size_t) i];
  c.eq (xpathdirname (full), dir, "dirname", "dirname of " + full);
  c.eq (xpathmakeabs (full), full, "makeabs-abs", "absolute path kept");
  c.eq (xpathmakeabs (rel), normjoin (cwd, rel), "makeabs-rel", "relative path");
  c.eq (xpathbuildabs (baseslash, rel), normjoin (base, rel), "buildabs", "xpathbuildabs");
  c.eq (xpathbuildabs (".", rel), normjoin (cwd, rel), "buildabs-dot", "xpathbuildabs from .");
  string relbase = pathseg (c, odd);
  c.eq (xpathbuildabs (relbase, rel), normjoin (cwd, normjoin (relbase, rel)), "buildabs-rel", "relative base");
  // URIs
  string scheme = rndstr (c, "abcxyz", 1, 1) + rndstr (c, "abc09+-.", 1, 5);
  string uri = scheme + ":" + c.src.pick (vector<string>{ "//host/p", "/p", "opaque", "" });
  c.check (xpathisuri (uri), "isuri", uri + " not taken for an URI");
  c.check (!xpathisuri (string (1, scheme[0]) + ":/x"), "isuri-drive", "drive letter taken for an URI");
  if (rel.find (':') == string::npos)
    c.check (!xpathisuri (rel), "isuri-rel", "'" + rel + "' taken for an URI");
  c.eq (xurifromsrc (uri, base), uri, "uri-kept", "URI kept");
  for (auto &pr : vector<pair<string, string> >{ { full, "abs" }, { rel, "rel" } })
    {
      string u = xurifromsrc (pr.first, pr.second == "abs" ? string ("/elsewhere") : baseslash);
      c.check (xpathisuri (u) && u.compare (0, 8, "file:///") == 0, "uri-form", "'" + u + "' is not a file URI");
      c.eq (xpathfromuri (u), normjoin (base, rel), "uri-roundtrip", "path of " + u);
      for (unsigned char ch : u)
        c.check (ch > 32 && ch < 127 && !strchr ("\"#?<>", ch), "uri-escaped", "unescaped character in " + u);
      c.eq (xurifromsrc (u, base), u, "uri-idempotent", "URI kept");
    }
  c.eq (xpathfromuri (xurifromsrc (rel, ".")), normjoin (cwd, rel), "uri-dot", "URI from .");
}
static void
t_contents (Case &c)
{
  string name = pathseg (c, true), data;
  int k = (int) c.src.draw (4);
  size_t n = k == 0 ? 0 : k == 1 ? 1 + c.src.draw (20) : k == 2 ? 4000 + c.src.draw (300) : c.src.draw (100000);
  uint64_t x = c.src.draw (1u << 30);
  bool zeros = c.src.chance (1, 2);
  for (size_t i = 0; i < n; i++)
    {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      data += (char) (zeros && (x >> 40) % 7 == 0 ? 0 : x >> 56);
    }
  c.desc << "contents " << n << " bytes in '" << name << "'";
  string p = c.tmpdir + "/" + name;
  writefile (p, data);
  string got = "before";
  c.check (xurigetcontents (xurifromsrc (p, ""), got), "contents", "cannot read " + p);
  c.check (got == data, "contents-bytes", "got " + to_string (got.size ()) + " bytes, expected " + to_string (n));
  got = "before";
  c.check (!xurigetcontents (p, got) && got == "before", "contents-path", "a path was accepted as an URI");
  c.check (!xurigetcontents (xurifromsrc (p + "-no", ""), got) && got == "before", "contents-missing", "missing file");
  c.check (!xurigetcontents (xurifromsrc (c.tmpdir, ""), got) && got == "before", "contents-dir", "directory");
}
static RegP c22 (Property{
    "C22", "always (paths of 1-4 generated segments, half of them with characters that need escaping)",
    [] (Case &c) {
      c.nontrivial = true;
      if (c.src.chance (1, 4))
        c.cls ("contents"), t_contents (c);
      else
        c.cls ("paths"), t_path (c);
    },
    200000, 3000000,
    { "path segments are not empty, '.' or '..'" } });

// ---------------------------------------------------------------- C29
static map<void *, int> cleaned;
static void cleanA (void *p) { cleaned[p] += 1; }
static void cleanB (void *p) { cleaned[p] += 100; }
static RegP c29 (Property{
    "C29", "some key is set at least twice or removed",
    [] (Case &c) {
      struct Ent { char *v; int how; };
      map<string, Ent> model;
      map<void *, int> want;
      cleaned.clear ();
      vector<char> cells (400);
      size_t next = 0;
      {
        UserData u;
        int n = (int) c.src.range (1, 3 + c.size / 2);
        for (int i = 0; i < n; i++)
          {
            string k = "k" + to_string (c.src.draw (4));
            int op = (int) c.src.draw (4);
            if (op == 0)
              {
                void *g = &u;
                bool has = model.count (k);
                c.desc << "get " << k << "; ";
                c.eq (u.getData (k, &g), has, "get", "getData " + k);
                c.check (g == (has ? (void *) model[k].v : (void *) &u), "get-value", "value of " + k);
                c.eq (u.getData (k, nullptr), has, "get-null", "getData " + k + " without result");
              }
            else if (op == 1)
              {
                c.desc << "remove " << k << "; ";
                if (model.count (k))
                  {
                    c.nontrivial = true;
                    if (model[k].how)
                      want[model[k].v] += model[k].how;
                    model.erase (k);
                  }
                c.eq (u.setData (k, nullptr), false, "remove", "removing " + k);
              }
            else
              {
                char *v = &cells[next++ % cells.size ()];
                int how = c.src.pick (vector<int>{ 0, 1, 100 });
                c.desc << "set " << k << " cleanup " << how << "; ";
                bool had = model.count (k);
                if (had)
                  {
                    c.nontrivial = true;
                    if (model[k].how)
                      want[model[k].v] += model[k].how;
                  }
                model[k] = { v, how };
                c.eq (u.setData (k, v, how == 0 ? nullptr : how == 1 ? cleanA : cleanB), !had, "set", "setData " + k);
              }
            c.check (cleaned == want, "cleanup", "clean-up calls differ after step " + to_string (i));
          }
        for (auto &e : model)
          if (e.second.how)
            want[e.second.v] += e.second.how;
      }
      c.check (cleaned == want, "cleanup-end", "clean-up calls differ after destruction");
    },
    300000, 4000000, {} });

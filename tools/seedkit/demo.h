// Helpers of the demonstrations.
#ifndef DEMO_H
#define DEMO_H
#include "aux-ginga.h"
#include "Composition.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "ginga.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Player.h"
#include "Predicate.h"
#include "Switch.h"
#include "fakes.h"
#include <cstdio>
#include <fstream>
#include <string>
using namespace ginga;
using std::string;

static int bad = 0;
#define CHECK(c) \
  do { if (!(c)) { printf ("line %d: not %s\n", __LINE__, #c); bad = 1; } } while (0)
#define SEC GINGA_SECOND
inline void put (const string &name, const string &text)
{
  std::ofstream (name) << text;
}
// A document whose head is HEAD and whose body's contents are BODY.
inline string ncl (const string &head, const string &body)
{
  return "<ncl id='ncl0' xmlns='http://www.ncl.org.br/NCL3.0/EDTVProfile'><head>" + head
         + "</head><body id='body0'>" + body + "</body></ncl>";
}
struct Demo
{
  Formatter *f = nullptr;
  guint64 total = 0, frame = 0;
  bool start (const string &text, const string &name = "d.ncl")
  {
    put (name, text);
    f = new Formatter (nullptr);
    string err;
    if (f->start (name, &err))
      return true;
    printf ("start: %s\n", err.c_str ());
    exit (1);
  }
  Document *doc () { return f->getDocument (); }
  Object *obj (const string &id) { return doc ()->getObjectById (id); }
  Event *ev (const string &id, Event::Type t, const string &name)
  {
    auto o = obj (id);
    return o ? o->getEvent (t, name) : nullptr;
  }
  Event::State st (const string &id, Event::Type t = Event::PRESENTATION, const string &name = "@lambda")
  {
    auto e = ev (id, t, name);
    return e ? e->getState () : Event::State (-1);
  }
  bool on (const string &id) { return st (id) == Event::OCCURRING; }
  string prop (const string &id, const string &name) { return obj (id)->getProperty (name); }
  void tick (double s)
  {
    guint64 d = guint64 (s * double (SEC));
    total += d;
    f->sendTick (total, d, frame++);
  }
  void key (const string &k, bool press = true) { f->sendKey (k, press); }
};
#endif

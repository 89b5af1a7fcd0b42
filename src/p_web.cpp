// C26 (web services) and the observation of what ginga sends to other devices.
#include "lock.h"
#include "WebServices.h"
#include <algorithm>
#include <arpa/inet.h>
#include <fcntl.h>
#include <json/json.h>
#include <libsoup/soup.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace pbt;
using namespace lock;
using doc::Prof;

// Messages to other devices are recorded instead of sent. ------------------------
namespace {
struct Sent { string method, uri, body; };
vector<Sent> sent;
int serverPort, failListens;
vector<guint> listened;
}
extern "C" void
__wrap_soup_session_queue_message (SoupSession *, SoupMessage *msg, SoupSessionCallback, gpointer)
{
  if (!msg)
    return;
  char *u = soup_uri_to_string (soup_message_get_uri (msg), FALSE);
  SoupBuffer *b = soup_message_body_flatten (msg->request_body);
  if (sent.size () < 10000)
    sent.push_back ({ msg->method, u, string (b->data, b->length) });
  soup_buffer_free (b);
  g_free (u);
  g_object_unref (msg);
}
// The server listens on some free port of an address of the loopback interface
// that no other process uses, so that checks can run side by side.
static string
hostAddr ()
{
  int p = (int) getpid ();
  return "127." + std::to_string (1 + p / 62500 % 250) + "." + std::to_string (1 + p / 250 % 250) + "." + std::to_string (1 + p % 250);
}
extern "C" gboolean
__wrap_soup_server_listen_all (SoupServer *s, guint port, SoupServerListenOptions o, GError **err)
{
  listened.push_back (port);
  if (failListens > 0)
    {
      failListens--;
      g_set_error (err, G_IO_ERROR, G_IO_ERROR_ADDRESS_IN_USE, "address already in use");
      return FALSE;
    }
  string host = hostAddr ();
  GSocketAddress *a = g_inet_socket_address_new_from_string (host.c_str (), 0);
  gboolean ok = soup_server_listen (s, a, (SoupServerListenOptions) 0, err);
  g_object_unref (a);
  if (!ok)
    return FALSE;
  GSList *uris = soup_server_get_uris (s);
  serverPort = uris ? (int) soup_uri_get_port ((SoupURI *) uris->data) : 0;
  g_slist_free_full (uris, (GDestroyNotify) soup_uri_free);
  return TRUE;
}
static bool
json (const string &s, Json::Value *v)
{
  Json::CharReaderBuilder b;
  std::unique_ptr<Json::CharReader> r (b.newCharReader ());
  string e;
  return r->parse (s.data (), s.data () + s.size (), v, &e) && v->isObject ();
}
vector<string>
lock::webRemote ()
{
  vector<string> v;
  for (auto &m : sent)
    {
      Json::Value j;
      string s = m.method + " ";
      if (m.method == "POST")
        s = "";
      s += m.uri + " ";
      if (json (m.body, &j) && j["sceneNode"].isString ())
        {
          while (s.size () && (s.back () == ' ' || s.back () == '/'))
            s.pop_back ();
          s = "reg " + j["sceneNode"].asString () + " " + s;
        }
      else if (!json (m.body, &j) || !j["action"].isString ())
        s += "?" + m.body;
      else
        {
          s += j["action"].asString ();
          if (j.isMember ("properties"))
            {
              auto &p = j["properties"]["bounds"];
              for (auto n : { "top", "left", "width", "height" })
                s += " " + (p[n].isString () ? p[n].asString () : "?");
              s += " " + (j["properties"]["zIndex"].isString () ? j["properties"]["zIndex"].asString () : "?");
            }
        }
      v.push_back (s);
    }
  sent.clear ();
  return v;
}

// Requests -----------------------------------------------------------------------

namespace {
struct Reply { int status = 0; string head, body; };
// Sends raw HTTP to the server and lets it answer.
Reply
http (Case &c, int port, const string &method, const string &path, const string &body)
{
  Reply r;
  int fd = socket (AF_INET, SOCK_STREAM, 0);
  sockaddr_in a;
  memset (&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons ((uint16_t) port);
  inet_aton (hostAddr ().c_str (), &a.sin_addr);
  if (connect (fd, (sockaddr *) &a, sizeof a) != 0)
    {
      close (fd);
      return r;
    }
  fcntl (fd, F_SETFL, O_NONBLOCK);
  string out = method + " " + path + " HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: "
               + std::to_string (body.size ()) + "\r\n\r\n" + body, in;
  size_t pos = 0;
  gint64 until = g_get_monotonic_time () + 8 * G_USEC_PER_SEC;
  for (;;)
    {
      if (pos < out.size ())
        {
          ssize_t n = send (fd, out.data () + pos, out.size () - pos, MSG_NOSIGNAL);
          if (n > 0)
            pos += (size_t) n;
        }
      while (g_main_context_iteration (nullptr, FALSE))
        ;
      char b[4096];
      ssize_t n = recv (fd, b, sizeof b, 0);
      if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR))
        break;
      if (n > 0)
        in.append (b, (size_t) n);
      else if (g_get_monotonic_time () > until)
        {
          close (fd);
          c.fail ("web-no-answer", "no answer to " + method + " " + path);
        }
      else
        {
          pollfd p = { fd, POLLIN, 0 };
          poll (&p, 1, 1);
        }
    }
  close (fd);
  for (int i = 0; i < 3; i++)
    g_main_context_iteration (nullptr, FALSE);
  if (in.compare (0, 5, "HTTP/") == 0 && in.size () > 12)
    r.status = atoi (in.c_str () + 9);
  size_t k = in.find ("\r\n\r\n");
  r.head = in.substr (0, k);
  r.body = k == string::npos ? "" : in.substr (k + 4);
  return r;
}
string
header (const Reply &r, const string &name)
{
  size_t i = 0;
  while (i < r.head.size ())
    {
      size_t e = r.head.find ("\r\n", i);
      string l = r.head.substr (i, e == string::npos ? e : e - i);
      if (l.size () > name.size () && g_ascii_strncasecmp (l.c_str (), name.c_str (), name.size ()) == 0 && l[name.size ()] == ':')
        {
          size_t k = l.find_first_not_of (' ', name.size () + 1);
          return k == string::npos ? "" : l.substr (k);
        }
      if (e == string::npos)
        break;
      i = e + 2;
    }
  return "";
}
string
quote (Case &c, const string &s)
{
  string o = "\"";
  for (unsigned char ch : s)
    if (ch == '"' || ch == '\\')
      o += string ("\\") + (char) ch;
    else if (c.src.chance (1, 20))
      {
        char b[8];
        snprintf (b, sizeof b, "\\u%04x", ch);
        o += b;
      }
    else
      o += (char) ch;
  return o + "\"";
}
string
ws (Case &c)
{
  return c.src.chance (1, 5) ? c.src.pick (vector<string>{ " ", "\n", "\t", "  \r\n" }) : "";
}
// An object with the given members (already notated), in any order.
string
object (Case &c, vector<std::pair<string, string> > v)
{
  if (c.src.chance (1, 6))
    v.push_back ({ "delay", c.src.pick (vector<string>{ "0", "\"0\"", "null", "[1,{\"action\":\"select\"}]", "{\"value\":\"RED\"}", "1.5e3" }) });
  for (size_t i = v.size (); i > 1; i--)
    std::swap (v[i - 1], v[i - 1 - c.src.draw (i)]);
  string s = "{" + ws (c);
  for (size_t i = 0; i < v.size (); i++)
    s += (i ? "," + ws (c) : "") + "\"" + v[i].first + "\"" + ws (c) + ":" + ws (c) + v[i].second + ws (c);
  return s + "}" + ws (c);
}
string
malformed (Case &c, string s)
{
  switch (c.src.draw (9))
    {
    case 0: return "";
    case 1: return "[" + s + "]";
    case 2: return s.substr (0, s.find_last_of ('}'));
    case 3: return "null";
    case 4: return "\"select\"";
    case 5: return s.replace (s.find (':'), 1, "");
    case 6: return string (1 + c.src.draw (3000), '[');
    case 7:
      {
        string d;
        for (size_t i = 0, n = 1 + c.src.draw (1500); i < n; i++)
          d += "{\"action\":";
        return d;
      }
    default:
      {
        string d;
        for (size_t i = 0, n = 1 + c.src.draw (40); i < n; i++)
          d += (char) c.src.draw (256);
        return "\x01" + d;
      }
    }
}
const char *AT = "/current-service/apps/";
struct Web {
  Case &c;
  Lock &l;
  bool on = false;
  int lastPort = 0;
  unsigned wantPort = WS_PORT_DEFAULT;
  long acted = 0, refused = 0, registered = 0;

  void toggle (bool b)
  {
    c.desc << "\n   web services " << (b ? "on" : "off");
    if (b && !on)
      {
        listened.clear ();
        failListens = c.src.chance (1, 3) ? 1 + (int) c.src.draw (3) : 0;
        wantPort = WS_PORT_DEFAULT + (unsigned) failListens;
      }
    l.f->setOptionBool ("webservices", b);
    c.eq (l.f->getOptionBool ("webservices"), b, "web-option", "value of the option webservices");
    if (b && !on)
      {
        c.check (!listened.empty () && listened.back () == wantPort, "web-listen", "the services do not listen on port " + std::to_string (wantPort));
        lastPort = serverPort;
      }
    on = b;
    status ("");
  }
  void status (const string &at)
  {
    c.eq (l.f->getWebServices ()->getState () == ginga::WS_STATE_STARTED, on, "web-state", "whether the services are on" + at);
    c.eq (ssdp_log.available, on, "web-announce", "whether the services are announced" + at);
    if (on)
      c.check (!ssdp_log.locations.empty () && ssdp_log.locations.back () == "http://127.0.0.1:" + std::to_string (wantPort) + "/location",
               "web-announce", "the location announced is '" + (ssdp_log.locations.empty () ? "" : ssdp_log.locations.back ()) + "'");
  }
  bool expect (const string &what, const string &method, const string &path, const string &body, bool ok, const std::function<void ()> &model)
  {
    string show = body.size () > 300 ? body.substr (0, 300) + "..." : body;
    for (auto &ch : show)
      if ((unsigned char) ch < 32 || (unsigned char) ch > 126)
        ch = ch == '\n' ? ' ' : '?';
    return l.guarded (model, [&] {
      Reply r = http (c, lastPort, method, path, body);
      if (!on)
        c.check (r.status == 0, "web-off", "a request is answered while the services are off");
      else
        c.eq (r.status, ok ? 200 : 404, ok ? "web-refused" : "web-accepted", "status of the answer to the request (" + what + ")");
    }, "request " + what + ": " + method + " " + path + " " + show);
  }
  bool apps ()
  {
    bool play = l.playing ();
    vector<Obj *> os = l.m.objs;
    std::sort (os.begin (), os.end (), [] (Obj *a, Obj *b) { return a->id < b->id; });
    vector<Ev *> evs;
    for (auto o : os)
      for (auto e : o->evs)
        if ((e->type == Event::SELECTION || e->type == Event::LOOKAT) && o != l.m.root)
          evs.push_back (e);
    std::stable_sort (evs.begin (), evs.end (), [] (Ev *a, Ev *b) { return a->full () < b->full (); });
    Ev *e = nullptr;
    Obj *node;
    string action, iface, value;
    bool hasIface = false, hasValue = false;
    if (evs.size () && !c.src.chance (1, 6))
      {
        e = c.src.pick (evs);
        node = e->obj;
        if (e->type == Event::SELECTION)
          action = "select", value = e->id, hasValue = value != "" || c.src.chance (1, 2);
        else
          {
            action = c.src.chance (1, 3) ? "lookAway" : "lookAt";
            if (e->id != "@lambda" || c.src.chance (1, 3))
              iface = e->id, hasIface = true;
            else if (c.src.chance (1, 4))
              hasIface = true;
          }
      }
    else
      {
        node = c.src.pick (os);
        action = c.src.pick (vector<string>{ "select", "lookAt", "lookAway" });
        if (c.src.chance (1, 2))
          iface = c.src.pick (vector<string>{ "", "zz", "a", "L1", "@lambda" }), hasIface = true;
        if (c.src.chance (1, 2))
          value = c.src.pick (vector<string>{ "", "RED", "ENTER", "zz" }), hasValue = true;
      }
    string nodeId = node->id, app = "1", docId = "ncl";
    bool badBody = false;
    string path, vtext;
    unsigned fault = c.src.chance (1, 4) ? (unsigned) c.src.draw (11) : 99;
    switch (fault)
      {
      case 0: nodeId = "zz"; break;
      case 1: action = c.src.pick (vector<string>{ "", "Select", "lookat", "start", "selection", "lookAwayy" }); break;
      case 2: app = ""; break;
      case 3: docId = ""; break;
      case 4: nodeId += c.src.pick (vector<string>{ "/", "/x", "x" }); break;
      case 5: path = string (AT) + c.src.pick (vector<string>{ "", "1", "1/ncl", "1/ncl/", "//", "///" }); break;
      case 6: hasValue = false; value = ""; break;
      case 7: iface = "zz"; hasIface = true; break;
      case 8: vtext = c.src.pick (vector<string>{ "5", "null", "[\"RED\"]", "{}", "true" }); break;
      case 9:
      case 10: badBody = true; break;
      default: break;
      }
    if (path == "")
      path = AT + app + "/" + docId + "/" + nodeId;
    if (fault > 10 && c.src.chance (1, 10))
      app = "other", docId = "d2", path = AT + app + "/" + docId + "/" + nodeId;
    vector<std::pair<string, string> > v;
    if (action != "" || c.src.chance (1, 2))
      v.push_back ({ "action", quote (c, action) });
    if (hasIface)
      v.push_back ({ "interface", quote (c, iface) });
    if (vtext != "")
      v.push_back ({ "value", vtext }), value = "";
    else if (hasValue)
      v.push_back ({ "value", quote (c, value) });
    string body = object (c, v);
    if (badBody)
      body = malformed (c, v.empty () ? "{\"a\":1}" : body);
    // What it means.
    Obj *target = play ? l.m.byId (nodeId) : nullptr;
    Ev *t = nullptr;
    if (target && !badBody && fault != 2 && fault != 3 && fault != 5)
      {
        if (action == "select")
          t = target->find (Event::SELECTION, value);
        else if (action == "lookAt" || action == "lookAway")
          t = target->find (Event::LOOKAT, iface == "" ? "@lambda" : iface);
      }
    (t ? acted : refused)++;
    return expect (t ? "for " + t->full () : play ? "invalid" : "without a document", c.src.chance (1, 12) ? "PUT" : "POST", path, body, t != nullptr, [&] {
      if (!t || !on)
        return;
      if (action == "select")
        {
          l.m.eval (t, Event::START);
          l.m.eval (t, Event::STOP);
        }
      else
        l.m.eval (t, action == "lookAt" ? Event::START : Event::STOP);
    });
  }
  bool other ()
  {
    string path = c.src.pick (vector<string>{ "/", "/zz", "/current-service", "/apps/1/ncl/m1", "/loc", "/remote" });
    return expect ("elsewhere", "POST", path, "{}", false, [] {});
  }
  void location ()
  {
    c.desc << "\n   GET /location";
    Reply r = http (c, lastPort, "GET", "/location", "");
    c.eq (r.status, on ? 200 : 0, "web-location", "status of the answer to /location");
    if (!on)
      return;
    string at = "127.0.0.1:" + std::to_string (wantPort);
    c.eq (header (r, "GingaCC-Server-BaseURL"), "http://" + at, "web-location", "base URL");
    c.eq (header (r, "GingaCC-Server-SecureBaseURL"), "https://" + at, "web-location", "secure base URL");
    c.eq (header (r, "GingaCC-Server-PairingMethods"), string ("qcode,kex"), "web-location", "pairing methods");
  }
  // A device offers itself.
  bool device ()
  {
    static int n = 0;
    string loc = "http://10.0.0." + std::to_string (1 + c.src.draw (3)) + ":8080", type = c.src.pick (vector<string>{ "hmd", "tv2", "zz" });
    vector<string> formats, events = { "selection" };
    int k = 1 + (int) c.src.draw (2);
    for (int i = 0; i < k; i++)
      formats.push_back (c.src.pick (vector<string>{ "application/x-ncl360", "video/mp4", "application/x-ginga-timer" }));
    auto arr = [&] (const vector<string> &v) {
      string s = "[" + ws (c);
      for (size_t i = 0; i < v.size (); i++)
        s += (i ? "," : "") + quote (c, v[i]) + ws (c);
      return s + "]";
    };
    vector<std::pair<string, string> > v = { { "location", quote (c, loc) }, { "deviceType", quote (c, type) },
                                             { "supportedFormats", arr (formats) }, { "recognizableEvents", arr (events) } };
    bool valid = true;
    if (c.src.chance (1, 5))
      {
        valid = false;
        size_t i = c.src.draw (v.size ());
        switch (c.src.draw (3))
          {
          case 0: v.erase (v.begin () + (long) i); break;
          case 1: v[i].second = i < 2 ? "\"\"" : "[]"; break;
          default: v[i].second = c.src.pick (vector<string>{ "7", "null", "{}" }); break;
          }
      }
    string body = object (c, v);
    if (valid && c.src.chance (1, 8))
      valid = false, body = malformed (c, body);
    vector<Obj *> rem;
    if (l.playing () && valid)
      for (auto o : l.m.objs)
        if (o->isMedia () && l.m.usesRemote (o))
          rem.push_back (o);
    vector<string> want;
    bool ok = expect ("of a device", "POST", "/remote-mediaplayer", body, !rem.empty (), [&] {
      if (!on)
        return;
      for (auto o : rem)
        {
          bool match = o->prop ("device") == type;
          for (auto &f : formats)
            match = match || o->prop ("type") == f;
          if (match)
            {
              l.m.setProp (o, "remotePlayerBaseURL", loc, 0);
              registered++;
            }
          if (o->prop ("remotePlayerBaseURL") != "")
            l.m.rlog.push_back ("reg " + o->id + " " + loc);
        }
    });
    (void) n;
    return ok;
  }
};
}

static RegP c26 (Property{ "C26", "a request acted upon the document, or a device took part in it",
  [] (Case &c) {
    Prof p;
    p.nodes = 2 + 5 * c.size / 100;
    p.links = 2 + 4 * c.size / 100;
    p.wLook = 8;
    p.wSel = 8;
    p.wSettings = 1;
    p.port = 85;
    p.focus = 20;
    p.remote = c.src.chance (1, 2) ? 50 : 0;
    p.label = 40;
    Lock l (c);
    if (!l.load (doc::gen (c, p)))
      return;
    fakes_reset ();
    l.f = new ginga::Formatter (nullptr);
    Web w{ c, l };
    bool early = c.src.chance (1, 2);
    if (early)
      w.toggle (true);
    Ops o;
    int sessions = 1 + (int) c.src.chance (1, 4);
    bool started = true;
    for (int s = 0; s < sessions && started; s++)
      {
        bool saved = ssdp_log.available;
        SsdpLog keep = ssdp_log;
        started = s == 0 ? l.begin () : l.again ();
        if (l.discarded)
          return;
        (void) saved;
        ssdp_log = keep;
        if (!w.on && !early)
          w.toggle (true), early = true;
        int n = 3 + (int) c.src.draw ((uint64_t) (4 + c.size / 8));
        for (int i = 0; i < n && !l.discarded; i++)
          {
            switch (c.src.weighted ({ 10, 7, 1, 1, p.remote ? 4u : 1u, 1 }))
              {
              case 0: w.apps (); break;
              case 1:
                if (l.playing ())
                  l.op (o);
                break;
              case 2: w.location (); break;
              case 3: w.other (); break;
              case 4: w.device (); break;
              default:
                w.toggle (c.src.chance (1, 2));
                break;
              }
            if (l.discarded)
              return;
            w.status ("");
          }
        if (l.playing ())
          l.stop ();
        if (c.src.chance (1, 2) && !l.discarded)
          w.apps ();
      }
    c.nontrivial = w.acted > 0 || w.registered > 0;
    if (w.acted) c.cls ("acted");
    if (w.refused) c.cls ("refused");
    if (w.registered) c.cls ("device");
    if (w.on)
      {
        delete l.f;
        l.f = nullptr;
        c.check (!ssdp_log.available, "web-announce", "the services are announced after their player is gone");
        c.eq (http (c, w.lastPort, "GET", "/location", "").status, 0, "web-off", "answer after the player is gone");
      }
  }, 4000, 60000, { "gssdp is replaced by a stand-in that records the announcements; the server listens on a free loopback port instead of its own",
                    "requests to other devices are recorded instead of sent" } });

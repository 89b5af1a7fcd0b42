"""The planted bugs: dicts id, property, needs, breaks, edits [(file, old, new)], demo (body of main)."""
SEEDS = []
def seed(id, property, needs, breaks, edits, demo="", pre="", **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, pre=pre, **kw))

seed("c06-paused-anchor", "C06",
     "A media with a temporal anchor in progress is paused (which pauses the anchor) and then stopped.",
     "The paused anchor stays paused after its media has stopped, and never starts in later presentations.",
     [("lib/Object.cpp", "  for (auto evt : _events)\n    evt->reset ();", "  for (auto evt : _events)\n    if (evt->getState () == Event::OCCURRING)\n      evt->reset ();")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'/>"
                          "<media id='m'><area id='a' begin='1s' end='5s'/></media>")));
  auto lm = d.obj ("m")->getLambda ();
  d.tick (0);
  d.doc ()->evalAction (lm, Event::START);
  d.tick (2);
  CHECK (d.st ("m", Event::PRESENTATION, "a") == Event::OCCURRING);
  d.doc ()->evalAction (lm, Event::PAUSE);
  CHECK (d.st ("m", Event::PRESENTATION, "a") == Event::PAUSED);
  d.doc ()->evalAction (lm, Event::STOP);
  CHECK (d.st ("m", Event::PRESENTATION, "a") == Event::SLEEPING);
""")

seed("c03-ports-of-woken-context", "C03",
     "A media inside a sleeping context with ports is started directly (not through the context).",
     "The context that is woken by its child starts its ports as well.",
     [("lib/Media.cpp", "                _parent->getLambda ()->setParameter (\"fromport\", \"true\");\n                _parent->getLambda ()->transition (Event::START);",
       "                _parent->getLambda ()->transition (Event::START);")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'/>"
                          "<context id='c'><port id='q' component='m1'/><media id='m1'/><media id='m2'/></context>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m2")->getLambda (), Event::START);
  CHECK (d.on ("c") && d.on ("m2"));
  d.tick (1);
  d.tick (1);
  CHECK (d.on ("m2") && !d.on ("m1"));
""")

seed("c12-rule-component-refuses", "C12",
     "The first component of a switch whose rule holds is a switch none of whose rules holds, and a later component's rule holds too.",
     "The switch goes on to the next component instead of not starting.",
     [("lib/Switch.cpp", "                  else\n                    return false;\n", "")],
     """
  Demo d;
  CHECK (d.start (ncl ("<ruleBase><rule id='r' var='x' comparator='eq' value='1'/><rule id='s' var='x' comparator='eq' value='2'/></ruleBase>",
     "<media id='st' type='application/x-ginga-settings'><property name='x' value='1'/></media>"
     "<port id='p' component='k'/><media id='k'/>"
     "<switch id='w'><bindRule constituent='v' rule='r'/><defaultComponent component='m'/>"
     "<switch id='v'><bindRule constituent='m2' rule='s'/><media id='m2'/></switch><media id='m'/></switch>")));
  d.tick (0);
  CHECK (d.doc ()->evalAction (d.obj ("w")->getLambda (), Event::START) == 0);
  CHECK (!d.on ("w") && !d.on ("m"));
""")

seed("c04-second-condition", "C04",
     "A link has two conditions on the same event and transition under different statements, and only the later one's holds.",
     "The link is not triggered: the first condition whose statement fails hides the later ones.",
     [("lib/Document.cpp", "          if (pred != nullptr && !this->evalPredicate (pred))\n            continue;", "          if (pred != nullptr && !this->evalPredicate (pred))\n            break;")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><compoundCondition operator='or'>"
     "<compoundCondition operator='and'><simpleCondition role='onBegin'/>"
     "<assessmentStatement comparator='eq'><attributeAssessment role='x' attributeType='nodeProperty' eventType='attribution'/><valueAssessment value='1'/></assessmentStatement></compoundCondition>"
     "<compoundCondition operator='and'><simpleCondition role='b2' eventType='presentation' transition='starts'/>"
     "<assessmentStatement comparator='eq'><attributeAssessment role='y' attributeType='nodeProperty' eventType='attribution'/><valueAssessment value='1'/></assessmentStatement></compoundCondition>"
     "</compoundCondition><simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='p' component='k'/><media id='k'/>"
     "<media id='m'><property name='x' value='0'/><property name='y' value='1'/></media><media id='n'/>"
     "<link xconnector='cn'><bind role='onBegin' component='m'/><bind role='b2' component='m'/>"
     "<bind role='x' component='m' interface='x'/><bind role='y' component='m' interface='y'/><bind role='start' component='n'/></link>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  CHECK (d.on ("n"));
""")

seed("c05-context-keeps-pending", "C05",
     "A context with a pending delayed action is stopped and started again before the action's time.",
     "The action of the former presentation of the context is carried out in the next one.",
     [("lib/Object.cpp", "  _delayed.clear ();\n", "  if (!instanceof (Composition *, this))\n    _delayed.clear ();\n"),
      ("lib/Object.cpp", '#include "Context.h"', '#include "Composition.h"\n#include "Context.h"')],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><simpleCondition role='onBegin'/><simpleAction role='start' delay='3s'/></causalConnector></connectorBase>",
     "<port id='p' component='k'/><media id='k'/>"
     "<context id='c'><media id='m'/><media id='n'/><media id='o'/>"
     "<link xconnector='cn'><bind role='onBegin' component='m'/><bind role='start' component='n'/></link></context>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  d.tick (1);
  d.doc ()->evalAction (d.obj ("c")->getLambda (), Event::STOP);
  d.doc ()->evalAction (d.obj ("o")->getLambda (), Event::START);
  for (int i = 0; i < 5; i++)
    d.tick (1);
  CHECK (d.on ("o") && !d.on ("n"));
""")

seed("c08-dotted-property", "C08",
     "An action's value refers to a property whose name contains a dot (as those of the settings do).",
     "The reference is split at the last dot, so it does not resolve and the text of the reference is set instead.",
     [("lib/Document.cpp", "(i = ref.find ('.')) == string::npos", "(i = ref.rfind ('.')) == string::npos")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><connectorParam name='v'/><simpleCondition role='onBegin'/><simpleAction role='set' value='$v'/></causalConnector></connectorBase>",
     "<media id='st' type='application/x-ginga-settings'><property name='system.lang' value='pt'/></media>"
     "<port id='p' component='k'/><media id='k'/><media id='m'><property name='x' value='0'/></media>"
     "<link xconnector='cn'><bind role='onBegin' component='m'/>"
     "<bind role='set' component='m' interface='x'><bindParam name='v' value='$get'/></bind><bind role='get' component='st' interface='system.lang'/></link>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  CHECK (d.prop ("m", "x") == "pt");
""")

seed("c09-paused-selection", "C09",
     "A media that waits for a key is paused when the key is pressed.",
     "The selection is lost: only occurring medias are selected.",
     [("lib/Media.cpp", "  if (unlikely (this->isSleeping ()))\n    return; // nothing to do\n\n  if (_player == nullptr)\n    return; // nothing to do\n\n  if (press",
       "  if (unlikely (!this->isOccurring ()))\n    return; // nothing to do\n\n  if (_player == nullptr)\n    return; // nothing to do\n\n  if (press")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><simpleCondition role='onSelection' key='RED'/><simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='p' component='m'/><media id='m'/><media id='n'/>"
     "<link xconnector='cn'><bind role='onSelection' component='m'/><bind role='start' component='n'/></link>")));
  d.tick (0);
  d.tick (1);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::PAUSE);
  d.key ("RED");
  CHECK (d.on ("n"));
""")

seed("c10-paused-has-index", "C10",
     "The media with the smallest focus index is paused when another media with a focus index starts.",
     "The focus goes to the paused media, so that no occurring media has it.",
     [("lib/MediaSettings.cpp", "          if (media->isOccurring ()\n", "          if (!media->isSleeping ()\n")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'/>"
     "<media id='m1'><property name='focusIndex' value='1'/></media><media id='m2'><property name='focusIndex' value='2'/></media>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m1")->getLambda (), Event::START);
  d.tick (1);
  CHECK (d.doc ()->getSettings ()->getProperty ("service.currentFocus") == "1");
  d.doc ()->evalAction (d.obj ("m1")->getLambda (), Event::PAUSE);
  d.doc ()->evalAction (d.obj ("m2")->getLambda (), Event::START);
  d.tick (1);
  CHECK (d.doc ()->getSettings ()->getProperty ("service.currentFocus") == "2");
""")

seed("c28-animation-of-other", "C28",
     "A property is animated with a duration while an animation of another property of the same media ends earlier.",
     "When an animation is done, all the animations that were scheduled before it end too.",
     [("lib/PlayerAnimator.cpp", "  _scheduled.remove_if (isDone);", "  // Finished animations come first.\n  auto last = _scheduled.begin ();\n  for (auto it = _scheduled.begin (); it != _scheduled.end (); ++it)\n    if (isDone (*it))\n      last = std::next (it);\n  _scheduled.erase (_scheduled.begin (), last);")],
     """
  Formatter f (nullptr);
  Time now = 0;
  PlayerAnimator a (&f, &now);
  a.schedule ("left", "0", "100", 4 * SEC);
  a.schedule ("top", "0", "100", 2 * SEC);
  Rect r = { 0, 0, 10, 10 };
  Color c = { 0, 0, 0, 1 };
  guint8 alpha = 255;
  std::list<int> crop;
  for (int i = 1; i <= 4; i++)
    {
      now = i * SEC;
      a.update (&r, &c, &alpha, &crop);
      CHECK (r.x == 25 * i);
      CHECK (r.y == (i < 2 ? 50 : 100));
    }
""", pre='#include "PlayerAnimator.h"\n')

seed("c21-unsigned-saturation", "C21",
     "A numeral above the limit of a narrow unsigned type is converted to it.",
     "The value is truncated before it is compared with the limit, so it wraps instead of saturating.",
     [("lib/aux-ginga.cpp", "    return (g##Type) (MIN (x, Typemax)); ", "    return MIN ((g##Type) x, (g##Type) Typemax); ")],
     """
  CHECK (ginga::xstrtouint8 ("255", 10) == 255);
  CHECK (ginga::xstrtouint8 ("256", 10) == 255);
  CHECK (ginga::xstrtouint ("4294967296", 10) == 4294967295u);
""")

seed("c29-removed-entry", "C29",
     "A user datum with a clean-up function is removed and later set again, or its holder is destroyed.",
     "Overwriting a value with a clean-up function by one without keeps the former function.",
     [("lib/aux-ginga.cpp", "      _udata[key] = std::make_pair (value, fn);\n      return it == _udata.end ();",
       "      if (it != _udata.end ())\n        {\n          it->second.first = value;\n          if (fn != nullptr)\n            it->second.second = fn;\n          return false;\n        }\n      _udata[key] = std::make_pair (value, fn);\n      return true;")],
     """
  int a = 0, b = 0;
  {
    UserData u;
    u.setData ("k", &a, inc);
    u.setData ("k", &b, nullptr);
    CHECK (a == 1 && b == 0);
  }
  CHECK (a == 1 && b == 0);
""", pre="static void inc (void *p)\n{\n  ++*(int *) p;\n}\n")

seed("c11-inner-statement", "C11",
     "A simple condition lies in nested compound conditions that both have assessment statements, and only the inner one's holds.",
     "The statements of the outer compound conditions are not tested.",
     [("lib/Parser.cpp", "        pred_list.push_front (pred);\n", "        {\n          pred_list.push_front (pred);\n          if (!pred->getChildren ()->empty ())\n            break;\n        }\n")],
     """
  string st = "<assessmentStatement comparator='eq'><attributeAssessment role='x%' attributeType='nodeProperty' eventType='attribution'/><valueAssessment value='1'/></assessmentStatement>";
  string s1 = st, s2 = st;
  s1.replace (s1.find ('%'), 1, "1");
  s2.replace (s2.find ('%'), 1, "2");
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><compoundCondition operator='and'>"
     "<compoundCondition operator='and'><simpleCondition role='onBegin'/>" + s1 + "</compoundCondition>" + s2 + "</compoundCondition>"
     "<simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='p' component='k'/><media id='k'/>"
     "<media id='m'><property name='x' value='1'/><property name='y' value='0'/></media><media id='n'/>"
     "<link xconnector='cn'><bind role='onBegin' component='m'/><bind role='x1' component='m' interface='x'/>"
     "<bind role='x2' component='m' interface='y'/><bind role='start' component='n'/></link>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  CHECK (!d.on ("n"));
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::STOP);
  d.obj ("m")->setProperty ("y", "1");
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  CHECK (d.on ("n"));
""")

seed("c17-import-in-import", "C17",
     "A rule base imports a base that imports another, and the document names an element of the innermost one.",
     "The aliases of nested imports are combined in the reverse order.",
     [("lib/Parser.cpp", '    result += it.first + "#";', '    result = it.first + "#" + result;')],
     """
  put ("b2.ncl", "<ncl id='x2' xmlns='http://www.ncl.org.br/NCL3.0/EDTVProfile'><head><ruleBase><rule id='r' var='v' comparator='eq' value='1'/></ruleBase></head></ncl>");
  put ("b1.ncl", "<ncl id='x1' xmlns='http://www.ncl.org.br/NCL3.0/EDTVProfile'><head><ruleBase><importBase alias='inner' documentURI='b2.ncl'/></ruleBase></head></ncl>");
  put ("d.ncl", ncl ("<ruleBase><importBase alias='outer' documentURI='b1.ncl'/></ruleBase>",
     "<media id='st' type='application/x-ginga-settings'><property name='v' value='1'/></media>"
     "<switch id='w'><bindRule constituent='m' rule='outer#inner#r'/><media id='m'/></switch>"));
  string err;
  Document *doc = Parser::parseFile ("d.ncl", 800, 600, &err);
  printf ("%s\\n", err.c_str ());
  CHECK (doc != nullptr);
""")

seed("c14-import-cycle", "C14",
     "Two documents import each other.",
     "Only a document that imports itself directly is noticed, so the parser recurses until it crashes.",
     [("lib/Parser.cpp", "  for (auto &it : _aliasStack)\n    if (it.second == path)\n      return false;\n", "  if (!_aliasStack.empty () && _aliasStack.back ().second == path)\n    return false;\n")],
     """
  put ("b.ncl", "<ncl id='x2' xmlns='http://www.ncl.org.br/NCL3.0/EDTVProfile'><head><ruleBase><importBase alias='c' documentURI='c.ncl'/></ruleBase></head></ncl>");
  put ("c.ncl", "<ncl id='x1' xmlns='http://www.ncl.org.br/NCL3.0/EDTVProfile'><head><ruleBase><importBase alias='b' documentURI='b.ncl'/></ruleBase></head></ncl>");
  put ("d.ncl", ncl ("<ruleBase><importBase alias='b' documentURI='b.ncl'/></ruleBase>", "<media id='m'/>"));
  string err;
  CHECK (Parser::parseFile ("d.ncl", 800, 600, &err) == nullptr);
  CHECK (err != "");
""")

seed("c15-port-of-other-context", "C15",
     "A port maps a context with, as interface, the id of a port of another context.",
     "The document is accepted: the port is taken for one of the context mapped.",
     [("lib/Parser.cpp", "          if (ctx->getId () != obj->getId ())\n            goto fail;\n\n", "")],
     """
  put ("d.ncl", ncl ("", "<port id='p' component='c' interface='q2'/>"
     "<context id='c'><port id='q1' component='m1'/><media id='m1'/></context>"
     "<context id='e'><port id='q2' component='m2'/><media id='m2'/></context>"));
  string err;
  CHECK (Parser::parseFile ("d.ncl", 800, 600, &err) == nullptr);
  CHECK (err.find ("q2") != string::npos);
""")

seed("c20-table-merged", "C20",
     "A table is parsed into a map that already holds entries.",
     "The entries of the table are merged into the caller's map, whose other entries stay.",
     [("lib/aux-ginga.cpp", "  tryset (result, tab);\n  return true;\n}\n\n/**\n * Parses time", "  if (result != nullptr)\n    for (auto &it : tab)\n      (*result)[it.first] = it.second;\n  return true;\n}\n\n/**\n * Parses time")],
     """
  std::map<string, string> t;
  CHECK (ginga::try_parse_table ("{a='1',b='2'}", &t) && t.size () == 2);
  CHECK (ginga::try_parse_table ("{c='3'}", &t) && t.size () == 1 && t["c"] == "3");
""")

seed("c24-area-without-begin", "C24",
     "In a Lua table, an anchor without begin follows one with a begin.",
     "The anchor takes the begin of the former anchor.",
     [("lib/ParserLua.cpp", "  string src, str;\n  Time begin, end;\n", "  string src, str;\n  Time begin = 0, end;\n"),
      ("lib/ParserLua.cpp", "      begin = 0;\n      if ((value", "      if ((value")],
     """
  put ("d.lua", "return {'context','c',nil,{'m@lambda'},{{'media','m',nil,{{'a','2s','5s'},{'b',nil,'3s'}}}}}\\n");
  string err;
  Document *doc = ParserLua::parseFile ("d.lua", &err);
  CHECK (doc != nullptr);
  Time begin, end;
  doc->getObjectById ("m")->getEvent (Event::PRESENTATION, "b")->getInterval (&begin, &end);
  CHECK (begin == 0 && end == 3 * SEC);
  doc->getObjectById ("m")->getEvent (Event::PRESENTATION, "a")->getInterval (&begin, &end);
  CHECK (begin == 2 * SEC && end == 5 * SEC);
""")

seed("c07-duration-while-paused", "C07",
     "The duration of a media is set while the media is paused.",
     "Properties set while a media is paused do not reach its player, so it goes on with the former duration.",
     [("lib/Media.cpp", "  Object::setProperty (name, value, dur);\n\n  if (_player == nullptr)\n", "  Object::setProperty (name, value, dur);\n\n  if (_player == nullptr || this->isPaused ())\n")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'/><media id='m'><property name='explicitDur' value='10s'/></media>")));
  d.tick (0);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START);
  d.tick (1);
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::PAUSE);
  d.obj ("m")->setProperty ("explicitDur", "2s");
  d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::RESUME);
  d.tick (0.5);
  CHECK (d.on ("m"));
  d.tick (1);
  CHECK (!d.on ("m"));
""")

seed("c19-order-within-layer", "C19",
     "Medias with different z-orders and z-indexes of which the sum orders them otherwise.",
     "The z-order counts before the z-index when both differ in opposite ways.",
     [("lib/Formatter.cpp", "  if (z1 < z2)\n    return -1;\n  if (z1 > z2)\n    return 1;\n  if (zo1 < zo2)\n    return -1;\n  if (zo1 > zo2)\n    return 1;\n",
       "  if (z1 < z2 && zo1 <= zo2)\n    return -1;\n  if (z1 > z2 && zo1 >= zo2)\n    return 1;\n  if (zo1 < zo2)\n    return -1;\n  if (zo1 > zo2)\n    return 1;\n")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='m1'/><port id='q' component='m2'/>"
     "<media id='m1'><property name='zIndex' value='1'/><property name='zOrder' value='5'/><property name='background' value='red'/></media>"
     "<media id='m2'><property name='zIndex' value='2'/><property name='zOrder' value='1'/><property name='background' value='blue'/></media>")));
  d.tick (0);
  d.tick (1);
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 800, 600);
  cairo_t *cr = cairo_create (s);
  d.f->redraw (cr);
  cairo_surface_flush (s);
  guint32 px = *(guint32 *) (cairo_image_surface_get_data (s) + 300 * cairo_image_surface_get_stride (s) + 400 * 4);
  CHECK ((px & 0xffffff) == 0x0000ff);
""")

seed("c18-nested-height", "C18",
     "A region inside another one that is lower than the screen has a height in percentage.",
     "The height of an inner region is taken of the screen instead of the parent region.",
     [("lib/Parser.cpp", "      rect.height = ginga::parse_percent (str, parent.height, 0, G_MAXINT);", "      rect.height = ginga::parse_percent (str, screen.height, 0, G_MAXINT);")],
     """
  Demo d;
  CHECK (d.start (ncl ("<regionBase><region id='a' top='10%' height='50%' width='50%'><region id='b' top='0' height='50%' width='50%'/></region></regionBase>"
                       "<descriptorBase><descriptor id='e' region='b'/></descriptorBase>",
                       "<port id='p' component='k'/><media id='k' descriptor='e'/>")));
  CHECK (d.prop ("k", "height") == "25%" && d.prop ("k", "width") == "25%");
""")

seed("c25-second-post", "C25",
     "A script posts an event of another class than ncl before other events, in the same redraw.",
     "The script's queue is given up at the first event that is not of class ncl, so the ones behind it come a redraw late.",
     [("lib/PlayerLua.cpp", "          ncluaw_event_free (evt);\n          continue; // nothing to do", "          ncluaw_event_free (evt);\n          break; // nothing to do")],
     """
  put ("s.lua", "");
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='m'/><media id='m' src='s.lua'><property name='x' value='0'/></media>")));
  d.tick (0);
  d.tick (1);
  CHECK (nclua_log.size () > 0);
  string script = nclua_log.front ().path;
  CHECK (nclua_post_key (script, "press", "RED"));
  CHECK (nclua_post (script, "attribution", "start", "x", "1"));
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 800, 600);
  cairo_t *cr = cairo_create (s);
  d.f->redraw (cr);
  d.tick (1);
  CHECK (d.prop ("m", "x") == "1");
""")

seed("c26-look-away-default", "C26",
     "A lookAway request without interface comes for a node whose look-at event has been started by a request with interface @lambda or none, and the node also has look-at events of its anchors.",
     "A lookAway without interface ends nothing, although it is answered 200.",
     [("lib/WebServices.cpp", "      if (evt != nullptr)\n        doc->evalAction (evt, Event::STOP);\n", "      if (evt != nullptr)\n        {\n          if (!interface.empty ())\n            doc->evalAction (evt, Event::STOP);\n        }\n")],
     r"""
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='cn'><simpleCondition role='onLookAt'/><simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='p' component='m'/><media id='m'/><media id='n'/>"
     "<link xconnector='cn'><bind role='onLookAt' component='m'/><bind role='start' component='n'/></link>")));
  d.tick (0);
  d.tick (1);
  d.f->setOptionBool ("webservices", true);
  CHECK (ssdp_log.locations.size () > 0);
  int port = atoi (ssdp_log.locations.back ().substr (strlen ("http://127.0.0.1:")).c_str ());
  CHECK (post (port, "/current-service/apps/1/ncl/m", "{\"action\":\"lookAt\"}") == 200);
  CHECK (d.on ("n"));
  CHECK (d.st ("m", Event::LOOKAT) == Event::OCCURRING);
  CHECK (post (port, "/current-service/apps/1/ncl/m", "{\"action\":\"lookAway\"}") == 200);
  CHECK (d.st ("m", Event::LOOKAT) == Event::SLEEPING);
  d.f->setOptionBool ("webservices", false);
""", pre=r"""#include <arpa/inet.h>
#include <cstring>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
static int post (int port, const string &path, const string &body)
{
  int fd = socket (AF_INET, SOCK_STREAM, 0);
  sockaddr_in a;
  memset (&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons (port);
  inet_aton ("127.0.0.1", &a.sin_addr);
  if (connect (fd, (sockaddr *) &a, sizeof a) != 0)
    return 0;
  fcntl (fd, F_SETFL, O_NONBLOCK);
  string out = "POST " + path
               + " HTTP/1.1\r\nHost: 127.0.0.1\r\nConnection: close\r\n"
                 "Content-Length: "
               + std::to_string (body.size ()) + "\r\n\r\n" + body, in;
  if (send (fd, out.data (), out.size (), 0) != (ssize_t) out.size ())
    return 0;
  for (int i = 0; i < 5000; i++)
    {
      while (g_main_context_iteration (nullptr, FALSE))
        ;
      char b[4096];
      ssize_t n = recv (fd, b, sizeof b, 0);
      if (n == 0)
        break;
      if (n > 0)
        in.append (b, n);
      else
        usleep (1000);
    }
  close (fd);
  return in.size () > 12 ? atoi (in.c_str () + 9) : 0;
}
""")

seed("c01-counts-refused", "C01",
     "An action triggers a link one of whose actions is refused by the state of its event.",
     "The number of events reported as changed counts those that refused as well.",
     [("lib/Document.cpp", "      if (!evt->transition (act.transition))\n        continue;\n", "      if (!evt->transition (act.transition))\n        {\n          if (n > 0)\n            n++;\n          continue;\n        }\n")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='c'><simpleCondition role='onBegin'/><simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='p' component='k'/><media id='k'/><media id='m'/>"
     "<link xconnector='c'><bind role='onBegin' component='m'/><bind role='start' component='k'/></link>")));
  d.tick (0);
  d.tick (1);
  CHECK (d.on ("k") && !d.on ("m"));
  CHECK (d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START) == 1);
  CHECK (d.doc ()->evalAction (d.obj ("m")->getLambda (), Event::START) == 0);
""")

seed("c02-settings-stopped", "C02",
     "The settings object is stopped while the body is presented, and later the last media ends.",
     "The body never ends: without the settings object awake, no awake child is not one awake child.",
     [("lib/Context.cpp", "  else if (_awakeChildren == 0)\n    {", "  else if (_parent != nullptr && _awakeChildren == 0)\n    {")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'/>")));
  d.tick (0);
  d.tick (1);
  d.doc ()->evalAction (d.doc ()->getSettings ()->getLambda (), Event::STOP);
  d.tick (1);
  CHECK (d.f->getState () == GINGA_STATE_PLAYING);
  d.doc ()->evalAction (d.obj ("k")->getLambda (), Event::STOP);
  d.tick (1);
  d.tick (1);
  CHECK (d.f->getState () == GINGA_STATE_STOPPED);
""")

seed("c13-name-of-reference", "C13",
     "A value or condition names a property through a reference to a media (not through the media's own id).",
     "The reference does not resolve: the text stays as it is.",
     [("lib/Document.cpp", "  object = this->getObjectByIdOrAlias (id);\n", "  object = _settings->hasAlias (id) ? _settings : this->getObjectById (id);\n")],
     """
  Demo d;
  CHECK (d.start (ncl ("", "<port id='p' component='k'/><media id='k'><property name='x' value='7'/></media><media id='m'><property name='y' value='0'/></media>"
                           "<media id='r' refer='k'/>")));
  d.tick (0);
  d.doc ()->evalAction (d.ev ("m", Event::ATTRIBUTION, "y"), Event::START, "$r.x");
  CHECK (d.prop ("m", "y") == "7");
""")

seed("c16-delay-of-link", "C16",
     "An action's delay is a parameter which both the bind and the link give.",
     "The delay of the link is taken instead of that of the bind.",
     [("lib/Parser.cpp", "              act.delay = st->resolveParameter (role->delay, &bind->params,\n                                                params, &ghosts_map);",
       "              act.delay = st->resolveParameter (role->delay, params,\n                                                &bind->params, &ghosts_map);")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='c'><connectorParam name='w'/><simpleCondition role='onBegin'/><simpleAction role='start' delay='$w'/></causalConnector></connectorBase>",
     "<port id='p' component='k'/><media id='k'/><media id='m'/>"
     "<link xconnector='c'><linkParam name='w' value='5s'/><bind role='onBegin' component='k'/><bind role='start' component='m'><bindParam name='w' value='2s'/></bind></link>")));
  d.tick (0);
  d.tick (1);
  CHECK (!d.on ("m"));
  d.tick (2);
  CHECK (d.on ("m"));
""")

seed("c22-short-scheme", "C22",
     "An address has a scheme of two letters.",
     "It is taken for a path.",
     [("lib/aux-ginga.cpp", "(dup == NULL || strlen (dup) == 1) ?", "(dup == NULL || strlen (dup) <= 2) ?")],
     """
  CHECK (xpathisuri ("ab:c") && !xpathisuri ("c:d") && xpathisuri ("file:///x"));
  CHECK (xurifromsrc ("qa://h/x", "") == "qa://h/x");
""")

seed("c23-resize-while-stopped", "C23",
     "The player is resized while it is stopped (before its first presentation or between two).",
     "The new size is lost.",
     [("lib/Formatter.cpp", "  _opts.width = width;\n  _opts.height = height;\n\n  // This must be the first check.\n  if (_state != GINGA_STATE_PLAYING)\n    return;\n",
       "  // This must be the first check.\n  if (_state != GINGA_STATE_PLAYING)\n    return;\n\n  _opts.width = width;\n  _opts.height = height;\n")],
     """
  Formatter f (nullptr);
  f.resize (320, 200);
  CHECK (f.getOptionInt ("width") == 320 && f.getOptionInt ("height") == 200);
""")

seed("c27-first-dot", "C27",
     "A media without type lies in a directory whose name has a dot.",
     "What follows the first dot is taken for the extension, and the media is a timer.",
     [("lib/Player.cpp", '  index = uri.find_last_of (".");', '  index = uri.find_first_of (".");')],
     """
  string s;
  CHECK (Player::getMimeForURI ("file:///a/b.png", &s) && s == "image/png");
  CHECK (Player::getMimeForURI ("file:///v1.2/b.png", &s) && s == "image/png");
""")

seed("c30-outer-context-sleeps-on", "C30",
     "An object two contexts deep is started (through ports of ports) while both contexts sleep.",
     "Only the inner context is started: it is awake in a context that sleeps.",
     [("lib/Context.cpp", "          if (instanceof (Context *, _parent) && _parent->isSleeping ())", "          if (instanceof (Context *, _parent) && _parent->isPaused ())")],
     """
  Demo d;
  CHECK (d.start (ncl ("<connectorBase><causalConnector id='c'><simpleCondition role='onBegin'/><simpleAction role='start'/></causalConnector></connectorBase>",
     "<port id='o' component='j'/><media id='j'><area id='a' begin='2s'/></media>"
     "<context id='x'><port id='p' component='y' interface='q'/><context id='y'><port id='q' component='m'/><media id='m'/></context></context>"
     "<link xconnector='c'><bind role='onBegin' component='j' interface='a'/><bind role='start' component='x' interface='p'/></link>")));
  d.tick (0);
  d.tick (1);
  CHECK (!d.on ("x") && !d.on ("y"));
  d.tick (2);
  CHECK (d.on ("m") && d.on ("y") && d.on ("x"));
""")

seed("c31-after-a-bad-file", "C31",
     "Several files are given and one that cannot be started is followed by others.",
     "The files after it are not played.",
     [("src/ginga.cpp", "          fail_count++;\n          continue;", "          fail_count++;\n          break;")],
     files={"args": "-s 640x480 a.ncl bad.ncl c.ncl", "script": "T 1000000 5 0\nT 1040000 6 1\n.\nT 2000000 9 0\nK p 65293 0\nK p 65307 0\n.\n",
            "expected": """create 640x480 debug 0 ws 0 experimental 0 opengl 0 background <>
start a.ncl
show 640x480 normal
tick 0 0 5
redraw
tick 40000000 40000000 6
quit
start bad.ncl
start c.ncl
tick 0 0 9
redraw
key ENTER pressed
quit
stop
exit 1
bad.ncl: unplayable<bad.ncl>
"""})

GLPRE = '#include "fakegl.h"\n#include <cairo.h>\nstatic void opengl (Demo &d, const string &text, int w, int h)\n{\n  put ("d.ncl", text);\n  GingaOptions o;\n  o.width = w, o.height = h;\n  o.debug = o.webservices = o.experimental = false;\n  o.opengl = true;\n  fakegl::reset (w, h);\n  d.f = new Formatter (&o);\n  string err;\n  if (!d.f->start ("d.ncl", &err))\n    { printf ("start: %s\\n", err.c_str ()); exit (1); }\n}\n'

seed("c32-colour-after-picture", "C32",
     "With OpenGL, a media with a background colour is drawn after a media with a picture.",
     "The colour is drawn as if it were a texture: the media is not seen.",
     [("lib/aux-gl.cpp", "#else\n  GLint loc = glGetUniformLocation (gles2ctx.shaderProgram, \"use_tex\");\n  glUniform1i (loc, 0);\n\n", "#else\n")],
     """
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_RGB24, 8, 8);
  cairo_surface_write_to_png (s, "p.png");
  Demo d;
  opengl (d, ncl ("", "<port id='p' component='k'/><port id='q' component='m'/>"
    "<media id='k' src='p.png'><property name='bounds' value='0,0,20,20'/><property name='zIndex' value='1'/></media>"
    "<media id='m'><property name='background' value='red'/><property name='bounds' value='10,10,20,20'/><property name='zIndex' value='2'/></media>"), 40, 40);
  d.tick (0);
  d.tick (1);
  d.f->redraw (nullptr);
  CHECK (fakegl::screen ()[25 * 40 + 25] == 0xff0000);
  CHECK (fakegl::screen ()[5 * 40 + 5] == 0);
  CHECK (fakegl::misuse () == "");
""", pre=GLPRE, gl=True)

seed("c32-text-keeps-textures", "C32",
     "With OpenGL, a text is drawn again after its rectangle or font changed.",
     "The texture of the former text is never deleted.",
     [("lib/PlayerText.cpp", "      _surface = nullptr;\n      if (_opengl)\n        GL::delete_texture (&_gltexture);\n", "      _surface = nullptr;\n")],
     """
  put ("t.txt", "I");
  Demo d;
  opengl (d, ncl ("", "<port id='p' component='k'/>"
    "<media id='k' src='t.txt'><property name='bounds' value='0,0,20,20'/></media>"), 40, 40);
  d.tick (0);
  d.tick (1);
  d.f->redraw (nullptr);
  CHECK (fakegl::textures () == 1);
  for (int i = 0; i < 3; i++)
    {
      dynamic_cast<Media *> (d.obj ("k"))->setProperty ("width", i % 2 ? "10" : "15");
      d.f->redraw (nullptr);
    }
  CHECK (fakegl::textures () == 1);
  d.f->stop ();
  CHECK (fakegl::textures () == 0);
""", pre=GLPRE, gl=True)

seed("c33-size-before-full-screen", "C33",
     "The view is resized, full screen is entered and left.",
     "The player is given the size that the view had at first instead of the one it has.",
     [("src/gingagui/MainWindow.cpp", "  presentationAttributes.resolutionWidth = e->width;\n  presentationAttributes.resolutionHeight = e->height;\n\n", "")],
     win=True, files={"args": "", "script": "size\t320\t200\nplayer\nfullscreen\nplayer\npress\t65307\nplayer\nclose\n", "expected": """create 700x525 debug 0 ws 0 opengl 0
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> size	320	200
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> player
player 320x200
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> fullscreen
entry <> history enabled 1111 console 0 remote 0 full 1 light-theme
> player
player 1920x1080
entry <> history enabled 1111 console 0 remote 0 full 1 light-theme
> press	65307
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> player
player 320x200
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> close
quit
exit 0
"""})

seed("c33-picked-stays", "C33",
     "A line of the history other than the first one is picked while there are several.",
     "The picked file goes to the end of the history instead of its beginning.",
     [("src/gingagui/MainWindow.cpp", "                       gtk_label_new (label_text), 0);", "                       gtk_label_new (label_text), -1);")],
     win=True, files={"args": "", "script": "open\ta.ncl\nstop\nopen\tb.ncl\nstop\nopen\tc.ncl\nstop\npick\t1\nclose\n", "expected": """create 700x525 debug 0 ws 0 opengl 0
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> open	a.ncl
start <a.ncl>
entry <a.ncl> history <a.ncl> enabled 0000 console 0 remote 0 full 0 light-theme
> stop
stop
entry <a.ncl> history <a.ncl> enabled 1111 console 0 remote 0 full 0 light-theme
> open	b.ncl
start <b.ncl>
entry <b.ncl> history <b.ncl> <a.ncl> enabled 0000 console 0 remote 0 full 0 light-theme
> stop
stop
entry <b.ncl> history <b.ncl> <a.ncl> enabled 1111 console 0 remote 0 full 0 light-theme
> open	c.ncl
start <c.ncl>
entry <c.ncl> history <c.ncl> <b.ncl> <a.ncl> enabled 0000 console 0 remote 0 full 0 light-theme
> stop
stop
entry <c.ncl> history <c.ncl> <b.ncl> <a.ncl> enabled 1111 console 0 remote 0 full 0 light-theme
> pick	1
start <b.ncl>
entry <b.ncl> history <b.ncl> <c.ncl> <a.ncl> enabled 0000 console 0 remote 0 full 0 light-theme
> close
stop
quit
exit 0
"""})

seed("c33-paused-clock", "C33",
     "A document is played after a frame was drawn while nothing was played, and goes on for several frames.",
     "The time since the previous frame is that since the presentation began.",
     [("src/gingagui/Draw.cpp", "  last = time;\n\nqueue_draw:", "  if (last == 0)\n    last = time;\n\nqueue_draw:")],
     win=True, files={"args": "", "script": "frame\t1000000\t3\t0\ntype\ta.ncl\nplay\nframe\t2000000\t4\t0\nframe\t2040000\t5\t0\nframe\t2080000\t6\t0\nclose\n", "expected": """create 700x525 debug 0 ws 0 opengl 0
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> frame	1000000	3	0
draws
entry <> history enabled 1111 console 0 remote 0 full 0 light-theme
> type	a.ncl
entry <a.ncl> history enabled 1111 console 0 remote 0 full 0 light-theme
> play
start <a.ncl>
entry <a.ncl> history enabled 0000 console 0 remote 0 full 0 light-theme
> frame	2000000	4	0
tick 0 0 4
draws
entry <a.ncl> history enabled 0000 console 0 remote 0 full 0 light-theme
> frame	2040000	5	0
tick 40000000 40000000 5
draws
entry <a.ncl> history enabled 0000 console 0 remote 0 full 0 light-theme
> frame	2080000	6	0
tick 80000000 40000000 6
draws
entry <a.ncl> history enabled 0000 console 0 remote 0 full 0 light-theme
> close
stop
quit
exit 0
"""})

APPS = """<ncl-apps>
<app src="a.ncl" title="A"/>
<app src="b.ncl" title="B"/>
<app src="c.ncl" title="C"/>
<app src="d.ncl" title="D"/>
</ncl-apps>
"""
seed("c34-quick-keys", "C34",
     "Another application is chosen while the list still moves.",
     "The list stops between two applications, or away from the middle.",
     [("src/gingagui/BigPictureWindow.cpp", "          = mid + (card->index * cardWidth) + (card->index * 20);\n      card->animate = TRUE;", "          = card->position + dir * (cardWidth + 20);\n      card->animate = TRUE;")],
     win=True, files={"args": "-b", "ncl-apps.xml": APPS, "script": "press\t65363\nrelease\t65363\npress\t65363\nrelease\t65363\nsettle\nlook\t805,895\t1115,895\t793,895\t1127,895\npress\t65293\nrelease\t65293\n", "expected": "create 700x525 debug 0 ws 0 opengl 0\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> press\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> release\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> press\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> release\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> settle\ndraws\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> look\t805,895\t1115,895\t793,895\t1127,895\nlook 255,255,255 255,255,255 16,14,15 45,43,44\ntext <C>\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> press\t65293\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> release\t65293\nstart <c.ncl>\nentry <> history enabled 1111 console 0 remote 0 full 2 light-theme\nend of script\nexit 0\n"})

seed("c34-left-as-bright", "C34",
     "An application that is not the first is chosen.",
     "The applications on the left do not get fainter.",
     [("src/gingagui/BigPictureWindow.cpp", "      if (card->index < 0)\n        b = card->position;\n", "      if (card->drawOrder < 0)\n        b = card->position;\n")],
     win=True, files={"args": "-b", "ncl-apps.xml": APPS, "script": "press\t65363\nrelease\t65363\nsettle\nlook\t640,895\t1280,895\n", "expected": "create 700x525 debug 0 ws 0 opengl 0\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> press\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> release\t65363\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> settle\ndraws\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> look\t640,895\t1280,895\nlook 241,241,234 241,241,234\ntext <B>\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\nend of script\nexit 0\n"})

seed("c34-cover-of-thumbnail", "C34",
     "An application has a thumbnail but its cover does not exist.",
     "The default cover is not shown in its place, nor anything drawn after it.",
     [("src/gingagui/BigPictureWindow.cpp", "          if (g_file_test ((gchar *) cover, G_FILE_TEST_EXISTS))", "          if (g_file_test ((gchar *) (thumbnail ? thumbnail : cover), G_FILE_TEST_EXISTS))")],
     win=True, files={"args": "-b", "ncl-apps.xml": '<ncl-apps><app src="a.ncl" thumbnail="share/icons/common/app_thumbnail.png" cover="none.png" title="A"/></ncl-apps>', "script": "settle\nlook\t960,895\t1200,400\t1400,500\n", "expected": "create 700x525 debug 0 ws 0 opengl 0\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> settle\ndraws\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\n> look\t960,895\t1200,400\t1400,500\nlook 248,248,241 241,241,241 241,241,241\ntext <A>\nentry <> history enabled 1111 console 0 remote 0 full 1 light-theme\nend of script\nexit 0\n"})

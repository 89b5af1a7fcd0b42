From aa054f0caca76cb52d98faf00c1878d7ec08303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 001/109] fix: start a context's ports again after it was once
 started by a child

The parameter that marks a context as started by one of its children was
never cleared, so no later start of that context started its ports.
---
 lib/Context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..f95b020 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -254,6 +254,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -261,7 +262,6 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From f4b23ee9b82a91bc1562a664e1dd9db89904ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 002/109] fix: starting a paused object resumes it

A start that reached a paused object counted it twice among the awake
children of its context, which then never ended, and left the player of a
media object paused, so that the next pause aborted.
---
 lib/Object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..2669ff9 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -412,6 +412,9 @@ Object::getTime ()
 void
 Object::doStart ()
 {
+  if (GINGA_TIME_IS_VALID (_time))
+    return; // started while paused: already awake
+
   _time = 0;
   if (_parent != nullptr && instanceof (Context *, _parent))
     cast (Context *, _parent)->incAwakeChildren ();
-- 
2.43.0


From 55a9766bbe7f47d7a8a2b884d172a13a238ca410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 003/109] fix: do not abort when a link on an anchor's pause
 acts upon the media

Pausing or resuming a media object does so to its anchors first, and the
links triggered by that may stop, pause or resume the media itself.
---
 lib/Media.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..b81b1d6 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -276,10 +276,15 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
               break; // nothing to do
 
             // Pause/resume all the media anchors.
+            Event::State state = evt->getState ();
             for (auto e : _events)
               if (!e->isLambda () && e->getType () == Event::PRESENTATION)
                 _doc->evalAction (e, transition);
 
+            // The links triggered by the anchors may have acted upon media.
+            if (evt->getState () != state)
+              return false;
+
             // Pause/resume the underlying player.
             g_assert_nonnull (_player);
             if (transition == Event::PAUSE)
-- 
2.43.0


From 819fd942944162fcdde30310a4acd31ef752f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 004/109] fix: do not abort when an anchor of a paused media is
 stopped

---
 lib/Media.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index b81b1d6..d045e96 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -388,7 +388,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
+              g_assert_false (this->isSleeping ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From aca91107c02262b7d4bb0144adc1339dcff039d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 005/109] fix: do not truncate the duration of a media started
 by an anchor to seconds

---
 lib/Media.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index d045e96..bdf34ed 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -226,10 +226,7 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (end != GINGA_TIME_NONE)
                       {
                         dur = end - begin;
-                        string time_end = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                     dur / GINGA_SECOND);
-                        TRACE ("time_end in %ss", time_end.c_str ());
-                        _player->setProperty ("duration", time_end);
+                        _player->setDuration (dur);
                         this->addDelayedAction (evt, Event::STOP, "", end);
                       }
 
-- 
2.43.0


From 731b18055b916dbf5f6e64d9e07f6b629dba5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 006/109] fix: do not start anchors that are over when media is
 started by a later anchor

They were started, but the action to stop them was dropped, so that they
kept occurring until the end of the media.
---
 lib/Media.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index bdf34ed..2b5dea8 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -248,8 +248,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                           {
                             Action act = it->first;
                             Event *evt = act.event;
+                            Time evt_end;
+                            evt->getInterval (nullptr, &evt_end);
                             if (act.transition == Event::START
-                                && it->second < begin)
+                                && it->second < begin && evt_end > begin)
                               evt->transition (act.transition);
                             it = _delayed.erase (it);
                           }
-- 
2.43.0


From d00cd1d2dad86450ba40fd3d217011e4e68bfb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 007/109] fix: starting a paused media object resumes its
 player

It scheduled the anchors again and left the player paused, so that the
next pause aborted.
---
 lib/Media.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 2b5dea8..516933d 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -180,6 +180,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                 _parent->getLambda ()->setParameter ("fromport", "true");
                 _parent->getLambda ()->transition (Event::START);
               }
+            // Started while paused.
+            if (evt->isLambda () && evt->getState () == Event::PAUSED)
+              return this->beforeTransition (evt, Event::RESUME);
+
             // Create underlying player.
             if (evt->getState () == Event::SLEEPING)
               {
@@ -332,6 +336,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             {
               // Start media as a whole.
               g_assert_nonnull (_player);
+              if (GINGA_TIME_IS_VALID (_time))
+                break; // started while paused: nothing to schedule
               Object::doStart ();
 
               // Schedule anchors.
-- 
2.43.0


From 8775c7bcdd23091e05149ac115813db1eb8de924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 008/109] fix: trigger a switchPort only on the transitions of
 the event it maps

Any event of the mapped object did it, so that the attribution, selection or
anchor events of the component selected by a switch started its switchPorts,
which aborted, or stopped the whole switch.
---
 lib/Document.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..dbf7303 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -382,8 +382,7 @@ Document::evalAction (Action init)
             {
               for (const auto &mapped_evt : swtchPort.second)
                 {
-                  if (mapped_evt->getObject () == evt->getObject ()
-                      && swtch->getParent () != nullptr)
+                  if (mapped_evt == evt && swtch->getParent () != nullptr)
                     {
                       Event *label_evt = swtch->getEvent (
                           Event::PRESENTATION, swtchPort.first);
-- 
2.43.0


From 34783dc957bb3237fee5256f33994b758afe04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 009/109] fix: keep the selected component of a paused switch

It was forgotten when the switch was paused or resumed, so that resuming or
stopping the switch afterwards did not resume or stop it.
---
 lib/Switch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..a4eb09e 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -145,7 +145,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
-- 
2.43.0


From ecadfe9306366ff2cc178d1da081a382da7b7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 010/109] fix: do not abort when an already started switch is
 started by other port

---
 lib/Switch.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index a4eb09e..e0b5f13 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -94,7 +94,20 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          if (_selected != nullptr)
+            {
+              // Already selected: the switch is paused or was started by
+              // other port.
+              for (Event *e : switchPort_evts)
+                {
+                  if (e->getObject () == _selected)
+                    {
+                      e->transition (transition);
+                      return true;
+                    }
+                }
+              return false;
+            }
           for (auto item : _rules)
             {
               Object *obj;
-- 
2.43.0


From 14913455b9877b4846db54ac0641026c4882c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 011/109] fix: keep a switch awake exactly while its selected
 component is

A switch started by a switchPort was not occurring, so that the component
it selected was not stopped, paused or resumed together with the parent
context, and a switch started as a whole never ended, so that its parent
context never did either.
---
 lib/Document.cpp |  5 +++++
 lib/Switch.cpp   | 51 ++++++++++++++++++++++++++++++++++++------------
 lib/Switch.h     |  3 +++
 3 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index dbf7303..01ee2eb 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -395,6 +395,11 @@ Document::evalAction (Action init)
                     }
                 }
             }
+
+          // The switch ends together with its selected object.
+          if (act.transition == Event::STOP
+              || act.transition == Event::ABORT)
+            swtch->selectedStopped (obj, act.transition);
         }
 
       // If event object is a context, trigger the context itself
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index e0b5f13..ae38863 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -153,14 +153,9 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
         case Event::RESUME:
         case Event::ABORT:
         case Event::STOP:
-          if (_selected != nullptr)
-            {
-              Event *lambda = _selected->getLambda ();
-              g_assert_nonnull (lambda);
-              lambda->transition (transition);
-              if (transition == Event::STOP || transition == Event::ABORT)
-                _selected = nullptr;
-            }
+          for (Event *e : switchPort_evts)
+            if (e->getObject () == _selected)
+              e->transition (transition);
           break;
 
         default:
@@ -187,29 +182,36 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          Object::doStart ();
+          if (evt->isLambda ())
+            Object::doStart ();
+          else
+            _lambda->transition (Event::START);
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          if (_selected == nullptr)
-            _doc->evalAction (evt, Event::STOP);
           break;
         case Event::PAUSE:
+          if (!evt->isLambda () && _selected != nullptr
+              && _selected->isPaused ())
+            _lambda->transition (Event::PAUSE);
           TRACE ("pause %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
         case Event::RESUME:
+          if (!evt->isLambda () && _selected != nullptr
+              && _selected->isOccurring ())
+            _lambda->transition (Event::RESUME);
           TRACE ("resume %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
         case Event::STOP:
           TRACE ("stop %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          this->doStop (evt, transition);
           break;
         case Event::ABORT:
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          this->doStop (evt, transition);
           break;
 
         default:
@@ -258,4 +260,27 @@ Switch::addSwitchPort (const string &id, const list<Event *> &evts)
   _switchPorts[id] = evts;
 }
 
+void
+Switch::selectedStopped (Object *obj, Event::Transition transition)
+{
+  if (obj == _selected && obj->isSleeping ())
+    _doc->evalAction (_lambda, transition);
+}
+
+// Private.
+
+void
+Switch::doStop (Event *evt, Event::Transition transition)
+{
+  if (evt->isLambda ())
+    {
+      _selected = nullptr;
+      Object::doStop ();
+    }
+  else if (_selected != nullptr)
+    {
+      this->selectedStopped (_selected, transition);
+    }
+}
+
 }
diff --git a/lib/Switch.h b/lib/Switch.h
index 8d2574a..c57dcb0 100644
--- a/lib/Switch.h
+++ b/lib/Switch.h
@@ -40,8 +40,11 @@ public:
   void addRule (Object *, Predicate *);
   const map<string, list<Event *> > *getSwitchPorts ();
   void addSwitchPort (const string &, const list<Event *> &);
+  void selectedStopped (Object *, Event::Transition);
 
 private:
+  void doStop (Event *, Event::Transition);
+
   map<string, list<Event *> > _switchPorts; ///< List of switchPorts.
   list<pair<Object *, Predicate *> > _rules;
   Object *_selected;
-- 
2.43.0


From fbf28789174958780a153802bae5c3ca39d9d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 012/109] fix: do not abort when a switch is selected or set

Refuse the transition, as contexts do.
---
 lib/Switch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index ae38863..6a9cbc2 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -68,6 +68,10 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
+
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
-- 
2.43.0


From eead75f96cc811b6c8fbe87121c0f317f1ce1316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 013/109] fix: start the sleeping parent context of a switch
 started through its port

As it is done for media and context children; otherwise the switch ran
within a context that could not be stopped.
---
 lib/Switch.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 6a9cbc2..1995b73 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -18,6 +18,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-ginga.h"
 #include "Switch.h"
 
+#include "Context.h"
 #include "Document.h"
 
 namespace ginga {
@@ -187,7 +188,14 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
         {
         case Event::START:
           if (evt->isLambda ())
-            Object::doStart ();
+            {
+              Object::doStart ();
+              if (instanceof (Context *, _parent) && _parent->isSleeping ())
+                {
+                  _parent->getLambda ()->setParameter ("fromport", "true");
+                  _parent->getLambda ()->transition (Event::START);
+                }
+            }
           else
             _lambda->transition (Event::START);
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
-- 
2.43.0


From b9ed120fc01fa9e7e11804c3f4f2f1ba35d5201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 014/109] fix: evaluate negated predicates

Documents with isNegated rules or statements aborted.
---
 lib/Document.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 01ee2eb..1263d83 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -505,8 +505,7 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
-      break;
+      return !this->evalPredicate (pred->getChildren ()->front ());
     case Predicate::CONJUNCTION:
       {
         for (auto child : *pred->getChildren ())
-- 
2.43.0


From df9aaf3a1addd48b9a3e6b247e0b91feed378465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 015/109] fix: do not abort when an attribution, selection or
 look-at is paused or aborted

Pausing and resuming them is refused, and aborting them amounts to stopping
them.
---
 lib/Context.cpp |  6 +++++-
 lib/Media.cpp   | 11 ++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index f95b020..2615768 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -221,9 +221,12 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
     case Event::SELECTION:
+    case Event::LOOKAT:
       return false; // fail
 
     default:
@@ -315,6 +318,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
             break;
           }
         case Event::STOP:
+        case Event::ABORT:
           {
             TRACE ("stop %s:=...", evt->getFullId ().c_str ());
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index 516933d..1edd9b5 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -309,13 +309,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
-
     case Event::SELECTION:
-      break; // nothing to do
-
     case Event::LOOKAT:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
     default:
       g_assert_not_reached ();
@@ -444,6 +442,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             }
 
           case Event::STOP:
+          case Event::ABORT:
             TRACE ("stop %s:='%s'", evt->getFullId ().c_str (),
                    value.c_str ());
             break;
@@ -463,6 +462,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             TRACE ("start %s", evt->getFullId ().c_str ());
             break;
           case Event::STOP:
+          case Event::ABORT:
             TRACE ("stop %s", evt->getFullId ().c_str ());
             break;
           default:
@@ -477,6 +477,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           TRACE ("start %s", evt->getFullId ().c_str ());
           break;
         case Event::STOP:
+        case Event::ABORT:
           TRACE ("stop %s", evt->getFullId ().c_str ());
           break;
         default:
-- 
2.43.0


From 11df13fc735f432b99a5c1efbbd6570261d7473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 016/109] fix: do not abort when the settings object was
 stopped or paused before the others ended

---
 lib/Context.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 2615768..db901ff 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -152,14 +152,10 @@ Context::sendTick (Time total, Time diff, Time frame)
   // Check for EOS.
   if (_parent == nullptr && _awakeChildren == 1)
     {
-      if (_doc->getSettings ()->isOccurring ())
+      if (!_doc->getSettings ()->isSleeping ())
         {
           _doc->evalAction (_lambda, Event::STOP);
         }
-      else
-        {
-          g_assert_not_reached ();
-        }
     }
   else if (_awakeChildren == 0)
     {
-- 
2.43.0


From 5a8342413d9218cbccb03658eb022228ecb8f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 017/109] fix: keep the duration of delayed attributions

---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 4 +++-
 lib/Object.h     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 1263d83..c6fca83 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 2669ff9..9fee40a 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -351,13 +351,15 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
   act.event = event;
   act.transition = transition;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..3c58569 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,7 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
 
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
-- 
2.43.0


From d44f017f1da84c3f2f0e00603131140e0c5f7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 018/109] fix: do not lose the attributions that follow one
 upon a sleeping object

The attribution kept occurring until the object was started, and the later
ones upon the same property were refused.
---
 lib/Document.cpp | 10 ++++++++++
 lib/Object.cpp   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index c6fca83..9e0df03 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -344,6 +344,16 @@ Document::evalAction (Action init)
       g_assert_nonnull (obj);
       comp = obj->getParent ();
 
+      // A sleeping object receives no ticks: end the attribution at once,
+      // i.e., after the actions of the links triggered by its start.
+      if (evt->getType () == Event::ATTRIBUTION
+          && act.transition == Event::START && obj->isSleeping ())
+        {
+          Action stop_act = act;
+          stop_act.transition = Event::STOP;
+          stack.push_back (stop_act);
+        }
+
       // If parent composition is a context
       if (comp != nullptr &&
           instanceof (Context *, comp) && comp->isOccurring ())
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 9fee40a..b6b2567 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -356,6 +356,9 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
 {
   Action act;
 
+  if (unlikely (this->isSleeping ()))
+    return; // there is no time to count the delay from
+
   act.event = event;
   act.transition = transition;
   act.value = value;
-- 
2.43.0


From 038229f5728e1c1d7e43bbc3c245ff80786b51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 019/109] fix: trigger the links bound to ports of nested
 contexts

Only the links in the grandparent of the object were triggered, and were so
once for each of the ports mapping it.
---
 lib/Document.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 9e0df03..191f551 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -367,10 +367,15 @@ Document::evalAction (Action init)
 
           // If the event object is pointed by a port in the parent context,
           // trigger links in the its grantparent context ( and ancestors)
-          comp = ctx_parent->getParent ();
-          if (comp != nullptr &&
-              instanceof (Context *, comp) && comp->isOccurring ())
+          bool mapped = true;
+          while (mapped)
             {
+              comp = ctx_parent->getParent ();
+              if (comp == nullptr || !instanceof (Context *, comp)
+                  || !comp->isOccurring ())
+                break;
+
+              mapped = false;
               ctx_grandparent = cast (Context *, comp);
               for (auto port : *ctx_parent->getPorts ())
                 {
@@ -379,8 +384,11 @@ Document::evalAction (Action init)
                       list<Action> ret
                           = evalActionInContext (act, ctx_grandparent);
                       stack.insert (stack.end (), ret.begin (), ret.end ());
+                      mapped = true;
+                      break;
                     }
                 }
+              ctx_parent = ctx_grandparent;
             }
         }
       // If parent composition is a switch
-- 
2.43.0


From 01650ed5eb59bc43410b38b33ebb13b50d37a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 020/109] fix: trigger a link once, in an occurring context,
 per transition

The links of a context were triggered again for each alias the object has in
it, and those of a sleeping context that has an alias of the object too.
---
 lib/Document.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 191f551..3c245e3 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -354,6 +354,8 @@ Document::evalAction (Action init)
           stack.push_back (stop_act);
         }
 
+      list<Context *> done; // contexts whose links were triggered
+
       // If parent composition is a context
       if (comp != nullptr &&
           instanceof (Context *, comp) && comp->isOccurring ())
@@ -364,6 +366,7 @@ Document::evalAction (Action init)
           // Trigger links in the parent context
           list<Action> ret = evalActionInContext (act, ctx_parent);
           stack.insert (stack.end (), ret.begin (), ret.end ());
+          done.push_back (ctx_parent);
 
           // If the event object is pointed by a port in the parent context,
           // trigger links in the its grantparent context ( and ancestors)
@@ -384,6 +387,7 @@ Document::evalAction (Action init)
                       list<Action> ret
                           = evalActionInContext (act, ctx_grandparent);
                       stack.insert (stack.end (), ret.begin (), ret.end ());
+                      done.push_back (ctx_grandparent);
                       mapped = true;
                       break;
                     }
@@ -435,7 +439,8 @@ Document::evalAction (Action init)
           for (const auto &alias : *obj->getAliases ())
             {
               ctx_parent = cast (Context *, alias.second);
-              if (ctx_parent)
+              if (ctx_parent && ctx_parent->isOccurring ()
+                  && tryinsert (ctx_parent, done, push_back))
                 {
                   list<Action> ret = evalActionInContext (act, ctx_parent);
                   stack.insert (stack.end (), ret.begin (), ret.end ());
-- 
2.43.0


From 15a93cf50ee874af088978a624b1aa12e57b2f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 021/109] fix: do not lose the due actions of an object paused
 by one of them

---
 lib/Object.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index b6b2567..c699ccc 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -390,11 +390,18 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
         }
     }
 
-  for (auto action : trigger)
+  while (!trigger.empty ())
     {
+      Action action = trigger.front ();
+      trigger.pop_front ();
       _doc->evalAction (action);
       if (!this->isOccurring ())
-        return;
+        {
+          if (this->isPaused ()) // keep the others to when it is resumed
+            for (auto act : trigger)
+              _delayed.push_back (std::make_pair (act, _time));
+          return;
+        }
     }
 
   for (auto it = _delayed.begin (); it != _delayed.end ();)
-- 
2.43.0


From 82d585f3373b4129f551f6a2aad75f480f3a09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 022/109] fix: dispose the document that could not be started

---
 lib/Formatter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..ab02542 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -160,7 +160,11 @@ Formatter::start (const string &file, string *errmsg)
   evt = root->getLambda ();
   g_assert_nonnull (evt);
   if (_doc->evalAction (evt, Event::START) == 0)
-    return false;
+    {
+      delete _doc;
+      _doc = nullptr;
+      return false;
+    }
 
   // Start settings.
   evt = _doc->getSettings ()->getLambda ();
-- 
2.43.0


From 344ce918a17bd4c09aabe20e4625855b2df70893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 023/109] fix: make the webservices option accessible

Accessing it aborted as if it were unknown.
---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index ab02542..bd6ce96 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -64,6 +64,7 @@ static map<string, GingaOptionData> opts_table = {
   OPTS_ENTRY (experimental, G_TYPE_BOOLEAN, Experimental),
   OPTS_ENTRY (height, G_TYPE_INT, Size),
   OPTS_ENTRY (opengl, G_TYPE_BOOLEAN, OpenGL),
+  OPTS_ENTRY (webservices, G_TYPE_BOOLEAN, WebServices),
   OPTS_ENTRY (width, G_TYPE_INT, Size),
 };
 
-- 
2.43.0


From b799e3b0bcae0b5a219cfd39bb3706a7b299431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 024/109] fix: release the web services together with the
 formatter

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index bd6ce96..e25fda2 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -477,6 +477,7 @@ Formatter::Formatter (const GingaOptions *opts) : Ginga (opts)
 Formatter::~Formatter ()
 {
   this->stop ();
+  delete _webservices;
 }
 
 /**
-- 
2.43.0


From 8c25ff1aa5f76d5f324cb0b7079219bc7a05ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 025/109] fix: do not abort when an object that has look-at
 events is printed

---
 lib/Object.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index c699ccc..98cea69 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -117,7 +117,7 @@ Object::toString ()
   list<string> pres;
   list<string> attr;
   list<string> sel;
-  list<string> prep;
+  list<string> look;
   for (auto evt : _events)
     switch (evt->getType ())
       {
@@ -136,6 +136,11 @@ Object::toString ()
                        + Event::getEventStateAsString (evt->getState ())
                        + ')');
         break;
+      case Event::LOOKAT:
+        look.push_back (evt->getId () + " ("
+                        + Event::getEventStateAsString (evt->getState ())
+                        + ')');
+        break;
       default:
         g_assert_not_reached ();
       }
@@ -144,7 +149,7 @@ Object::toString ()
     { "evts pres.", &pres },
     { "evts attr.", &attr },
     { "evts sel.", &sel },
-    { "evts prep.", &prep },
+    { "evts look.", &look },
   };
 
   for (auto it_evts : evts)
-- 
2.43.0


From 13690c6b663a56286a6ecf95c723f65c90c140dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 026/109] fix: do not start or stop the web services twice

Stopping them before they were started passed null objects to GLib, and
starting them again leaked the running server.
---
 lib/WebServices.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 4a86740..9b59926 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -44,19 +44,23 @@ WebServices::WebServices (Formatter *fmt)
 WebServices::~WebServices ()
 {
   this->stop ();
-  g_object_unref (_resource_group);
-  g_object_unref (_client);
-  g_object_unref (_server);
 }
 
 bool
 WebServices::stop ()
 {
+  if (_state == WS_STATE_STOPPED)
+    return true; // nothing to do
+
   _state = WS_STATE_STOPPED;
   // stop ssdp
   gssdp_resource_group_set_available (_resource_group, false);
   // stop http
   soup_server_disconnect (_server);
+
+  g_clear_object (&_resource_group);
+  g_clear_object (&_client);
+  g_clear_object (&_server);
   return true;
 }
 
@@ -219,6 +223,9 @@ WebServices::start ()
   int ret = 0;
   char *location;
 
+  if (_state == WS_STATE_STARTED)
+    return true; // nothing to do
+
   // create ssdpclient
   _client = gssdp_client_new (nullptr, &error);
   if (error)
-- 
2.43.0


From bef27cf4166a07a6ca32e41715a4e65cfb53b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 027/109] fix: do not abort on malformed requests to the web
 services

Paths with missing components, bodies that are not JSON objects of strings,
selections that no link waits for and requests that arrive while there is no
document brought the whole player down.
---
 lib/WebServices.cpp | 92 ++++++++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 31 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 9b59926..ee742a5 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -64,6 +64,40 @@ WebServices::stop ()
   return true;
 }
 
+// Parses the body of request as a JSON object.
+static bool
+parse_body (SoupMessage *msg, Json::Value *root)
+{
+  Json::CharReaderBuilder builder;
+  std::unique_ptr<Json::CharReader> reader (builder.newCharReader ());
+  string errors;
+  const char *body = msg->request_body->data;
+
+  return body != nullptr
+         && reader->parse (body, body + msg->request_body->length, root,
+                           &errors)
+         && root->isObject ();
+}
+
+// Gets the string in the given member of JSON object.
+static string
+get_string (const Json::Value &root, const char *name)
+{
+  const Json::Value &value = root[name];
+  return value.isString () ? value.asString () : "";
+}
+
+// Gets the strings in the given member of JSON object.
+static list<string>
+get_strings (const Json::Value &root, const char *name)
+{
+  list<string> result;
+  for (const auto &item : root[name])
+    if (item.isString ())
+      result.push_back (item.asString ());
+  return result;
+}
+
 static void
 cb_null (SoupServer *server, SoupMessage *msg, const char *path,
          GHashTable *query, SoupClientContext *client, gpointer user_data)
@@ -104,26 +138,22 @@ cb_remoteplayer (SoupServer *server, SoupMessage *msg, const char *path,
                  gpointer user_data)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
   WebServices *ws = (WebServices *) user_data;
   bool status = false;
 
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
-    WARNING ("Error parsing request body");
+  if (!parse_body (msg, &root))
+    {
+      WARNING ("Error parsing request body");
+      root = Json::Value (Json::objectValue);
+    }
 
   PlayerRemoteData pdata;
-  pdata.location = root["location"].asString ();
-  pdata.deviceType = root["deviceType"].asString ();
-  for (const auto &item : root["supportedFormats"])
-    pdata.supportedFormats.push_back (item.asString ());
-  for (const auto &item : root["recognizableEvents"])
-    pdata.recognizedableEvents.push_back (item.asString ());
+  pdata.location = get_string (root, "location");
+  pdata.deviceType = get_string (root, "deviceType");
+  pdata.supportedFormats = get_strings (root, "supportedFormats");
+  pdata.recognizedableEvents = get_strings (root, "recognizableEvents");
   if (pdata.isValid ())
     status = ws->machMediaThenSetPlayerRemote (pdata);
   soup_message_set_status (msg,
@@ -135,43 +165,41 @@ cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
          GHashTable *query, SoupClientContext *client, gpointer user_data)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
   WebServices *ws = (WebServices *) user_data;
   bool status = false;
   string action, interface, value;
   Object *node;
   Event *evt = nullptr;
   Document *doc;
-  const char *target = path + strlen (WS_ROUTE_APPS);
+  string appId, docId, nodeId;
+  const char *target = path + MIN (strlen (path), strlen (WS_ROUTE_APPS));
   gchar **params = g_strsplit (target, "/", 3);
 
+  if (g_strv_length (params) == 3)
+    {
+      appId = params[0]; // ignored
+      docId = params[1]; // ignored
+      nodeId = params[2];
+    }
+  g_strfreev (params);
   doc = ws->getFormatter ()->getDocument ();
-  g_assert_nonnull (doc);
-  const char *appId = params[0]; // ignored
-  const char *docId = params[1]; // ignored
-  const char *nodeId = params[2];
-  if (!strlen (appId) || !strlen (docId) || !strlen (nodeId))
+  if (doc == nullptr || appId == "" || docId == "" || nodeId == "")
     goto fail;
 
-  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS, appId,
-         docId, nodeId);
+  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS,
+         appId.c_str (), docId.c_str (), nodeId.c_str ());
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
+  if (!parse_body (msg, &root))
     {
       WARNING ("Error parsing request body");
       goto fail;
     }
-  action = root["action"].asString ();
-  interface = root["interface"].asString ();
-  value = root["value"].asString ();
+  action = get_string (root, "action");
+  interface = get_string (root, "interface");
+  value = get_string (root, "value");
 
   node = doc->getObjectById (nodeId);
-  g_strfreev (params);
 
   if (!node)
     goto fail;
@@ -179,6 +207,8 @@ cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
   if (action == "select")
     {
       evt = node->getSelectionEvent (value);
+      if (evt == nullptr)
+        goto fail;
       doc->evalAction (evt, Event::START);
       doc->evalAction (evt, Event::STOP);
     }
-- 
2.43.0


From 9603d6ca568b329b4505747551f1b1f8696ba198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 028/109] fix: animate bounds, location and size towards the
 given values

The end of the list of values was dereferenced.
---
 lib/PlayerAnimator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..285ffb8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -61,7 +61,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 4, 4);
       list_pos = ginga::parse_list (to, ',', 4, 4);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
       this->doSchedule ("width", *pre++, *pos++, dur);
@@ -73,7 +73,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
     }
@@ -83,7 +83,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("width", *pre++, *pos++, dur);
       this->doSchedule ("height", *pre++, *pos++, dur);
     }
-- 
2.43.0


From 2c3f93f8189d844adb28cc1a4c71ec5d02f7245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 029/109] fix: animate background within the range of color
 components

Any intermediary color was either black or white, and the animation of an
unset background aborted.
---
 lib/PlayerAnimator.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 285ffb8..f11b5b5 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -89,13 +89,14 @@ PlayerAnimator::schedule (const string &name, const string &from,
     }
   else if (name == "background")
     {
-      Color pre = { 0, 0, 0, 255 };
+      Color pre = { 0, 0, 0, 1. };
       Color pos;
 
       string pre_r, pre_g, pre_b;
       string pos_r, pos_g, pos_b;
 
-      pre = ginga::parse_color (from);
+      if (from != "")
+        pre = ginga::parse_color (from);
       pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
       pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
       pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
@@ -115,6 +116,13 @@ PlayerAnimator::schedule (const string &name, const string &from,
     }
 }
 
+// Converts a color component from the range 0-255 to the range 0-1.
+static double
+from8bit (double value)
+{
+  return value / 255.;
+}
+
 static bool
 isDone (AnimInfo *info)
 {
@@ -229,15 +237,15 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE (info, double, bgColor->red, from8bit, 0., 1.);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE (info, double, bgColor->green, from8bit, 0., 1.);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE (info, double, bgColor->blue, from8bit, 0., 1.);
         }
       else if (name == "transparency")
         {
-- 
2.43.0


From d2004e52bad675dcd37338fcd63db65bcea7487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 030/109] fix: animate transparency instead of its complement

---
 lib/PlayerAnimator.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index f11b5b5..db6d593 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -110,6 +110,16 @@ PlayerAnimator::schedule (const string &name, const string &from,
       this->doSchedule ("background:g", pre_g, pos_g, dur);
       this->doSchedule ("background:b", pre_b, pos_b, dur);
     }
+  else if (name == "transparency")
+    {
+      // The value being animated is the opacity.
+      string pre_s;
+      if (from != "")
+        pre_s = xstrbuild ("%d", CLAMP (255 - parse_pixel (from), 0, 255));
+      this->doSchedule (
+          name, pre_s,
+          xstrbuild ("%d", CLAMP (255 - parse_pixel (to), 0, 255)), dur);
+    }
   else
     {
       this->doSchedule (name, from, to, dur);
@@ -371,8 +381,8 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
         }
       else
         {
-          this->schedule ("transparency", "0", to_string (*alpha),
-                          _transIn->dur);
+          this->doSchedule ("transparency", "0", to_string (*alpha),
+                            _transIn->dur);
         }
     }
   else
-- 
2.43.0


From 77f0808294996574cd4f2beb14320a675fc7bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 031/109] fix: pause and resume NCLua objects

Pausing one, or the context it is in, aborted.
---
 lib/PlayerLua.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 86d4a19..faf3825 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -106,18 +106,22 @@ PlayerLua::stop ()
   Player::stop ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::pause ()
 {
   g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "pause", "");
+  Player::pause ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::resume ()
 {
-  g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert (_state == PAUSED);
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "resume", "");
+  Player::resume ();
 }
 
 void
-- 
2.43.0


From 0bd7ae48aa0172473aeb166045a21cbff0b7ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 032/109] fix: ignore the events NCLua posts upon unknown
 labels, properties or actions

---
 lib/PlayerLua.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index faf3825..1ececf6 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -195,20 +195,19 @@ PlayerLua::redraw (cairo_t *cr)
           else
             nclEvt = _media->getPresentationEventByLabel (label);
 
-          g_assert_nonnull (nclEvt);
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action) != 0);
-          _media->addDelayedAction (
-              nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
+          if (nclEvt != nullptr
+              && nclua_act_to_ncl.count (evt->u.ncl.action) != 0)
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
         }
       else if (g_str_equal (evt->u.ncl.type, "attribution"))
         {
           Event *nclEvt = _media->getAttributionEvent (evt->u.ncl.name);
-          g_assert_nonnull (nclEvt);
-
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action));
-          _media->addDelayedAction (nclEvt,
-                                    nclua_act_to_ncl.at (evt->u.ncl.action),
-                                    evt->u.ncl.value);
+          if (nclEvt != nullptr
+              && nclua_act_to_ncl.count (evt->u.ncl.action) != 0)
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action),
+                evt->u.ncl.value);
         }
       ncluaw_event_free (evt);
     }
-- 
2.43.0


From 1378c76e530e69eaf971ad05034b5db3e4447ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 033/109] fix: take bottom as a percentage of the screen height

As right is of the screen width.
---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..599ead4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -722,8 +722,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 8711265093a3cb4c02a84d20abdcb6beeb0e7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 034/109] fix: do not truncate contents at null bytes

---
 lib/aux-ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..0e99fab 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -739,7 +739,7 @@ xurigetcontents (const string &uri, string &data)
   if (ret)
     {
       g_assert_null (err);
-      data = string (gdata);
+      data = string (gdata, len);
       g_free (gdata);
     }
   else
-- 
2.43.0


From 2eef12cf381ba4df4fcad11ee4dbd6aecd144be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 035/109] fix: initialize the errors passed to GLib

---
 lib/PlayerLua.cpp | 2 +-
 lib/aux-ginga.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 1ececf6..142b166 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -62,7 +62,7 @@ PlayerLua::start ()
 
   g_assert (_state != OCCURRING);
   g_assert_null (_nw);
-  GError *err;
+  GError *err = NULL;
   char *filename = g_filename_from_uri (_prop.uri.c_str (), NULL, &err);
   if (filename == NULL)
     {
diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 0e99fab..4c70585 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -662,7 +662,7 @@ string
 xpathfromuri (const string &uri)
 {
   string path;
-  GError *err;
+  GError *err = NULL;
 
   gchar *g_path = g_filename_from_uri (uri.c_str (), nullptr, &err);
   if (g_path == nullptr)
@@ -698,7 +698,7 @@ xurifromsrc (const string &src, const string &basesrc = "")
       else
         abs = xpathbuildabs (basesrc, src);
 
-      GError *err;
+      GError *err = NULL;
       gchar *g_uri = g_filename_to_uri (abs.c_str (), NULL, &err);
       if (g_uri == nullptr)
         {
-- 
2.43.0


From 4bf0461488f9d8e2c615cd650bd5426734999903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 036/109] fix: do not erase user data that is not set

---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 4c70585..0e6d44a 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -789,7 +789,8 @@ UserData::setData (const string &key, void *value, UserDataCleanFunc fn)
     it->second.second (it->second.first);
   if (value == nullptr)
     {
-      _udata.erase (it);
+      if (it != _udata.end ())
+        _udata.erase (it);
       return false;
     }
   else
-- 
2.43.0


From 76bf06e92defcd3dd3f87dcf698e02ea93928d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 037/109] fix: clamp numbers and percents before converting
 them to integers

Those that do not fit in an integer were wrapped around.
---
 lib/aux-ginga.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 0e6d44a..abc66b5 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -273,18 +273,17 @@ parse_percent (const string &s, int base, int min, int max)
 {
   bool percent;
   double d;
-  int result;
 
   d = xstrtodorpercent (s, &percent);
   if (percent)
     {
-      result = (int) lround (d * base);
+      d = round (d * base);
     }
   else
     {
-      result = (int) lround (d);
+      d = round (d);
     }
-  return (int) CLAMP (result, min, max);
+  return (int) CLAMP (d, min, max);
 }
 
 /**
-- 
2.43.0


From ac5ad486e23d4d5760ab0cd75ba63e96ce34439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 038/109] fix: reject tables with unquoted empty values

---
 lib/aux-ginga.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index abc66b5..b9e5ebd 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -155,7 +155,7 @@ try_parse_table (const string &s, map<string, string> *result)
   map<string, string> tab;
 
   str = xstrstrip (s);
-  if (str.front () != '{' || str.back () != '}')
+  if (str.length () < 2 || str.front () != '{' || str.back () != '}')
     return false;
 
   str.assign (str.substr (1, str.length () - 2));
@@ -172,8 +172,9 @@ try_parse_table (const string &s, map<string, string> *result)
       key = xstrstrip (*pr_it++);
       val = xstrstrip (*pr_it++);
       g_assert (pr_it == pr.end ());
-      if (unlikely (!((val.front () == '\'' && val.back () == '\'')
-                      || (val.front () == '"' && val.back () == '"'))))
+      if (unlikely (val.length () < 2
+                    || !((val.front () == '\'' && val.back () == '\'')
+                         || (val.front () == '"' && val.back () == '"'))))
         {
           return false;
         }
-- 
2.43.0


From a978fc1c6142b2bc8d5d0e51502ab1e30afad3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 039/109] fix: keep the attributes of a transition apart

All the attributes of a transition were read into the same string while
building its description, so that one attribute could replace another.
---
 lib/Parser.cpp | 56 ++++++++++++++------------------------------------
 1 file changed, 15 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..f70ad53 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2383,47 +2383,21 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                 }
 
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              static const pair<string, string> fields[] = {
+                { "subtype", "" },      { "dur", "0" },
+                { "startProgress", "0" }, { "endProgress", "0" },
+                { "direction", "forward" }, { "fadeColor", "" },
+                { "horzRepeat", "0" },  { "vertRepeat", "0" },
+                { "borderWidth", "0" }, { "borderColor", "" },
+              };
+              for (auto &field : fields)
+                {
+                  if (!trans_elt->getAttribute (field.first, &str))
+                    str = field.second;
+                  val += "," + field.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From 1adeb0fb674041c581ea528ec897361ab5aaa19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 040/109] fix: references to a settings object declared later

The parser walked past the end of the table of references and freed or kept
the wrong object; links and ports through such references were lost.
---
 lib/Parser.cpp | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index f70ad53..9b9cb6f 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -88,6 +88,36 @@ xmlFindAllChildren (xmlNode *node, const string &tag)
   return children;
 }
 
+/// Tests whether type is that of a settings object.
+static inline bool
+isSettingsType (const string &type)
+{
+  return type == "application/x-ginga-settings"
+         || type == "application/x-ncl-settings";
+}
+
+/// Tests whether the media with the given id is a settings object.
+static bool
+xmlIsSettings (xmlNode *node, const string &id)
+{
+  string str;
+
+  if (node->type != XML_ELEMENT_NODE)
+    return false;
+
+  if (toCPPString (node->name) == "media"
+      && xmlGetPropAsString (node, "id", &str) && str == id)
+    {
+      return xmlGetPropAsString (node, "type", &str)
+             && isSettingsType (str);
+    }
+
+  for (xmlNode *child = node->children; child; child = child->next)
+    if (xmlIsSettings (child, id))
+      return true;
+  return false;
+}
+
 /// Tests whether value is a valid XML name.
 static bool
 xmlIsValidName (const string &value, char *offending)
@@ -3887,8 +3917,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
             {
               // when Parser find the reffered Media
               // (a) if an Media, the Parser will set uri, type and parent
-              // (b) if an MediaSettings, the Parser will replace
-              media = new Media (refer);
+              // (b) if an MediaSettings, there is only one and it exists
+              if (xmlIsSettings (xmlDocGetRootElement (st->_xml), refer))
+                media = st->_doc->getSettings ();
+              else
+                media = new Media (refer);
             }
 
           st->referMapAdd (refer, media);
@@ -3904,29 +3937,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
   else
     {
       // case it is a MediaSettings
-      if (type == "application/x-ginga-settings" || type == "application/x-ncl-settings")
+      if (isSettingsType (type))
         {
-          Media *tmpMedia = nullptr;
-
           // there is only one MediaSettings
           media = st->_doc->getSettings ();
 
-          // if there are refers to this MediaSettings, those refers
-          // are using a tmp Media, which should be this MediaSettings
-          st->referMapIndex (id, &tmpMedia);
-          if (tmpMedia)
-            {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
-                {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
-                }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
-            }
-
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
           if (g_strcmp0 (scheme, "streambuf") == 0)
             {
-- 
2.43.0


From 7c75f46570c296c86e16a45a2b891ed6de3c5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 041/109] fix: ports to interfaces of references declared later

---
 lib/Parser.cpp | 122 +++++++++++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 49 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 9b9cb6f..8654ae3 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2363,6 +2363,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
 {
   list<ParserElt *> desc_list;
   list<ParserElt *> media_list;
+  list<ParserElt *> ctx_list;
   list<ParserElt *> switch_list;
   list<ParserElt *> link_list;
 
@@ -2496,9 +2497,71 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
         }
     }
 
+  // Resolve context ports.
+  if (st->eltCacheIndexByTag ({ "body", "context" }, &ctx_list) > 0)
+    {
+      for (auto ctx_elt : ctx_list)
+        {
+          Context *ctx;
+          list<string> *ports;
+
+          UDATA_GET (ctx_elt, "context", &ctx);
+          UDATA_GET (ctx_elt, "ports", &ports);
+          for (auto port_id : *ports)
+            {
+              ParserElt *port_elt;
+              Event *evt;
+
+              g_assert (
+                  st->eltCacheIndexById (port_id, &port_elt, { "port" }));
+              if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
+                return false;
+
+              ctx->addPort (evt);
+            }
+        }
+    }
+
+  // Resolve the mappings of switch ports.
+  if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
+    {
+      for (auto switch_elt : switch_list)
+        {
+          string switch_id;
+          Switch *swtch;
+          list<string> *switchPorts;
+
+          g_assert (switch_elt->getAttribute ("id", &switch_id));
+          swtch
+              = cast (Switch *, st->_doc->getObjectByIdOrAlias (switch_id));
+          g_assert_nonnull (swtch);
+
+          UDATA_GET (switch_elt, "switchPorts", &switchPorts);
+          for (auto switchPort_id : *switchPorts)
+            {
+              ParserElt *switchPort_elt;
+              list<ParserElt *> *mappings;
+              list<Event *> evts;
+
+              g_assert (st->eltCacheIndexById (
+                  switchPort_id, &switchPort_elt, { "switchPort" }));
+              UDATA_GET (switchPort_elt, "mappings", &mappings);
+              for (auto &mapping_elt : *mappings)
+                {
+                  Event *evt;
+                  if (unlikely (!st->resolveInterface (swtch, mapping_elt,
+                                                       &evt)))
+                    return false;
+                  evts.push_back (evt);
+                }
+              swtch->addSwitchPort (switchPort_id, evts);
+            }
+        }
+    }
+
   // Resolve bind rules and default components in switches.
   // (I.e., finish parsing <bindRule> and <defaultComponent>.)
-  if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
+  if (!switch_list.empty ())
     {
       for (auto switch_elt : switch_list)
         {
@@ -3589,6 +3652,7 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
 
   // Create port list.
   UDATA_SET (elt, "ports", new list<string> (), portsCleanup);
+  UDATA_SET (elt, "context", ctx, nullptr);
 
   // Push context onto stack.
   st->objStackPush (ctx);
@@ -3599,35 +3663,17 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
 /**
  * @brief Ends the processing of \<body\> or \<context\> element.
  *
- * This function resolves context ports and pops the object stack.
+ * This function pops the object stack.  The context ports are resolved
+ * after the whole document is read, as they may depend on the interfaces of
+ * an object that is declared later.
  *
  * @param st #ParserState.
  * @param elt Element wrapper.
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popContext (ParserState *st, ParserElt *elt)
+ParserState::popContext (ParserState *st, unused (ParserElt *elt))
 {
-  Context *ctx;
-  list<string> *ports;
-
-  ctx = cast (Context *, st->objStackPeek ());
-  g_assert_nonnull (ctx);
-
-  // Resolve port references.
-  UDATA_GET (elt, "ports", &ports);
-  for (auto port_id : *ports)
-    {
-      ParserElt *port_elt;
-      Event *evt;
-
-      g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
-      if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
-        return false;
-
-      ctx->addPort (evt);
-    }
-
   st->objStackPop ();
   return true;
 }
@@ -3801,34 +3847,12 @@ ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
       it.second = obj;
     }
 
-  // Resolve switchPort references (each switchPort is added as a new
-  // PresentationEvent, which will be handled internally by the switch).
+  // Add switchPorts (each switchPort is added as a new PresentationEvent,
+  // which will be handled internally by the switch).  Their mappings are
+  // resolved after the whole document is read.
   UDATA_GET (elt, "switchPorts", &switchPorts);
   for (auto switchPort_id : *switchPorts)
-    {
-      ParserElt *switchPort_elt;
-      list<ParserElt *> *mappings;
-
-      g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
-                                       { "switchPort" }));
-      UDATA_GET (switchPort_elt, "mappings", &mappings);
-
-      list<Event *> mapping_evts;
-      for (auto &mapping_elt : *mappings)
-        {
-          Event *evt;
-          string comp, interf;
-          mapping_elt->getAttribute ("component", &comp);
-          mapping_elt->getAttribute ("interface", &interf);
-
-          if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
-            return false;
-
-          mapping_evts.push_back (evt);
-        }
-
-      swtch->addSwitchPort (switchPort_id, mapping_evts);
-    }
+    swtch->addSwitchPort (switchPort_id, {});
 
   st->objStackPop ();
 
-- 
2.43.0


From 5043885bb2dad6c24f118c45d5e703a62ee67e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 042/109] fix: settings already started by a port

---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index e25fda2..3844c1d 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -167,10 +167,11 @@ Formatter::start (const string &file, string *errmsg)
       return false;
     }
 
-  // Start settings.
+  // Start settings (unless already started by a port or link).
   evt = _doc->getSettings ()->getLambda ();
   g_assert_nonnull (evt);
-  g_assert (evt->transition (Event::START));
+  if (evt->getState () == Event::SLEEPING)
+    g_assert (evt->transition (Event::START));
 
   // Sets formatter state.
   _state = GINGA_STATE_PLAYING;
-- 
2.43.0


From 3a89aa41d96fbd75c8435aa927561c3ea38a2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 043/109] fix: refuse a document whose font cannot be loaded,
 saying why

---
 lib/Parser.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 8654ae3..854f9d7 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4229,21 +4229,26 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   elt->getAttribute ("fontWeight", &weight);
 
   // fixme:  We should also handle remote URIs; g_file_move could help us.
+  string path;
   if (st->getURI () != "")
     {
       xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      src = toCPPString (s);
+      gchar *file = (s != nullptr)
+                        ? g_filename_from_uri (toCString (s), NULL, NULL)
+                        : NULL;
+      if (file != NULL)
+        path = file;
+      g_free (file);
       xmlFree (s);
-      src = xpathfromuri (src.c_str ());
     }
   else
-    src = xpathmakeabs (src);
+    path = xpathmakeabs (src);
 
-  const FcChar8 *fcfilename = (const FcChar8 *) src.c_str ();
+  const FcChar8 *fcfilename = (const FcChar8 *) path.c_str ();
   FcBool fontAddStatus = FcConfigAppFontAddFile (NULL, fcfilename);
 
   TRACE ("Adding font family='%s' src='%s' success: %d.", family.c_str (),
-         src.c_str (), fontAddStatus);
+         path.c_str (), fontAddStatus);
 
   if (fontAddStatus == FcTrue)
     {
@@ -4275,8 +4280,13 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
 
       //      FcPatternPrint (new_font);
     }
+  else
+    {
+      return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                     "cannot load font");
+    }
 
-  return (fontAddStatus == FcTrue);
+  return true;
 }
 
 // External API.
-- 
2.43.0


From 04b0cd241ee28c2395bfb049c65f46b1f934f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 044/109] fix: import bases from documents given by an absolute
 URI

---
 lib/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 854f9d7..446ddab 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3537,7 +3537,8 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     main_uri = st->getURI ();
 
   // if imported_uri is relative path build a new path based in main_uri
-  if (!xpathisabs (imported_uri) && main_uri != "")
+  if (!xpathisuri (imported_uri) && !xpathisabs (imported_uri)
+      && main_uri != "")
     {
       imported_uri = xpathbuild (xpathdirname (xpathfromuri (main_uri)),
                                  imported_uri);
-- 
2.43.0


From 142bfd2b11e725114fe9be709c4b7738efa77d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 045/109] fix: resolve the transitions of imported descriptors

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 446ddab..c40e319 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -538,8 +538,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", ATTR_OPT_IDREF },
+            { "transOut", ATTR_OPT_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From 13b8093106fc8a1ba9d58f4b26291776b600b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 046/109] fix: check references before moving descriptor
 attributes to them

---
 lib/Parser.cpp | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index c40e319..cf4f432 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2438,13 +2438,37 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
   // to associated media, and check for unresolved refers.
   if (st->eltCacheIndexByTag ({ "media" }, &media_list) > 0)
     {
+      for (auto media_elt : media_list)
+        {
+          string refer;
+
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+        }
+
       for (auto media_elt : media_list)
         {
           string media_id;
           Media *media;
 
           string desc_id;
-          string refer;
 
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
@@ -2474,26 +2498,6 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 22402bd0aa1b865020240f8c0a31befc57c345be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 047/109] fix: percentages that are not numbers

---
 lib/aux-ginga.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index b9e5ebd..c56d6db 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -284,6 +284,8 @@ parse_percent (const string &s, int base, int min, int max)
     {
       d = round (d);
     }
+  if (std::isnan (d))
+    return min;
   return (int) CLAMP (d, min, max);
 }
 
-- 
2.43.0


From c4dec7fcdf701fe18374daa202714ca6438b250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 048/109] fix: overflow in the geometry of huge regions

---
 lib/Parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index cf4f432..3208717 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2937,13 +2937,16 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
 
   screen = st->_rectStack.front ();
   rect = parent = st->rectStackPeek ();
+  // Sums are made on doubles as those of integers may overflow.
+  double x = parent.x;
+  double y = parent.y;
   if (elt->getAttribute ("left", &str))
     {
-      rect.x += ginga::parse_percent (str, parent.width, 0, G_MAXINT);
+      x += ginga::parse_percent (str, parent.width, 0, G_MAXINT);
     }
   if (elt->getAttribute ("top", &str))
     {
-      rect.y += ginga::parse_percent (str, parent.height, 0, G_MAXINT);
+      y += ginga::parse_percent (str, parent.height, 0, G_MAXINT);
     }
   if (elt->getAttribute ("width", &str))
     {
@@ -2955,14 +2958,16 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
     }
   if (elt->getAttribute ("right", &str))
     {
-      rect.x += parent.width - rect.width
-                - ginga::parse_percent (str, parent.width, 0, G_MAXINT);
+      x += (double) parent.width - rect.width
+           - ginga::parse_percent (str, parent.width, 0, G_MAXINT);
     }
   if (elt->getAttribute ("bottom", &str))
     {
-      rect.y += parent.height - rect.height
-                - ginga::parse_percent (str, parent.height, 0, G_MAXINT);
+      y += (double) parent.height - rect.height
+           - ginga::parse_percent (str, parent.height, 0, G_MAXINT);
     }
+  rect.x = (int) CLAMP (x, (double) G_MININT, (double) G_MAXINT);
+  rect.y = (int) CLAMP (y, (double) G_MININT, (double) G_MAXINT);
 
   // Update region position to absolute values.
   st->rectStackPush (rect);
-- 
2.43.0


From 7450599a108d1d5a7bb1cf1d9c8dd5511bc53a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 049/109] fix: generated ids may be in use by the document

---
 lib/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 3208717..d926386 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1121,8 +1121,10 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (isInUniqueSet (id));
   return id;
 }
 
-- 
2.43.0


From 87db3dcf1e60455eba7bf400f092316df0f5b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 050/109] fix: refuse the ids of the objects that every
 document has

---
 lib/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index d926386..03d8784 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2268,6 +2268,10 @@ ParserState::ParserState (int width, int height)
   _error = ParserState::ERROR_NONE;
   _errorMsg = "no error";
   this->rectStackPush ({ 0, 0, width, height });
+
+  // Ids of the objects that every document has.
+  this->addToUniqueSet ("__root__");
+  this->addToUniqueSet ("__settings__");
 }
 
 /**
-- 
2.43.0


From 4b7b8cbb5969de76bbf2697a1376a4153730a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 051/109] fix: refuse media sources that are not valid URIs

---
 lib/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 03d8784..39344e2 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4006,6 +4006,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
               // Makes uri based in the main document uri
               xmlChar *s = xmlBuildURI (toXmlChar (src),
                                         toXmlChar (st->getURI ()));
+              if (unlikely (s == nullptr))
+                {
+                  return st->errEltBadAttribute (elt->getNode (), "src",
+                                                 src, "invalid URI");
+                }
               src = toCPPString (s);
               if (!xpathisuri (src))
                 {
-- 
2.43.0


From 6875ee2fbe425fc3b305a5336488d903cb36cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 052/109] fix: refuse font sources without fonts

---
 lib/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 39344e2..2b9fe00 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4271,11 +4271,11 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   TRACE ("Adding font family='%s' src='%s' success: %d.", family.c_str (),
          path.c_str (), fontAddStatus);
 
-  if (fontAddStatus == FcTrue)
+  FcFontSet *fontSet
+      = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
+  if (fontAddStatus == FcTrue && fontSet != nullptr && fontSet->nfont > 0)
     {
       //  Replaces font metadata with the specifications in the <font> elt.
-      FcFontSet *fontSet
-          = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
       FcPattern *font = fontSet->fonts[fontSet->nfont - 1];
 
       // family
-- 
2.43.0


From 5fa14c8e4499e10ff9756629694cd27b161e87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 053/109] fix: empty negation in a composite rule

---
 lib/Document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 3c245e3..0a2e82d 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -529,6 +529,8 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
+      if (unlikely (pred->getChildren ()->empty ()))
+        return false; // nothing to negate
       return !this->evalPredicate (pred->getChildren ()->front ());
     case Predicate::CONJUNCTION:
       {
-- 
2.43.0


From edb46f945e78098197a6c60bf52c64e1f148d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 054/109] fix: notice circular imports through different paths

---
 lib/Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 2b9fe00..b0f6e4e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3560,6 +3560,13 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     }
   imported_uri = xurifromsrc (imported_uri, "");
 
+  // Remove "." and ".." segments, so that circular imports are noticed.
+  GFile *file = g_file_new_for_uri (imported_uri.c_str ());
+  gchar *uri = g_file_get_uri (file);
+  imported_uri = string (uri);
+  g_free (uri);
+  g_object_unref (file);
+
   // Push import alias and path onto alias stack.
   if (unlikely (!st->aliasStackPush (alias, imported_uri)))
     {
-- 
2.43.0


From 32c9e613b5181b7c7d392f2bcd40d93ab41e9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 055/109] fix: sides of nested regions, and of media beyond the
 screen

The right and bottom of a region are relative to its parent, but were used
as properties, which are relative to the screen.
---
 lib/Parser.cpp |  8 ++++++++
 lib/Player.cpp | 13 +++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index b0f6e4e..dabd527 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2981,12 +2981,20 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   double top = ((double) rect.y / screen.height) * 100.;
   double width = ((double) rect.width / screen.width) * 100.;
   double height = ((double) rect.height / screen.height) * 100.;
+  double right = (((double) screen.width - rect.x - rect.width)
+                  / screen.width) * 100.;
+  double bottom = (((double) screen.height - rect.y - rect.height)
+                   / screen.height) * 100.;
 
   elt->setAttribute ("zOrder", xstrbuild ("%d", last_zorder++));
   elt->setAttribute ("left", xstrbuild ("%g%%", left));
   elt->setAttribute ("top", xstrbuild ("%g%%", top));
   elt->setAttribute ("width", xstrbuild ("%g%%", width));
   elt->setAttribute ("height", xstrbuild ("%g%%", height));
+  if (elt->getAttribute ("right", nullptr))
+    elt->setAttribute ("right", xstrbuild ("%g%%", right));
+  if (elt->getAttribute ("bottom", nullptr))
+    elt->setAttribute ("bottom", xstrbuild ("%g%%", bottom));
 
   return true;
 }
diff --git a/lib/Player.cpp b/lib/Player.cpp
index 599ead4..dbd3bb5 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -706,8 +706,10 @@ Player::doSetProperty (Property code, unused (const string &name),
     case PROP_RIGHT:
       {
         int width = _formatter->getOptionInt ("width");
-        _prop.rect.x = width - _prop.rect.width
-                       - ginga::parse_percent (value, width, 0, G_MAXINT);
+        double right
+            = ginga::parse_percent (value, width, G_MININT, G_MAXINT);
+        _prop.rect.x = (int) CLAMP ((double) width - _prop.rect.width - right,
+                                    (double) G_MININT, (double) G_MAXINT);
         _dirty = true;
         break;
       }
@@ -721,8 +723,11 @@ Player::doSetProperty (Property code, unused (const string &name),
     case PROP_BOTTOM:
       {
         int height = _formatter->getOptionInt ("height");
-        _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, height, 0, G_MAXINT);
+        double bottom
+            = ginga::parse_percent (value, height, G_MININT, G_MAXINT);
+        _prop.rect.y
+            = (int) CLAMP ((double) height - _prop.rect.height - bottom,
+                           (double) G_MININT, (double) G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From e44c3aa5268f0a951bab81f51cccda9a16ea0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 056/109] fix: resize media objects whose dimensions are the
 default ones

---
 lib/Formatter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 3844c1d..f1d5ef5 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -218,10 +218,12 @@ Formatter::resize (int width, int height)
       media->setProperty (PROP, s);                                        \
   }
 
+      // By default, media objects fill the screen.
+      media->setProperty ("width", media->getProperty ("width"));
+      media->setProperty ("height", media->getProperty ("height"));
+
       UPDATE_IF_HAVE ("top");
       UPDATE_IF_HAVE ("left");
-      UPDATE_IF_HAVE ("width");
-      UPDATE_IF_HAVE ("height");
       UPDATE_IF_HAVE ("bottom");
       UPDATE_IF_HAVE ("right");
     }
-- 
2.43.0


From 6398c051a2f2c3cb145b54f4e4ff941e5027cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 057/109] fix: a background animated from none appears

---
 lib/PlayerAnimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index db6d593..87eaae8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -248,6 +248,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
       else if (name == "background:r")
         {
           UPDATE (info, double, bgColor->red, from8bit, 0., 1.);
+          bgColor->alpha = 1.; // there may be no background so far
         }
       else if (name == "background:g")
         {
-- 
2.43.0


From a6602e1f11bd263ce2e32fa94f25b76fe13bca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 058/109] fix: the last value set to a property prevails over
 animations in progress

---
 lib/Player.cpp         | 10 ++++++++++
 lib/PlayerAnimator.cpp | 21 +++++++++++++++++++++
 lib/PlayerAnimator.h   |  1 +
 3 files changed, 32 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index dbd3bb5..c2e398a 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -698,6 +698,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_LEFT:
       {
+        _animator->cancel ("left");
         int width = _formatter->getOptionInt ("width");
         _prop.rect.x = ginga::parse_percent (value, width, 0, G_MAXINT);
         _dirty = true;
@@ -705,6 +706,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_RIGHT:
       {
+        _animator->cancel ("left");
         int width = _formatter->getOptionInt ("width");
         double right
             = ginga::parse_percent (value, width, G_MININT, G_MAXINT);
@@ -715,6 +717,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_TOP:
       {
+        _animator->cancel ("top");
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
@@ -722,6 +725,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_BOTTOM:
       {
+        _animator->cancel ("top");
         int height = _formatter->getOptionInt ("height");
         double bottom
             = ginga::parse_percent (value, height, G_MININT, G_MAXINT);
@@ -733,6 +737,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_WIDTH:
       {
+        _animator->cancel ("width");
         int width = _formatter->getOptionInt ("width");
         _prop.rect.width = ginga::parse_percent (value, width, 0, G_MAXINT);
         _dirty = true;
@@ -744,6 +749,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_HEIGHT:
       {
+        _animator->cancel ("height");
         int height = _formatter->getOptionInt ("height");
         _prop.rect.height
             = ginga::parse_percent (value, height, 0, G_MAXINT);
@@ -767,12 +773,16 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_TRANSPARENCY:
       {
+        _animator->cancel ("transparency");
         _prop.alpha
             = (guint8) CLAMP (255 - ginga::parse_pixel (value), 0, 255);
         break;
       }
     case PROP_BACKGROUND:
       {
+        _animator->cancel ("background:r");
+        _animator->cancel ("background:g");
+        _animator->cancel ("background:b");
         if (value == "")
           _prop.bgColor = { 0, 0, 0, 0 };
         else
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 87eaae8..8e5980b 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -44,6 +44,24 @@ PlayerAnimator::clear ()
   _scheduled.clear ();
 }
 
+/**
+ * @brief Cancels the scheduled animations of property \p name.
+ */
+void
+PlayerAnimator::cancel (const string &name)
+{
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      if ((*it)->getName () == name)
+        {
+          delete *it;
+          it = _scheduled.erase (it);
+        }
+      else
+        ++it;
+    }
+}
+
 void
 PlayerAnimator::schedule (const string &name, const string &from,
                           const string &to, Time dur)
@@ -480,6 +498,9 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
       target = ginga::parse_percent (to, 100, 0, G_MAXINT);
     }
 
+  // The last value set prevails.
+  this->cancel (name);
+
   info = new AnimInfo (name, current, target, dur);
   if (from != "")
     info->init (current, *_time);
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..c9cd94a 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -87,6 +87,7 @@ public:
   PlayerAnimator (Formatter *, Time *);
   ~PlayerAnimator ();
   void clear ();
+  void cancel (const string &);
   void schedule (const string &, const string &, const string &, Time);
   void update (Rect *, Color *, guint8 *, list<int> *);
   void setTransitionProperties (const string &, const string &);
-- 
2.43.0


From d6844b80ea9683c1e8f88266eee5998aba481c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 059/109] fix: record the dimensions reached by animations of
 bounds, location and size

---
 lib/Media.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 1edd9b5..fb38c30 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -70,7 +70,27 @@ Media::setProperty (const string &name, const string &value, Time dur)
 
   g_assert (GINGA_TIME_IS_VALID (dur));
   if (dur > 0)
-    _player->schedulePropertyAnimation (name, from, value, dur);
+    {
+      // Record the dimensions being animated.
+      static const map<string, list<string> > dims = {
+        { "bounds", { "left", "top", "width", "height" } },
+        { "location", { "left", "top" } },
+        { "size", { "width", "height" } },
+      };
+      auto it = dims.find (name);
+      if (it != dims.end ())
+        {
+          list<string> lst;
+          int n = (int) it->second.size ();
+          if (ginga::try_parse_list (value, ',', n, n, &lst))
+            for (auto dim : it->second)
+              {
+                Object::setProperty (dim, lst.front ());
+                lst.pop_front ();
+              }
+        }
+      _player->schedulePropertyAnimation (name, from, value, dur);
+    }
   else
     _player->setProperty (name, value);
 }
-- 
2.43.0


From c08500d1cd0ba78528c5e15fc484659744be4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 060/109] fix: text media objects without an area

---
 lib/PlayerText.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index b1b170f..24f3709 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -177,10 +177,17 @@ PlayerText::reload ()
   if (_surface != nullptr)
     {
       cairo_surface_destroy (_surface);
+      _surface = nullptr;
       if (_opengl)
         GL::delete_texture (&_gltexture);
     }
 
+  if (!(Player::_prop.rect.width > 0 && Player::_prop.rect.height > 0))
+    {
+      _dirty = true;            // render it when there is where to
+      return;
+    }
+
   _surface = PlayerText::renderSurface (
       text, _prop.fontFamily, _prop.fontWeight, _prop.fontStyle,
       _prop.fontSize, _prop.fontColor, _prop.fontBgColor,
-- 
2.43.0


From fd45b78638c26d07a0d72c4570e41da8b681bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 061/109] fix: absolute paths as sources in NCL-ltab

---
 lib/ParserLua.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 3032dc1..e361b28 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -398,7 +398,7 @@ l_parse_media (lua_State *L)
         src = string (value);
 
         // resolve relative dir
-        if (src != "" && !xpathisuri (src) && !xpathisabs (src))
+        if (src != "" && !xpathisuri (src))
         {
           path = luaL_checkstring (L, 4);
           string dir = xpathdirname (path);
-- 
2.43.0


From 67272580074a729d855e9b6aa59fdd47c153e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 062/109] fix: selection events in NCL-ltab

---
 lib/ParserLua.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index e361b28..a9eb525 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -83,7 +83,9 @@ getEventStringAsEvent (string str, Context *parent)
     evt = str.substr (at + 1, str.npos);
     evt.pop_back ();
     obj = parent->getChildById (id);
-    return obj->getEvent (Event::SELECTION, evt);
+    obj->addSelectionEvent (evt);
+    obj->getSelectionEvent (evt)->setParameter ("key", evt);
+    return obj->getSelectionEvent (evt);
   }
 }
 
-- 
2.43.0


From 706ac2b751c83ebea99cdd2b3a5f3d475baec33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 063/109] fix: refuse references to what does not exist in
 NCL-ltab

---
 lib/ParserLua.cpp | 95 ++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 39 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index a9eb525..344891a 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -49,44 +49,60 @@ static int l_parse_predicate (lua_State *L);
 
 // Helper function
 static Event *
-getEventStringAsEvent (string str, Context *parent)
+getEventStringAsEvent (lua_State *L, const char *ref, Context *parent)
 {
-  Object *obj;
-  string id, evt;
+  Object *obj = nullptr;
+  Event *event = nullptr;
 
-  size_t at = str.find ('@');
+  { // destroys the strings before any error
+    string str = ref;
+    string id, evt;
+    Event::Type type = Event::SELECTION;
+    size_t at = str.find ('@');
 
-  if (at != str.npos) // presentation
-  {
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
+    if (at != str.npos) // presentation
+    {
+      type = Event::PRESENTATION;
+      evt = str.substr (at + 1, str.npos);
 
-    // only lambda should have '@' as prefix? this seems strange
-    if (xstrcasecmp ("lambda", evt) == 0)
-      evt = "@lambda";
+      // only lambda should have '@' as prefix? this seems strange
+      if (xstrcasecmp ("lambda", evt) == 0)
+        evt = "@lambda";
+    }
+    else if ((at = str.find ('.')) != str.npos) // attribution
+    {
+      type = Event::ATTRIBUTION;
+      evt = str.substr (at + 1, str.npos);
+    }
+    else if ((at = str.find ('<')) != str.npos
+             && str.back () == '>') // selection
+    {
+      evt = str.substr (at + 1, str.length () - at - 2);
+    }
+    else
+    {
+      at = str.npos;
+    }
 
-    return obj->getEvent (Event::PRESENTATION, evt);
-  }
-  else if (str.find ('.') != str.npos) // attribution
-  {
-    at = str.find ('.');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::ATTRIBUTION, evt);
-  }
-  else // selection
-  {
-    at = str.find ('<');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    evt.pop_back ();
-    obj = parent->getChildById (id);
-    obj->addSelectionEvent (evt);
-    obj->getSelectionEvent (evt)->setParameter ("key", evt);
-    return obj->getSelectionEvent (evt);
+    if (at != str.npos)
+    {
+      id = str.substr (0, at);
+      obj = parent->getChildById (id);
+    }
+    if (obj != nullptr)
+    {
+      if (type == Event::SELECTION)
+      {
+        obj->addSelectionEvent (evt);
+        obj->getSelectionEvent (evt)->setParameter ("key", evt);
+      }
+      event = obj->getEvent (type, evt);
+    }
   }
+
+  if (event == nullptr)
+    luaL_error (L, "no such event: %s", ref);
+  return event;
 }
 
 /* Parsing functions. */
@@ -305,6 +321,9 @@ l_parse_switch (lua_State *L)
       const string id_media = string (luaL_checkstring (L, -1));
       Object *obj = swtch->getChildById (id_media);
 
+      if (obj == nullptr)
+        luaL_error (L, "no such child: %s", id_media.c_str ());
+
       lua_rawgeti (L, 10, 2);
       luaL_checktype (L, -1, LUA_TTABLE);
 
@@ -331,15 +350,13 @@ l_parse_port (lua_State *L)
   Event *event;
   Document *doc;
   Context *parent;
-  string str;
 
   doc = (Document *) lua_touserdata (L, 1);
   g_assert_nonnull (doc);
   parent = (Context *) lua_touserdata (L, 2);
   g_assert_nonnull (parent);
-  str = string (luaL_checkstring (L, -1));
 
-  event = getEventStringAsEvent (str, parent);
+  event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
   g_assert_nonnull (event);
   parent->addPort (event);
 
@@ -580,8 +597,8 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 6, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event
+        = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 6, 3); // predicate
     act.predicate = nullptr;
@@ -619,8 +636,8 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 7, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event
+        = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 7, 3); // value
     if (!lua_isnil (L, -1))
-- 
2.43.0


From 285d8e3e733518b8340c0a08be2e48a61af069f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 064/109] fix: refuse malformed tables in NCL-ltab

---
 lib/ParserLua.cpp | 110 ++++++++++++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 38 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 344891a..86bfe97 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -105,6 +105,32 @@ getEventStringAsEvent (lua_State *L, const char *ref, Context *parent)
   return event;
 }
 
+// Helper function
+static void
+checkId (lua_State *L, Document *doc, const char *id)
+{
+  if (doc->getObjectByIdOrAlias (id) != nullptr)
+    luaL_error (L, "id is already in use: %s", id);
+}
+
+// Helper function
+static Event::Transition
+checkTransition (lua_State *L, int i)
+{
+  const char *str = luaL_checkstring (L, i);
+
+  if (xstrcasecmp ("set", str) == 0)
+    return Event::START;
+
+  for (auto t : { Event::START, Event::PAUSE, Event::RESUME, Event::STOP,
+                  Event::ABORT })
+    if (xstrcasecmp (Event::getEventTransitionAsString (t), str) == 0)
+      return t;
+
+  luaL_error (L, "bad transition: %s", str);
+  return Event::START;
+}
+
 /* Parsing functions. */
 
 /* parse_context (doc, [parent], tab, path) */
@@ -144,6 +170,7 @@ l_parse_context (lua_State *L)
   }
   else // non-root
   {
+    checkId (L, doc, id);
     ctx = new Context (id);
     parent->addChild (ctx);
   }
@@ -151,9 +178,11 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -189,7 +218,7 @@ l_parse_context (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", child.c_str ());
       }
     }
   }
@@ -197,6 +226,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // ports
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -212,6 +242,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 6);
   if (lua_isnil (L, -1) == 0) // links
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -262,15 +293,18 @@ l_parse_switch (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
   swtch = new Switch (id);
   parent->addChild (swtch);
 
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -306,7 +340,7 @@ l_parse_switch (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", child.c_str ());
       }
     }
   }
@@ -314,9 +348,11 @@ l_parse_switch (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // rules
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, 10, LUA_TTABLE);
       lua_rawgeti (L, 10, 1);
       const string id_media = string (luaL_checkstring (L, -1));
       Object *obj = swtch->getChildById (id_media);
@@ -394,7 +430,6 @@ l_parse_media (lua_State *L)
 
   lua_rawgeti (L, 3, 2);
   id = luaL_checkstring (L, -1);
-  media = new Media (id);
 
   if (parent == NULL) // error
   {
@@ -402,16 +437,23 @@ l_parse_media (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
+  media = new Media (id);
+  parent->addChild (media);
+
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // have property list
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 7) != 0)
     {
+      if (lua_type (L, -2) != LUA_TSTRING)
+        luaL_error (L, "bad property name");
       name = lua_tolstring (L, -2, 0);
       value = lua_tolstring (L, -1, 0);
 
-      if (xstrcasecmp ("src", name) == 0)
+      if (xstrcasecmp ("src", name) == 0 && value != NULL)
       {
         name = "uri";
         src = string (value);
@@ -430,83 +472,77 @@ l_parse_media (lua_State *L)
       {
         string aux;
 
+        luaL_checktype (L, 9, LUA_TTABLE);
         lua_getfield (L, 9, "type");
-        if (lua_isnil (L, -1) == 0)
-        {
-          aux = lua_tolstring (L, -1, 0);
-          str = "{type='" + aux + "',";
-        }
-        else
-        {
-          g_assert_not_reached ();
-        }
+        aux = luaL_checkstring (L, -1);
+        str = "{type='" + aux + "',";
 
         lua_getfield (L, 9, "subtype");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "";
         str += "subtype='" + aux + "',";
 
         lua_getfield (L, 9, "dur");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "dur='" + aux + "',";
 
         lua_getfield (L, 9, "startProgress");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "startProgress='" + aux + "',";
 
         lua_getfield (L, 9, "endProgress");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "endProgress='" + aux + "',";
 
         lua_getfield (L, 9, "direction");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "forward";
         str += "direction='" + aux + "',";
 
         lua_getfield (L, 9, "fadeColor");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "";
         str += "fadeColor='" + aux + "',";
 
         lua_getfield (L, 9, "horzRepeat");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "horzRepeat='" + aux + "',";
 
         lua_getfield (L, 9, "vertRepeat");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "vertRepeat='" + aux + "',";
 
         lua_getfield (L, 9, "borderWidth");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "0";
         str += "borderWidth='" + aux + "',";
 
         lua_getfield (L, 9, "borderColor");
         if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
+          aux = luaL_checkstring (L, -1);
         else
           aux = "";
         str += "borderColor='" + aux + "',";
@@ -516,6 +552,8 @@ l_parse_media (lua_State *L)
         lua_pop (L, 11);
       }
 
+      if (value == NULL)
+        luaL_error (L, "bad value of property: %s", name);
       media->addAttributionEvent (name);
       media->setProperty (name, value);
       lua_pop (L, 1);
@@ -527,11 +565,13 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // have area list
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 5) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      name = lua_tolstring (L, -1, nullptr);
+      name = luaL_checkstring (L, -1);
 
       lua_pop (L, 1);
       lua_rawgeti (L, -1, 2);
@@ -562,7 +602,6 @@ l_parse_media (lua_State *L)
     }
   }
 
-  parent->addChild (media);
   return 0;
 }
 
@@ -588,13 +627,9 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 6, LUA_TTABLE);
     lua_rawgeti (L, 6, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition = checkTransition (L, -1);
 
     lua_rawgeti (L, 6, 2); // event
     act.event
@@ -627,13 +662,9 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 7, LUA_TTABLE);
     lua_rawgeti (L, 7, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition = checkTransition (L, -1);
 
     lua_rawgeti (L, 7, 2); // event
     act.event
@@ -670,6 +701,9 @@ l_parse_link (lua_State *L)
     lua_pop (L, 5);
   }
 
+  if (conditions.empty () || actions.empty ())
+    luaL_error (L, "link without conditions or actions");
+
   parent->addLink (conditions, actions);
   return 0;
 }
@@ -736,7 +770,7 @@ l_parse_predicate (lua_State *L)
       else if (xstrcasecmp (str, ">=") == 0)
         test = Predicate::GE;
       else
-        g_assert_not_reached ();
+        luaL_error (L, "bad operator: %s", str.c_str ());
 
       it->setTest (left, test, right);
       break;
-- 
2.43.0


From 4e835fb137de38fbc6e5f66bc43c09309d6de6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 065/109] fix: properties of contexts in NCL-ltab

---
 lib/ParserLua.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 86bfe97..0730fbc 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -175,6 +175,25 @@ l_parse_context (lua_State *L)
     parent->addChild (ctx);
   }
 
+  lua_rawgeti (L, 3, 3);
+  if (lua_isnil (L, -1) == 0) // property list
+  {
+    luaL_checktype (L, -1, LUA_TTABLE);
+    lua_pushnil (L);
+    while (lua_next (L, -2) != 0)
+    {
+      const char *value = lua_tostring (L, -1);
+      if (lua_type (L, -2) != LUA_TSTRING)
+        luaL_error (L, "bad property name");
+      const char *name = lua_tostring (L, -2);
+      if (value == NULL)
+        luaL_error (L, "bad value of property: %s", name);
+      ctx->addAttributionEvent (name);
+      ctx->setProperty (name, value);
+      lua_pop (L, 1);
+    }
+  }
+
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
-- 
2.43.0


From d47dfb01d72e21997ecce967d53df878d6e78d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 066/109] fix: carry out delayed actions in the order of the
 link

The acts of a link are visited backwards, to be stacked, and the delayed
ones were scheduled in that order.
---
 lib/Document.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 0a2e82d..a2ec0fb 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -268,6 +268,7 @@ Document::evalActionInContext (Action act, Context *ctx)
 
           // Success.
           auto acts = link.second;
+          list<pair<Action, Time> > delayed;
           for (auto ri = acts.rbegin (); ri != acts.rend (); ++ri)
             {
               Action next_act = *(ri);
@@ -287,16 +288,14 @@ Document::evalActionInContext (Action act, Context *ctx)
                 }
               else
                 {
-                  Event *next_evt = next_act.event;
-                  g_assert_nonnull (next_evt);
-                  Object *next_obj = next_evt->getObject ();
-                  g_assert_nonnull (next_obj);
-
-                  ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay,
-                                         next_act.duration);
+                  // Acts are visited backwards: keep the order of the link.
+                  delayed.push_front (std::make_pair (next_act, delay));
                 }
             }
+          for (auto &it : delayed)
+            ctx->addDelayedAction (it.first.event, it.first.transition,
+                                   it.first.value, it.second,
+                                   it.first.duration);
         }
     }
   return stack;
-- 
2.43.0


From 0c6d639fe7e166a634e71bdbb2d9974d55508169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 067/109] fix: forget the due actions of an object that was
 stopped and restarted

The remaining actions due at that tick belong to the presentation that was
stopped; and a restarted context ended before it started its ports.
---
 lib/Context.cpp |  5 +++++
 lib/Object.cpp  | 36 +++++++++++++++---------------------
 lib/Object.h    |  1 +
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index db901ff..f219c68 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -149,6 +149,11 @@ Context::sendTick (Time total, Time diff, Time frame)
   // Update object time.
   Object::sendTick (total, diff, frame);
 
+  // If restarted by some action that was due, its ports are yet to start.
+  for (auto &it : _delayed)
+    if (it.first.transition == Event::START && it.second <= _time)
+      return;
+
   // Check for EOS.
   if (_parent == nullptr && _awakeChildren == 1)
     {
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 98cea69..296001c 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -385,37 +385,30 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
   g_assert (GINGA_TIME_IS_VALID (_time));
   _time += diff;
 
-  list<Action> trigger;
-  for (auto &it : _delayed)
+  g_assert (_due.empty ());
+  for (auto it = _delayed.begin (); it != _delayed.end ();)
     {
-      if (_time >= it.second)
+      if (_time >= it->second)
         {
-          it.second = GINGA_TIME_NONE;
-          trigger.push_back (it.first);
+          _due.push_back (it->first);
+          it = _delayed.erase (it);
         }
+      else
+        ++it;
     }
 
-  while (!trigger.empty ())
+  while (!_due.empty ())
     {
-      Action action = trigger.front ();
-      trigger.pop_front ();
+      Action action = _due.front ();
+      _due.pop_front ();
       _doc->evalAction (action);
-      if (!this->isOccurring ())
+      if (this->isPaused ()) // keep the others to when it is resumed
         {
-          if (this->isPaused ()) // keep the others to when it is resumed
-            for (auto act : trigger)
-              _delayed.push_back (std::make_pair (act, _time));
-          return;
+          for (auto act : _due)
+            _delayed.push_back (std::make_pair (act, _time));
+          _due.clear ();
         }
     }
-
-  for (auto it = _delayed.begin (); it != _delayed.end ();)
-    {
-      if (it->second == GINGA_TIME_NONE)
-        it = _delayed.erase (it);
-      else
-        ++it;
-    }
 }
 
 Time
@@ -448,6 +441,7 @@ Object::doStop ()
   for (auto evt : _events)
     evt->reset ();
   _delayed.clear ();
+  _due.clear ();
   if (_parent != nullptr && instanceof (Context *, _parent))
     cast (Context *, _parent)->decAwakeChildren ();
 }
diff --git a/lib/Object.h b/lib/Object.h
index 3c58569..678b0aa 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -118,6 +118,7 @@ protected:
   Event *_lambda;                              // lambda event
   set<Event *> _events;                        // all events
   list<pair<Action, Time> > _delayed;          // delayed actions
+  list<Action> _due;                           // those of them that are due
 
   virtual void doStart ();
   virtual void doStop ();
-- 
2.43.0


From f8b30a9ec47befd50ec308dd16b7d94c188efab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 068/109] fix: do not lose focus updates scheduled by links on
 the focus

---
 lib/MediaSettings.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..744ec9d 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,9 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
-      _hasNextFocus = false;
+      string next = _nextFocus;
+      _hasNextFocus = false; // links may schedule another update
+      this->updateCurrentFocus (next);
     }
   Media::sendTick (total, diff, frame);
 }
-- 
2.43.0


From a10b4db54f7c27df94b24d3cb755b47472297877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 069/109] fix: refuse font sources that are directories

Fontconfig shares the patterns of the fonts of a directory with its
read-only cache, so that changing them crashes.
---
 lib/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index dabd527..ab4ed5c 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4281,7 +4281,9 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
     path = xpathmakeabs (src);
 
   const FcChar8 *fcfilename = (const FcChar8 *) path.c_str ();
-  FcBool fontAddStatus = FcConfigAppFontAddFile (NULL, fcfilename);
+  FcBool fontAddStatus = FcFalse;
+  if (g_file_test (path.c_str (), G_FILE_TEST_IS_REGULAR)) // not a directory
+    fontAddStatus = FcConfigAppFontAddFile (NULL, fcfilename);
 
   TRACE ("Adding font family='%s' src='%s' success: %d.", family.c_str (),
          path.c_str (), fontAddStatus);
-- 
2.43.0


From 37845b206c6c37739d7d7afba46270733c40732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 070/109] fix: release the components of a switch together with
 it

The components of switches were never deleted: those awake when the
document was disposed stayed so, with their players and scripts open.
---
 lib/Switch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1995b73..cd55d80 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -32,6 +32,9 @@ Switch::Switch (const string &id) : Composition (id)
 
 Switch::~Switch ()
 {
+  for (auto child : _children)
+    delete child;
+
   for (auto item : _rules)
     delete item.second;
 }
-- 
2.43.0


From 82e68257ce83dd433d3b0bc89d5d8e2ec1cfecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 071/109] fix: do not end the program on requests nested too
 deeply

The JSON parser throws an exception when its stack limit is exceeded.
---
 lib/WebServices.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index ee742a5..059a425 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -73,10 +73,17 @@ parse_body (SoupMessage *msg, Json::Value *root)
   string errors;
   const char *body = msg->request_body->data;
 
-  return body != nullptr
-         && reader->parse (body, body + msg->request_body->length, root,
-                           &errors)
-         && root->isObject ();
+  try
+    {
+      return body != nullptr
+             && reader->parse (body, body + msg->request_body->length, root,
+                               &errors)
+             && root->isObject ();
+    }
+  catch (const Json::Exception &) // nested too deeply
+    {
+      return false;
+    }
 }
 
 // Gets the string in the given member of JSON object.
-- 
2.43.0


From 5a9185a1c12dd77b20bb04dab74b19187a32f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 072/109] fix: offer devices the media objects with a device
 property

Whether a media object is remote was tested when it was added to the
document, before the parsers set its properties.
---
 lib/Document.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index a2ec0fb..3398824 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -153,10 +153,6 @@ Document::addObject (Object *obj)
       Media *media = cast (Media *, obj);
       g_assert_nonnull (media);
       _medias.insert (media);
-      if (PlayerRemote::usesPlayerRemote (media))
-        {
-          _mediasRemote.insert (media);
-        }
     }
   else if (instanceof (Context *, obj))
     {
@@ -208,6 +204,10 @@ Document::getMedias ()
 const set<Media *> *
 Document::getMediasRemote ()
 {
+  _mediasRemote.clear ();
+  for (auto media : _medias)
+    if (PlayerRemote::usesPlayerRemote (media))
+      _mediasRemote.insert (media);
   return &_mediasRemote;
 }
 
-- 
2.43.0


From cd20542ec2a3e6fa986bb4e3cbc935360950b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:39 +0000
Subject: [PATCH 073/109] fix: keep the focus of each presentation apart

The current focus was a global of all players, so that it was carried over
from one presentation to the next, and shared by those in course.
---
 lib/MediaSettings.cpp |  9 ---------
 lib/MediaSettings.h   |  1 -
 lib/Player.cpp        | 21 +++++----------------
 lib/Player.h          |  5 -----
 4 files changed, 5 insertions(+), 31 deletions(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index 744ec9d..1408657 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -44,15 +44,6 @@ MediaSettings::getObjectTypeAsString ()
   return "MediaSettings";
 }
 
-void
-MediaSettings::setProperty (const string &name, const string &value,
-                            Time dur)
-{
-  if (name == "service.currentFocus")
-    Player::setCurrentFocus (value);
-  Media::setProperty (name, value, dur);
-}
-
 void
 MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
diff --git a/lib/MediaSettings.h b/lib/MediaSettings.h
index 28524dd..d27de9e 100644
--- a/lib/MediaSettings.h
+++ b/lib/MediaSettings.h
@@ -30,7 +30,6 @@ public:
 
   // Object:
   string getObjectTypeAsString () override;
-  void setProperty (const string &, const string &, Time) override;
   void sendTick (Time, Time, Time) override;
 
   // Media;
diff --git a/lib/Player.cpp b/lib/Player.cpp
index c2e398a..52d0054 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -20,6 +20,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 
 #include "Player.h"
 #include "Media.h"
+#include "MediaSettings.h"
 
 #include "PlayerImage.h"
 #include "PlayerText.h"
@@ -209,7 +210,10 @@ Player::getZ (int *zindex, int *zorder)
 bool
 Player::isFocused ()
 {
-  return _prop.focusIndex != "" && _prop.focusIndex == _currentFocus;
+  Document *doc = _media->getDocument ();
+  return _prop.focusIndex != "" && doc != nullptr
+         && _prop.focusIndex
+                == doc->getSettings ()->getProperty ("service.currentFocus");
 }
 
 Time
@@ -487,21 +491,6 @@ void Player::sendKeyEvent (unused (const string &key), unused (bool press))
 
 // Public: Static.
 
-// Current focus index value.
-string Player::_currentFocus = "";
-
-string
-Player::getCurrentFocus ()
-{
-  return _currentFocus;
-}
-
-void
-Player::setCurrentFocus (const string &index)
-{
-  _currentFocus = index;
-}
-
 Player::Property
 Player::getPlayerProperty (const string &name, string *defval)
 {
diff --git a/lib/Player.h b/lib/Player.h
index 461fb06..0a308aa 100644
--- a/lib/Player.h
+++ b/lib/Player.h
@@ -123,8 +123,6 @@ public:
   }
 
   // Static.
-  static string getCurrentFocus ();
-  static void setCurrentFocus (const string &);
   static Property getPlayerProperty (const string &, string *);
   static bool getMimeForURI (const string &, string*);
   static Player *createPlayer (Formatter *, Media *, const string &,
@@ -169,9 +167,6 @@ protected:
 
 private:
   void redrawDebuggingInfo (cairo_t *);
-
-  // Static.
-  static string _currentFocus; // current (global) focus index
 };
 
 }
-- 
2.43.0


From d80aa55ffb556f111d74f58879494fafca005f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 074/109] fix: restore G_MESSAGES_DEBUG when debugging was
 turned on twice

---
 lib/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index f1d5ef5..ddc0721 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -556,7 +556,7 @@ Formatter::setOptionDebug (Formatter *self, const string &name, bool value)
   if (value)
     {
       const char *curr = g_getenv ("G_MESSAGES_DEBUG");
-      if (curr != nullptr)
+      if (curr != nullptr && !g_str_equal (curr, "all")) // not already on
         self->_saved_G_MESSAGES_DEBUG = string (curr);
       g_assert (g_setenv ("G_MESSAGES_DEBUG", "all", true));
     }
-- 
2.43.0


From 2644a27be3481132844963b711d620524f535674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 075/109] fix: end a video or audio when its content ends

---
 lib/PlayerVideo.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 82e7bf8..d6e6fb2 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -95,6 +95,14 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
   _TRACE ("");
 
+  _prop.mute = false;
+  _prop.balance = 0.;
+  _prop.volume = 1.;
+  _prop.treble = 0.;
+  _prop.bass = 0.;
+  _prop.freeze = false;
+  _prop.speed = 1.;
+
   // Initialize GStreamer.
   if (!gst_is_initialized ())
     {
@@ -399,7 +407,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
     case GST_MESSAGE_EOS:
       {
         _TRACE_MESSAGE (msg, "");
-        // player->stop (); // set eos or use player state to signal eos
+        if (!player->getFreeze ())
+          player->setEOS (true);
         break;
       }
     case GST_MESSAGE_NEW_CLOCK:
-- 
2.43.0


From 273e14ea9b39c1abb39fee95708fdf3928b49dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 076/109] fix: apply the sound properties of a video or audio

---
 lib/PlayerVideo.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index d6e6fb2..599aae1 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -131,6 +131,44 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
   g_assert (ret > 0);
   gst_object_unref (bus);
 
+  // Setup the audio processing bin.
+  _audio.bin = gst_bin_new ("audio.bin");
+  g_assert_nonnull (_audio.bin);
+
+  _audio.volume = gst_element_factory_make ("volume", "audio.volume");
+  g_assert_nonnull (_audio.volume);
+
+  _audio.pan = gst_element_factory_make ("audiopanorama", "audio.pan");
+  g_assert_nonnull (_audio.pan);
+
+  _audio.equalizer
+      = gst_element_factory_make ("equalizer-3bands", "audio.equalizer");
+  g_assert_nonnull (_audio.equalizer);
+
+  _audio.convert = gst_element_factory_make ("audioconvert", "audio.convert");
+  g_assert_nonnull (_audio.convert);
+
+  // Try to use ALSA if available.
+  _audio.sink = gst_element_factory_make ("alsasink", "audio.sink");
+  if (_audio.sink == NULL)
+    _audio.sink = gst_element_factory_make ("autoaudiosink", "audio.sink");
+  g_assert_nonnull (_audio.sink);
+
+  gst_bin_add_many (GST_BIN (_audio.bin), _audio.volume, _audio.pan,
+                    _audio.equalizer, _audio.convert, _audio.sink, nullptr);
+  g_assert (gst_element_link_many (_audio.volume, _audio.pan,
+                                   _audio.equalizer, _audio.convert,
+                                   _audio.sink, nullptr));
+
+  pad = gst_element_get_static_pad (_audio.volume, "sink");
+  g_assert_nonnull (pad);
+  ghost = gst_ghost_pad_new ("sink", pad);
+  g_assert_nonnull (ghost);
+  g_assert (gst_element_add_pad (_audio.bin, ghost));
+  gst_object_unref (pad);
+
+  g_object_set (G_OBJECT (_playbin), "audio-sink", _audio.bin, nullptr);
+
   // Setup video the processing bin.
   _video.bin = gst_bin_new ("video.bin");
   g_assert_nonnull (_video.bin);
-- 
2.43.0


From 7495780ead6666c2c5e4f28e909121b39735df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 077/109] fix: do not give back GStreamer references twice

---
 lib/PlayerVideo.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 599aae1..beab150 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -297,7 +297,6 @@ PlayerVideo::speed (double value)
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
-  gst_event_unref (seek_event);
 }
 
 void
@@ -509,7 +508,6 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
             _WARNING ("%s", error->message);
           }
         g_error_free (error);
-        gst_object_unref (obj);
         break;
       }
     default:
-- 
2.43.0


From ff8a13f18066c6453c929fec9c7be0d6d529c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 078/109] fix: release the bus watch of audio and video players

---
 lib/PlayerSigGen.cpp | 10 +++++++++-
 lib/PlayerVideo.cpp  |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index bb1c3c3..970156d 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -178,6 +178,15 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
 
 PlayerSigGen::~PlayerSigGen ()
 {
+  GstBus *bus;
+
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_pipeline));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+
+  gst_element_set_state (_pipeline, GST_STATE_NULL);
+  gst_object_unref (_pipeline);
 }
 
 void
@@ -218,7 +227,6 @@ PlayerSigGen::stop ()
   TRACE ("stopping");
 
   gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
-  gst_object_unref (_pipeline);
   Player::stop ();
 }
 
diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index beab150..d4f3b0a 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -203,7 +203,15 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
 PlayerVideo::~PlayerVideo ()
 {
+  GstBus *bus;
+
   _TRACE ("");
+
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_playbin));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+
   gstx_element_set_state_sync (_playbin, GST_STATE_NULL);
   gst_object_unref (_playbin);
 }
-- 
2.43.0


From e4975beeb3b3878a44ad1badb37abc735451f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 079/109] fix: seek and change the speed of a video set before
 it plays

---
 lib/PlayerVideo.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index d4f3b0a..b495fc6 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -370,7 +370,7 @@ PlayerVideo::getPipelineTime ()
 gint64
 PlayerVideo::getStreamMediaTime ()
 {
-  gint64 cur;
+  gint64 cur = 0;
   if (unlikely (
           !gst_element_query_position (_playbin, GST_FORMAT_TIME, &cur)))
     TRACE ("Get %s time failed", _id.c_str ());
@@ -380,7 +380,7 @@ PlayerVideo::getStreamMediaTime ()
 gint64
 PlayerVideo::getStreamMediaDuration ()
 {
-  gint64 dur;
+  gint64 dur = -1;
   if (unlikely (
           !gst_element_query_duration (_playbin, GST_FORMAT_TIME, &dur)))
     TRACE ("Get %s duration failed", _id.c_str ());
@@ -492,6 +492,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
                             gst_element_state_get_name (old_state),
                             gst_element_state_get_name (new_state));
           }
+        if (new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+          player->doStackedActions ();
         break;
       }
     case GST_MESSAGE_ERROR:
@@ -575,6 +577,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             stackAction (code, name, value);
             break;
           }
+        this->doStackedActions ();
 
         if (_state != SLEEPING)
           {
@@ -591,6 +594,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             stackAction (code, name, value);
             break;
           }
+        this->doStackedActions ();
 
         if (_state != SLEEPING)
           {
@@ -607,18 +611,23 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             TRACE ("time: %" GST_TIME_FORMAT " / %" GST_TIME_FORMAT,
                    GST_TIME_ARGS (cur), GST_TIME_ARGS (dur));
 
-            try_parse_time (value, &t);
+            bool relative
+                = xstrhasprefix (value, "+") || xstrhasprefix (value, "-");
+            if (unlikely (!try_parse_time (
+                    relative ? value.substr (1) : value, &t)))
+              return false;
+
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
-                if (next + cur >= dur)
+                if (dur >= 0 && next + cur >= dur)
                   setEOS (true);
 
                 next += cur;
               }
             else if (xstrhasprefix (value, "-"))
               {
-                next = (next - cur < 0) ? 0 : next - cur;
+                next = (cur - next < 0) ? 0 : cur - next;
               }
             seek (next);
           }
@@ -667,14 +676,12 @@ PlayerVideo::stackAction (Property code, unused (const string &name),
 void
 PlayerVideo::doStackedActions ()
 {
-  while (!_stack_actions.empty ())
-    {
-      PlayerVideoAction act;
-      act = _stack_actions.front ();
-      _stack_actions.pop_front ();
+  list<PlayerVideoAction> actions;
 
-      this->doSetProperty (act.code, act.name, act.value);
-    }
+  // Actions that still cannot be done are stacked again.
+  actions.swap (_stack_actions);
+  for (auto &act : actions)
+    this->doSetProperty (act.code, act.name, act.value);
 }
 
 bool
-- 
2.43.0


From 22f17c29531bddbbfabc946b14a11810d52a5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 080/109] fix: clear the callbacks of signal generators

---
 lib/PlayerSigGen.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 970156d..30ce02a 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -163,8 +163,7 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
   gst_object_unref (_audio.queueVideoPad);
 
   // Callbacks.
-  _callbacks.eos = nullptr;
-  _callbacks.new_preroll = nullptr;
+  _callbacks = GstAppSinkCallbacks ();
   _callbacks.new_sample = cb_NewSample;
   gst_app_sink_set_callbacks (GST_APP_SINK (_audio.videoSink), &_callbacks,
                               this, nullptr);
-- 
2.43.0


From b63b2f2006fd5af8e1489ae070b4b6c96572b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 081/109] fix: keep the rate of a video when it is set to zero,
 play backwards from here

---
 lib/PlayerVideo.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index b495fc6..0a9c559 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -301,7 +301,7 @@ PlayerVideo::speed (double value)
     {
       seek_event = gst_event_new_seek (
           value, GST_FORMAT_TIME, GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
-          GST_SEEK_TYPE_NONE, position);
+          GST_SEEK_TYPE_SET, position);
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
@@ -581,7 +581,11 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
 
         if (_state != SLEEPING)
           {
-            _prop.speed = xstrtod (value);
+            double rate = xstrtod (value);
+            if (doubleeq (rate, 0.))
+              break; // nothing to do
+
+            _prop.speed = rate;
             speed (_prop.speed);
           }
         break;
-- 
2.43.0


From 0280f525f6e0d3f60049d32d8c3053c070858016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 082/109] fix: begin a media started by an anchor at the exact
 begin of the anchor

---
 lib/Media.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index fb38c30..a071e0d 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -241,8 +241,9 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (begin == GINGA_TIME_NONE)
                       begin = 0;
 
-                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                  begin / GINGA_SECOND);
+                    string time_seek = xstrbuild (
+                        "%" G_GUINT64_FORMAT ".%09" G_GUINT64_FORMAT,
+                        begin / GINGA_SECOND, begin % GINGA_SECOND);
                     TRACE ("time_seek %ss", time_seek.c_str ());
                     _player->setProperty ("time", time_seek);
 
-- 
2.43.0


From 6cb0e1a8a30cac0bbd58fb5a4c78504cedd1ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:06 +0000
Subject: [PATCH 083/109] fix: restore the directory current before each run of
 a script

PlayerLua saved the current directory only when the script was opened, so each
later redraw went back to that one, whatever the directory had become.
---
 lib/PlayerLua.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 142b166..3ef97e7 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -241,26 +241,28 @@ do_chdir (string dir)
 void
 PlayerLua::pwdSave (const string &path)
 {
-  gchar *cwd;
   gchar *dir;
 
-  cwd = g_get_current_dir ();
-  g_assert_nonnull (cwd);
-
   dir = g_path_get_dirname (path.c_str ());
   g_assert_nonnull (dir);
 
-  _saved_pwd = string (cwd);
   _pwd = string (dir);
-  do_chdir (_pwd);
-
-  g_free (cwd);
   g_free (dir);
+
+  this->pwdSave ();
 }
 
 void
 PlayerLua::pwdSave ()
 {
+  gchar *cwd;
+
+  cwd = g_get_current_dir ();
+  g_assert_nonnull (cwd);
+
+  _saved_pwd = string (cwd);
+  g_free (cwd);
+
   do_chdir (_pwd);
 }
 
-- 
2.43.0


From 4d5089089578392c84a6823bf7ad888cf867bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 084/109] fix: let web services try further ports

A third player with web services on one machine was aborted by an assertion,
as only two ports were tried.
---
 lib/WebServices.cpp | 29 ++++++++++++++++-------------
 lib/WebServices.h   |  1 +
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 059a425..5c663cc 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -281,22 +281,25 @@ WebServices::start ()
   g_assert_nonnull (_server);
   // set server to handle both /location and other routes in WS_PORT_DEFAULT
 
-  ret = soup_server_listen_all (_server, WS_PORT_DEFAULT,
-                                SoupServerListenOptions (0), &error);
-  if (ret)
+  for (int i = 0; i < WS_PORT_TRIES && !ret; i++)
     {
-      this->host_port = WS_PORT_DEFAULT;
+      this->host_port = WS_PORT_DEFAULT + i;
+      ret = soup_server_listen_all (_server, this->host_port,
+                                    SoupServerListenOptions (0), &error);
+      if (!ret)
+        {
+          TRACE ("WebServices fail serve at port %d: %s\n", this->host_port,
+                 error->message);
+          g_clear_error (&error);
+        }
     }
-  else
+  if (!ret)
     {
-      TRACE ("WebServices fail serve at default port %d: %s\n",
-             WS_PORT_DEFAULT, error->message);
-      g_error_free (error);
-      // if fail use WS_PORT_DEFAULT + 1
-      ret = soup_server_listen_all (_server, WS_PORT_DEFAULT + 1,
-                                    SoupServerListenOptions (0), &error);
-      g_assert (ret);
-      this->host_port = WS_PORT_DEFAULT + 1;
+      WARNING ("WebServices found no free port");
+      g_clear_object (&_resource_group);
+      g_clear_object (&_client);
+      g_clear_object (&_server);
+      return false;
     }
 
   // ssdp avaliable
diff --git a/lib/WebServices.h b/lib/WebServices.h
index a05bdec..2d3768c 100644
--- a/lib/WebServices.h
+++ b/lib/WebServices.h
@@ -58,6 +58,7 @@ public:
 #define WS_ROUTE_PLAYER "/remote-mediaplayer"
 #define WS_ROUTE_APPS "/current-service/apps/"
 #define WS_PORT_DEFAULT 44642
+#define WS_PORT_TRIES 32
 #define WS_JSON_REMOTE_PLAYER                                              \
   "{\
      \"location\" : \"%s\", \
-- 
2.43.0


From d7323ea8db5f60ee04277e8b69beb057d0e4eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 085/109] fix: accept commas and equal signs in the values of
 tables

A transition whose fadeColor or borderColor is written rgb(R,G,B) aborted the
player as soon as a media with it started, as the table made of its attributes
was split at every comma.
---
 lib/Parser.cpp    |  4 +++-
 lib/aux-ginga.cpp | 43 ++++++++++++++++++++++++++-----------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab4ed5c..c1f1afe 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2432,7 +2432,9 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                 {
                   if (!trans_elt->getAttribute (field.first, &str))
                     str = field.second;
-                  val += "," + field.first + "='" + str + "'";
+                  const char *quote
+                      = str.find ('\'') == string::npos ? "'" : "\"";
+                  val += "," + field.first + "=" + quote + str + quote;
                 }
               val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index c56d6db..8227774 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -144,9 +144,8 @@ try_parse_list (const string &s, char sep, size_t min, size_t max,
  * @param result Variable to store the resulting table.
  * @return True if successful, or false otherwise.
  *
- * @todo Add support for keys or values containing embedded commas and
- * scaped quotes.  Put another way, replace xstrsplit() call by real parsing
- * code.
+ * @todo Add support for keys containing embedded commas and for escaped
+ * quotes.
  */
 bool
 try_parse_table (const string &s, map<string, string> *result)
@@ -159,26 +158,36 @@ try_parse_table (const string &s, map<string, string> *result)
     return false;
 
   str.assign (str.substr (1, str.length () - 2));
-  for (auto &it : xstrsplit (str, ','))
+  for (size_t i = 0; i < str.length ();)
     {
-      list<string> pr;
       string key;
       string val;
+      size_t eq, end;
 
-      if (unlikely (!try_parse_list (it, '=', 2, 2, &pr)))
+      // Key.
+      eq = str.find ('=', i);
+      if (unlikely (eq == string::npos))
+        return false;
+      key = xstrstrip (str.substr (i, eq - i));
+      if (unlikely (key.find (',') != string::npos))
         return false;
 
-      auto pr_it = pr.begin ();
-      key = xstrstrip (*pr_it++);
-      val = xstrstrip (*pr_it++);
-      g_assert (pr_it == pr.end ());
-      if (unlikely (val.length () < 2
-                    || !((val.front () == '\'' && val.back () == '\'')
-                         || (val.front () == '"' && val.back () == '"'))))
-        {
-          return false;
-        }
-      tab[key] = val.substr (1, val.length () - 2);
+      // Value: up to the next quote of the same kind.
+      i = str.find_first_not_of (" \t\n\v\f\r", eq + 1);
+      if (unlikely (i == string::npos || (str[i] != '\'' && str[i] != '"')))
+        return false;
+      end = str.find (str[i], i + 1);
+      if (unlikely (end == string::npos))
+        return false;
+      val = str.substr (i + 1, end - i - 1);
+
+      // Separator, which is optional after the last field.
+      i = end + 1;
+      end = str.find (',', i);
+      if (unlikely (xstrstrip (str.substr (i, end - i)) != ""))
+        return false;
+      i = (end == string::npos) ? end : end + 1;
+      tab[key] = val;
     }
 
   tryset (result, tab);
-- 
2.43.0


From 06a30a199f53934b49b5c9643c3e004faeb29668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 086/109] fix: give up a transition when the links it triggers
 act upon its event

Pausing a context whose media triggers a link which stops the body left the
context paused inside the sleeping body.
---
 lib/Event.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Event.cpp b/lib/Event.cpp
index 514f2f6..889058d 100644
--- a/lib/Event.cpp
+++ b/lib/Event.cpp
@@ -217,6 +217,10 @@ Event::transition (Event::Transition trans)
   if (unlikely (!_object->beforeTransition (this, trans)))
     return false;
 
+  // The links triggered meanwhile may have acted upon the event.
+  if (unlikely (_state != curr))
+    return false;
+
   // Update event state.
   _state = next;
 
-- 
2.43.0


From 57a43157b654b8035e2ab2261a20be9f92ad9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:17 +0000
Subject: [PATCH 087/109] fix: change at once, despite a duration, what cannot
 be animated

An attribution with a duration on a property that the animator does not know
(visible, zIndex, explicitDur, right, a property of an NCLua script...) never
reached the player of the media; the alias backgroundColor was not animated.
---
 lib/Player.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 52d0054..81667e6 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -353,7 +353,25 @@ void
 Player::schedulePropertyAnimation (const string &name, const string &from,
                                    const string &to, Time dur)
 {
-  _animator->schedule (name, from, to, dur);
+  switch (Player::getPlayerProperty (name, nullptr))
+    {
+    case PROP_BACKGROUND:
+      _animator->schedule ("background", from, to, dur);
+      break;
+    case PROP_BOUNDS:
+    case PROP_LOCATION:
+    case PROP_SIZE:
+    case PROP_LEFT:
+    case PROP_TOP:
+    case PROP_WIDTH:
+    case PROP_HEIGHT:
+    case PROP_TRANSPARENCY:
+      _animator->schedule (name, from, to, dur);
+      break;
+    default: // cannot be animated
+      this->setProperty (name, to);
+      break;
+    }
 }
 
 void
-- 
2.43.0


From a9f1ec5932312ec2f49598453707499819268ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 088/109] fix: tell the keys pressed from the keys released

The program told the player that a key was released when it was pressed, and
that it was pressed when it was released.
---
 src/ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 0c9bb5c..f079207 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -255,7 +255,7 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
     }
 
   bool status = GINGA->sendKey (
-      string (key), g_str_equal ((const char *) type, "press") == 0);
+      string (key), g_str_equal ((const char *) type, "press"));
 
   if (free_key)
     g_free (deconst (char *, key));
-- 
2.43.0


From 4b75b2c05e88d24044d3e189b7624bdbe1482fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 089/109] fix: ignore keys that have no name

A key that the keyboard map does not know (keyval 0) made the program read a
null string.
---
 src/ginga.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index f079207..a3c3e72 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -246,6 +246,8 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
       break;
     default:
       key = gdk_keyval_name (e->keyval);
+      if (key == nullptr)
+        return FALSE; // no such key
       if (strlen (key) > 1)
         {
           key = g_utf8_strup (key, -1);
-- 
2.43.0


From f16290e00949b92859f5edd48f4140df9b9c7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 090/109] fix: give ticks to every file, counted from its start

When the presentation of the first file ended by itself the tick callback was
removed, so that the files after it never advanced; and their times, and the
first of their steps, counted what had gone before.
---
 src/ginga.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index a3c3e72..6fc04b3 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -49,6 +49,9 @@ static string opt_background = "";        // background color
 static gint opt_width = 800;              // initial window width
 static gint opt_height = 600;             // initial window height
 
+// Whether the next tick is the first one of the presentation.
+static bool FIRST_TICK = true;
+
 static gboolean
 opt_background_cb (unused (const gchar *opt), const gchar *arg,
                    unused (gpointer data), unused (GError **err))
@@ -293,17 +296,18 @@ tick_callback (GtkWidget *widget)
   frame++;
 #endif
 
-  if (frame == 0)
+  if (FIRST_TICK)
     {
       first = time;
       last = time;
+      FIRST_TICK = false;
     }
 
   if (!GINGA->sendTick (time - first, time - last, frame))
     {
       g_assert (GINGA->getState () == GINGA_STATE_STOPPED);
       gtk_main_quit (); // all done
-      return G_SOURCE_REMOVE;
+      return G_SOURCE_CONTINUE; // there may be other files to play
     }
 
   last = time;
@@ -434,6 +438,7 @@ main (int argc, char **argv)
           fail_count++;
           continue;
         }
+      FIRST_TICK = true;
       gtk_widget_show_all (app);
       gtk_main ();
       GINGA->stop ();
-- 
2.43.0


From a3b9cff5b40afd13a792ef7011aa2f2922028a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:53 +0000
Subject: [PATCH 091/109] fix: draw colors with OpenGL even before the first
 texture

The attributes of the vertices were only described when a texture was drawn.
---
 lib/aux-gl.cpp | 58 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/lib/aux-gl.cpp b/lib/aux-gl.cpp
index 65edf77..2fbb8e9 100644
--- a/lib/aux-gl.cpp
+++ b/lib/aux-gl.cpp
@@ -116,6 +116,39 @@ static GLuint elements[] = { 0, 1, 2, 2, 3, 0 };
   }                                                                        \
   G_STMT_END
 
+#if defined WITH_OPENGL && WITH_OPENGL
+/**
+ * @brief Uploads #vertices and describes their attributes to the shaders.
+ */
+static void
+upload_vertices ()
+{
+  glBindBuffer (GL_ARRAY_BUFFER, gles2ctx.vbo);
+  //  glBindBuffer (GL_ELEMENT_ARRAY_BUFFER, gles2ctx.ebo);
+
+  glBufferData (GL_ARRAY_BUFFER, sizeof (vertices), vertices,
+                GL_STATIC_DRAW);
+
+  glEnableVertexAttribArray ((GLuint) gles2ctx.posAttr);
+  glVertexAttribPointer ((GLuint) gles2ctx.posAttr, 2, GL_FLOAT, GL_FALSE,
+                         sizeof (struct sprite), NULL);
+
+  CHECK_GL_ERROR ();
+
+  glEnableVertexAttribArray ((GLuint) gles2ctx.colorAttr);
+  glVertexAttribPointer ((GLuint) gles2ctx.colorAttr, 4, GL_FLOAT, GL_FALSE,
+                         sizeof (struct sprite),
+                         (GLvoid *) (2 * sizeof (GLfloat)));
+
+  glEnableVertexAttribArray ((GLuint) gles2ctx.texAttr);
+  glVertexAttribPointer ((GLuint) gles2ctx.texAttr, 2, GL_FLOAT, GL_FALSE,
+                         sizeof (struct sprite),
+                         (GLvoid *) (6 * sizeof (GLfloat)));
+
+  CHECK_GL_ERROR ();
+}
+#endif
+
 /**
  * @brief GL::init Initiliazes the OpenGL context.
  */
@@ -400,27 +433,7 @@ GL::draw_quad (int x, int y, int w, int h, GLuint gltex, GLfloat alpha)
   vertices[3].v_color[2] = 1.0;
   vertices[3].v_color[3] = alpha;
 
-  glBindBuffer (GL_ARRAY_BUFFER, gles2ctx.vbo);
-  //  glBindBuffer (GL_ELEMENT_ARRAY_BUFFER, gles2ctx.ebo);
-
-  glBufferData (GL_ARRAY_BUFFER, sizeof (vertices), vertices,
-                GL_STATIC_DRAW);
-
-  glEnableVertexAttribArray ((GLuint) gles2ctx.posAttr);
-  glVertexAttribPointer ((GLuint) gles2ctx.posAttr, 2, GL_FLOAT, GL_FALSE,
-                         sizeof (struct sprite), NULL);
-
-  CHECK_GL_ERROR ();
-
-  glEnableVertexAttribArray ((GLuint) gles2ctx.colorAttr);
-  glVertexAttribPointer ((GLuint) gles2ctx.colorAttr, 4, GL_FLOAT, GL_FALSE,
-                         sizeof (struct sprite),
-                         (GLvoid *) (2 * sizeof (GLfloat)));
-
-  glEnableVertexAttribArray ((GLuint) gles2ctx.texAttr);
-  glVertexAttribPointer ((GLuint) gles2ctx.texAttr, 2, GL_FLOAT, GL_FALSE,
-                         sizeof (struct sprite),
-                         (GLvoid *) (6 * sizeof (GLfloat)));
+  upload_vertices ();
 
   glEnable (GL_BLEND);
   glBlendFunc (GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA);
@@ -477,8 +490,7 @@ GL::draw_quad (int x, int y, int w, int h, GLfloat r, GLfloat g, GLfloat b,
   vertices[3].v_color[2] = b;
   vertices[3].v_color[3] = a;
 
-  glBufferData (GL_ARRAY_BUFFER, sizeof (vertices), vertices,
-                GL_STATIC_DRAW);
+  upload_vertices ();
 
   glDrawElements (GL_TRIANGLES, 6, GL_UNSIGNED_INT, 0);
 
-- 
2.43.0


From 1bdcd7ef9a9754f550aa83e3b80cb86ed0b2bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 092/109] fix: blend textures of OpenGL as the premultiplied
 colors they are

Translucent parts of texts and pictures came out too dark.
---
 lib/aux-gl.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/aux-gl.cpp b/lib/aux-gl.cpp
index 2fbb8e9..fe524e9 100644
--- a/lib/aux-gl.cpp
+++ b/lib/aux-gl.cpp
@@ -407,36 +407,37 @@ GL::draw_quad (int x, int y, int w, int h, GLuint gltex, GLfloat alpha)
 
   vertices[0].pos[0] = (GLfloat) x;
   vertices[0].pos[1] = (GLfloat) y;
-  vertices[0].v_color[0] = 1.0;
-  vertices[0].v_color[1] = 1.0;
-  vertices[0].v_color[2] = 1.0;
+  vertices[0].v_color[0] = alpha;
+  vertices[0].v_color[1] = alpha;
+  vertices[0].v_color[2] = alpha;
   vertices[0].v_color[3] = alpha;
 
   vertices[1].pos[0] = (GLfloat) (x + w);
   vertices[1].pos[1] = (GLfloat) y;
-  vertices[1].v_color[0] = 1.0;
-  vertices[1].v_color[1] = 1.0;
-  vertices[1].v_color[2] = 1.0;
+  vertices[1].v_color[0] = alpha;
+  vertices[1].v_color[1] = alpha;
+  vertices[1].v_color[2] = alpha;
   vertices[1].v_color[3] = alpha;
 
   vertices[2].pos[0] = (GLfloat) (x + w);
   vertices[2].pos[1] = (GLfloat) (y + h);
-  vertices[2].v_color[0] = 1.0;
-  vertices[2].v_color[1] = 1.0;
-  vertices[2].v_color[2] = 1.0;
+  vertices[2].v_color[0] = alpha;
+  vertices[2].v_color[1] = alpha;
+  vertices[2].v_color[2] = alpha;
   vertices[2].v_color[3] = alpha;
 
   vertices[3].pos[0] = (GLfloat) x;
   vertices[3].pos[1] = (GLfloat) (y + h);
-  vertices[3].v_color[0] = 1.0;
-  vertices[3].v_color[1] = 1.0;
-  vertices[3].v_color[2] = 1.0;
+  vertices[3].v_color[0] = alpha;
+  vertices[3].v_color[1] = alpha;
+  vertices[3].v_color[2] = alpha;
   vertices[3].v_color[3] = alpha;
 
   upload_vertices ();
 
+  // The colors of cairo surfaces are already multiplied by their alpha.
   glEnable (GL_BLEND);
-  glBlendFunc (GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA);
+  glBlendFunc (GL_ONE, GL_ONE_MINUS_SRC_ALPHA);
   glBlendEquation (GL_FUNC_ADD);
 
   // glDrawArrays (GL_TRIANGLES, 0, 3);
@@ -492,6 +493,10 @@ GL::draw_quad (int x, int y, int w, int h, GLfloat r, GLfloat g, GLfloat b,
 
   upload_vertices ();
 
+  glEnable (GL_BLEND);
+  glBlendFunc (GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA);
+  glBlendEquation (GL_FUNC_ADD);
+
   glDrawElements (GL_TRIANGLES, 6, GL_UNSIGNED_INT, 0);
 
   CHECK_GL_ERROR ();
-- 
2.43.0


From 524640b5f6e0364dff2d89df6fcd34ab6792671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:48 +0000
Subject: [PATCH 093/109] fix: do not delete an OpenGL texture twice

The player of scripts deletes its texture when it stops and once more
when it is destroyed, when the name may be that of another texture.
---
 lib/aux-gl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/aux-gl.cpp b/lib/aux-gl.cpp
index fe524e9..45b1794 100644
--- a/lib/aux-gl.cpp
+++ b/lib/aux-gl.cpp
@@ -342,6 +342,7 @@ GL::delete_texture (GLuint *gltex)
   if (*gltex)
     {
       glDeleteTextures (1, gltex);
+      *gltex = 0;
     }
 
   CHECK_GL_ERROR ();
-- 
2.43.0


From 3e6d5aace8fea6a3cb2515518096557dba6cce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:58 +0000
Subject: [PATCH 094/109] fix: draw the debugging information with OpenGL too

It was drawn with cairo, of which there is no context then: the program
crashed with option -d.
---
 lib/Formatter.cpp | 26 +++++++++++++++++++-------
 lib/Player.cpp    | 12 ++++++++++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index ddc0721..ee8d368 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -305,13 +305,25 @@ Formatter::redraw (cairo_t *cr)
                                          fg, bg, rect, "center", "", true,
                                          &ink);
       ink = { 0, 0, rect.width, ink.height - ink.y + 4 };
-      cairo_save (cr);
-      cairo_set_source_rgba (cr, 1., 0., 0., .5);
-      cairo_rectangle (cr, 0, 0, ink.width, ink.height);
-      cairo_fill (cr);
-      cairo_set_source_surface (cr, debug, 0, 0);
-      cairo_paint (cr);
-      cairo_restore (cr);
+      if (_opts.opengl)
+        {
+          GLuint tex = 0;
+          GL::draw_quad (0, 0, ink.width, ink.height, 1.f, 0.f, 0.f, .5f);
+          GL::create_texture (&tex, rect.width, rect.height,
+                              cairo_image_surface_get_data (debug));
+          GL::draw_quad (0, 0, rect.width, rect.height, tex);
+          GL::delete_texture (&tex);
+        }
+      else
+        {
+          cairo_save (cr);
+          cairo_set_source_rgba (cr, 1., 0., 0., .5);
+          cairo_rectangle (cr, 0, 0, ink.width, ink.height);
+          cairo_fill (cr);
+          cairo_set_source_surface (cr, debug, 0, 0);
+          cairo_paint (cr);
+          cairo_restore (cr);
+        }
       cairo_surface_destroy (debug);
     }
 }
diff --git a/lib/Player.cpp b/lib/Player.cpp
index 81667e6..92eaa25 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -856,6 +856,18 @@ Player::redrawDebuggingInfo (cairo_t *cr)
       _prop.rect, "center", "middle", true, nullptr);
   g_assert_nonnull (debug);
 
+  if (_opengl)
+    {
+      GLuint tex = 0;
+      GL::create_texture (&tex, _prop.rect.width, _prop.rect.height,
+                          cairo_image_surface_get_data (debug));
+      GL::draw_quad (_prop.rect.x, _prop.rect.y, _prop.rect.width,
+                     _prop.rect.height, tex);
+      GL::delete_texture (&tex);
+      cairo_surface_destroy (debug);
+      return;
+    }
+
   sx = (double) _prop.rect.width / cairo_image_surface_get_width (debug);
   sy = (double) _prop.rect.height / cairo_image_surface_get_height (debug);
 
-- 
2.43.0


From 9ef399627a89b8bc4e5f0e2e7e7fd9b33646d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 095/109] fix: count the ticks of the window program from the
 start of the presentation

The first frame of the program, number zero, comes before anything is
played, so that the times were those since the boot of the system, and
the first step of each presentation was as long as all that came before.
---
 src/gingagui/BigPictureWindow.cpp |  3 ++-
 src/gingagui/Draw.cpp             | 12 +++++++++++-
 src/gingagui/MainWindow.cpp       |  3 ++-
 src/gingagui/gingagui.h           |  1 +
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/gingagui/BigPictureWindow.cpp b/src/gingagui/BigPictureWindow.cpp
index 6ede8b0..9878852 100644
--- a/src/gingagui/BigPictureWindow.cpp
+++ b/src/gingagui/BigPictureWindow.cpp
@@ -305,7 +305,8 @@ play_application_in_bigpicture ()
 
       if (card->index == 0)
         {
-          GINGA->start (card->src, nullptr);
+          if (GINGA->start (card->src, nullptr))
+            restart_ticks ();
           isPlayingApp = TRUE;
           set_fullscreen_mode ();
         }
diff --git a/src/gingagui/Draw.cpp b/src/gingagui/Draw.cpp
index 315fd53..4e74dc2 100644
--- a/src/gingagui/Draw.cpp
+++ b/src/gingagui/Draw.cpp
@@ -19,6 +19,15 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-glib.h"
 #include <cairo.h>
 
+// Whether the next tick is the first one of a presentation.
+static gboolean firstTick = TRUE;
+
+void
+restart_ticks (void)
+{
+  firstTick = TRUE;
+}
+
 #if GTK_CHECK_VERSION(3, 8, 0)
 gboolean
 update_draw_callback (GtkWidget *widget, GdkFrameClock *frame_clock,
@@ -44,10 +53,11 @@ update_draw_callback (GtkWidget *widget)
   frame++;
 #endif
 
-  if (frame == 0)
+  if (firstTick)
     {
       first = time;
       last = time;
+      firstTick = FALSE;
     }
 
   if (!GINGA->sendTick (time - first, time - last, frame))
diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 424edf6..42b937a 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -1075,7 +1075,8 @@ play_pause_button_callback (void)
       gtk_widget_set_sensitive (playButton, !inPlayMode);
 
       // Start Ginga.
-      GINGA->start (file, nullptr);
+      if (GINGA->start (file, nullptr))
+        restart_ticks ();
 
       // clear log
       gtk_text_buffer_set_text (consoleTxtBuffer, "", 0);
diff --git a/src/gingagui/gingagui.h b/src/gingagui/gingagui.h
index ff3f7e8..8917d66 100644
--- a/src/gingagui/gingagui.h
+++ b/src/gingagui/gingagui.h
@@ -107,6 +107,7 @@ gboolean update_draw_callback (GtkWidget *widget,
 gboolean update_draw_callback (GtkWidget *widget);
 #endif
 void draw_callback (GtkWidget *widget, cairo_t *cr, gpointer data);
+void restart_ticks (void);
 
 /* Model/SaveLoadSettings */
 void save_settings (void);
-- 
2.43.0


From fc19739da396d9bcec6e292b39de368ad7920500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 096/109] fix: leave the play mode when a file cannot be played

The window kept waiting for the end of a presentation that had not begun,
and told nothing when a document was refused.
---
 src/gingagui/MainWindow.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 42b937a..fb23ae7 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -18,6 +18,8 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "gingagui.h"
 #include "aux-glib.h"
 
+using namespace ::std;
+
 GtkWidget *mainWindow = NULL;
 GtkWidget *gingaView = NULL;
 GtkWidget *sideFrame = NULL;
@@ -1060,6 +1062,7 @@ play_pause_button_callback (void)
       const gchar *ext = strrchr (file, '.');
       if (g_strcmp0 (ext, ".ncl"))
         {
+          inPlayMode = FALSE;
           show_infobar (g_markup_printf_escaped (
               "Error reading \"%s\": %s is a invalid formart file.", file,
               ext));
@@ -1075,8 +1078,17 @@ play_pause_button_callback (void)
       gtk_widget_set_sensitive (playButton, !inPlayMode);
 
       // Start Ginga.
-      if (GINGA->start (file, nullptr))
-        restart_ticks ();
+      string errmsg;
+      if (GINGA->start (file, &errmsg))
+        {
+          restart_ticks ();
+        }
+      else
+        {
+          stop_button_callback ();
+          show_infobar (g_markup_printf_escaped (
+              "Error playing \"%s\": %s", file, errmsg.c_str ()));
+        }
 
       // clear log
       gtk_text_buffer_set_text (consoleTxtBuffer, "", 0);
-- 
2.43.0


From 6e32a25274ae15dac1e355332bb3616313d06ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 097/109] fix: do not remove a line of the history twice

The last line was removed again when it was the file itself, and was lost
when the file was another line of a full history.
---
 src/gingagui/MainWindow.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index fb23ae7..aa0ab32 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -432,21 +432,23 @@ insert_historicbox (gchar *filename)
 {
   gtk_entry_set_text (GTK_ENTRY (fileEntry), filename);
   GList *childs = gtk_container_get_children (GTK_CONTAINER (historicBox));
+  guint n = 0; // number of rows kept
   for (GList *l = childs; l != NULL; l = l->next)
     {
       GtkWidget *row = (GtkWidget *) l->data;
       GtkWidget *label = gtk_bin_get_child (GTK_BIN (row));
-      if (strcmp (filename, gtk_label_get_text (GTK_LABEL (label))) == 0)
+      if (n == 5
+          || strcmp (filename, gtk_label_get_text (GTK_LABEL (label))) == 0)
         {
           gtk_container_remove (GTK_CONTAINER (historicBox),
                                 GTK_WIDGET (row));
         }
-      if (l->next == NULL && g_list_length (childs) > 5)
+      else
         {
-          gtk_container_remove (GTK_CONTAINER (historicBox),
-                                GTK_WIDGET (row));
+          n++;
         }
     }
+  g_list_free (childs);
   GtkWidget *label = gtk_label_new (filename);
   gtk_widget_set_halign (label, GTK_ALIGN_START);
 
-- 
2.43.0


From 8d245bb05007163cc742b845aae37759b83406b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 098/109] fix: read whatever settings file there is, and any
 name in the history

The window program crashed if the file lacked a key, and took a name with
"##" in it for two.
---
 src/gingagui/SaveLoadSettings.cpp | 65 +++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/gingagui/SaveLoadSettings.cpp b/src/gingagui/SaveLoadSettings.cpp
index eb90ce2..dd66c79 100644
--- a/src/gingagui/SaveLoadSettings.cpp
+++ b/src/gingagui/SaveLoadSettings.cpp
@@ -42,28 +42,43 @@ save_settings (void)
       key_file, "ginga-gui", "gui-theme",
       g_markup_printf_escaped ("%d", presentationAttributes.guiTheme));
 
-  gchar *hist_str = g_markup_printf_escaped (" ");
+  GPtrArray *hist = g_ptr_array_new ();
   GList *childs = gtk_container_get_children (GTK_CONTAINER (historicBox));
   for (GList *l = childs; l != NULL; l = l->next)
     {
       GtkWidget *row = (GtkWidget *) l->data;
       GtkWidget *label = gtk_bin_get_child (GTK_BIN (row));
-      hist_str = g_strconcat (hist_str, "##",
-                              gtk_label_get_text (GTK_LABEL (label)), NULL);
+      g_ptr_array_add (hist,
+                       (gpointer) gtk_label_get_text (GTK_LABEL (label)));
     }
+  g_list_free (childs);
+  g_ptr_array_add (hist, NULL);
 
-  g_key_file_set_value (key_file, "ginga-gui", "historic", hist_str);
+  g_key_file_set_string_list (key_file, "ginga-gui", "history",
+                              (const gchar *const *) hist->pdata,
+                              hist->len - 1);
+  g_ptr_array_free (hist, TRUE);
 
   g_key_file_save_to_file (key_file, file_path, &error);
 
-  g_free (hist_str);
   g_free (file_path);
 }
 
+static void
+load_setting (GKeyFile *key_file, const gchar *name, guint *value)
+{
+  gchar *str = g_key_file_get_value (key_file, "ginga-gui", name, NULL);
+  if (str != NULL)
+    *value = atoi (str);
+  g_free (str);
+}
+
 void
 load_settings (void)
 {
   GError *error = NULL;
+  gchar *id = NULL;
+  gchar **hist = NULL;
   gchar *hist_str = NULL;
   gchar *file_path = g_build_path (
       G_DIR_SEPARATOR_S, g_get_user_config_dir (), SETTINGS_FILENAME, NULL);
@@ -73,36 +88,44 @@ load_settings (void)
                                   &error))
     goto endload;
 
-  gingaID
-      = g_key_file_get_value (key_file, "ginga-gui", "ginga-ID", &error);
+  id = g_key_file_get_value (key_file, "ginga-gui", "ginga-ID", NULL);
+  if (id != NULL)
+    gingaID = id;
 
-  presentationAttributes.aspectRatio = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "aspect-ratio", &error));
-  presentationAttributes.frameRate = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "frame-rate", &error));
-  presentationAttributes.guiTheme = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "gui-theme", &error));
+  load_setting (key_file, "aspect-ratio",
+                &presentationAttributes.aspectRatio);
+  load_setting (key_file, "frame-rate", &presentationAttributes.frameRate);
+  load_setting (key_file, "gui-theme", &presentationAttributes.guiTheme);
 
-  hist_str
-      = g_key_file_get_value (key_file, "ginga-gui", "historic", &error);
+  hist = g_key_file_get_string_list (key_file, "ginga-gui", "history", NULL,
+                                     NULL);
+  if (hist == NULL) // as saved by former versions
+    {
+      hist_str
+          = g_key_file_get_value (key_file, "ginga-gui", "historic", NULL);
+      if (hist_str != NULL)
+        {
+          gchar *names = strstr (hist_str, "##");
+          hist = g_strsplit (names != NULL ? names + 2 : "", "##", -1);
+        }
+    }
 
-  if (hist_str != NULL)
+  if (hist != NULL)
     {
       if (historicBox == NULL)
         {
           historicBox = gtk_list_box_new ();
           g_assert_nonnull (historicBox);
         }
-      gchar **str_split = g_strsplit (hist_str, "##", -1);
-      guint str_v_len = g_strv_length (str_split);
-      for (guint i = 1; i < str_v_len; i++)
+      guint len = g_strv_length (hist);
+      for (guint i = 0; i < len; i++)
         {
 
-          GtkWidget *label = gtk_label_new (str_split[i]);
+          GtkWidget *label = gtk_label_new (hist[i]);
           gtk_widget_set_halign (label, GTK_ALIGN_START);
           gtk_list_box_insert (GTK_LIST_BOX (historicBox), label, -1);
         }
-      g_strfreev (str_split);
+      g_strfreev (hist);
     }
 
 endload:
-- 
2.43.0


From 5223f83053b875507fc488d670429ca865c66a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 099/109] fix: pass the letters b, d, f and r on to the
 document

The window program passed them, and the keys it handles itself, on as a
key without name; the shortcuts for the console and the remote control
acted on release too, which undid what they had done; and a key that the
keyboard map does not know (keyval 0) made it read a null string.
---
 src/gingagui/MainWindow.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index aa0ab32..98760a4 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -487,6 +487,7 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
                    gpointer type)
 {
   const char *key = "\0";
+  bool press = g_strcmp0 ((const char *) type, "press") == 0;
 
   switch (e->keyval)
     {
@@ -508,22 +509,30 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     case GDK_KEY_F:
     case GDK_KEY_f:
-      if (isCrtlModifierActive && !isFullScreenMode)
+      if (!isCrtlModifierActive)
+        key = gdk_keyval_name (e->keyval);
+      else if (!isFullScreenMode)
         set_fullscreen_mode ();
       break;
     case GDK_KEY_R:
     case GDK_KEY_r:
-      if (isCrtlModifierActive)
+      if (!isCrtlModifierActive)
+        key = gdk_keyval_name (e->keyval);
+      else if (press)
         create_tvcontrol_window ();
       break;
     case GDK_KEY_B:
     case GDK_KEY_b:
         //if (isCrtlModifierActive)
         //  create_bigpicture_window ();
+        if (!isCrtlModifierActive)
+          key = gdk_keyval_name (e->keyval);
         break;
     case GDK_KEY_D:
     case GDK_KEY_d:
-      if (isCrtlModifierActive)
+      if (!isCrtlModifierActive)
+        key = gdk_keyval_name (e->keyval);
+      else if (press)
         enable_disable_debug ();
       break;
     case GDK_KEY_asterisk:
@@ -572,6 +581,8 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     default:
       key = gdk_keyval_name (e->keyval);
+      if (key == NULL) // unnamed key
+        return;
       if (strlen (key) > 1)
         {
           key = g_utf8_strup (key, -1);
@@ -579,9 +590,8 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     }
 
-  if (GINGA->getState () == GINGA_STATE_PLAYING)
-    GINGA->sendKey (std::string (key),
-                    g_strcmp0 ((const char *) type, "press") == 0);
+  if (*key != '\0' && GINGA->getState () == GINGA_STATE_PLAYING)
+    GINGA->sendKey (std::string (key), press);
 
 }
 
-- 
2.43.0


From 50da09704856925d18d213a8a72fc602481d1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 100/109] fix: release the buttons of the remote control

A selection occurs until its key is released, so that each button acted
once only.
---
 src/gingagui/TvControlWindow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gingagui/TvControlWindow.cpp b/src/gingagui/TvControlWindow.cpp
index c26acf2..2dd0c86 100644
--- a/src/gingagui/TvControlWindow.cpp
+++ b/src/gingagui/TvControlWindow.cpp
@@ -27,6 +27,7 @@ key_tvremote_press_event_callback (GtkWidget *widget,
 {
   const gchar *widget_name = gtk_widget_get_name (widget);
   GINGA->sendKey (std::string (widget_name), true);
+  GINGA->sendKey (std::string (widget_name), false);
 }
 
 GtkWidget *
-- 
2.43.0


From 180a69deb3d343e8369350345e23ed5d1533b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 101/109] fix: show messages in the console in full

The length is one of bytes, not of characters.
---
 src/gingagui/MainWindow.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 98760a4..13de4c2 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -127,12 +127,11 @@ g_log_default_handler (unused (const gchar *log_domain),
   // insert message in console text view
   const char *time_label = "[00:00] ";
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    time_label,
-                                    g_utf8_strlen (time_label, -1));
+                                    time_label, -1);
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    message, g_utf8_strlen (message, -1));
+                                    message, -1);
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    "\n", g_utf8_strlen ("\n", -1));
+                                    "\n", -1);
 
   if ((log_level == G_LOG_LEVEL_ERROR) || (log_level == G_LOG_FLAG_FATAL))
     {
-- 
2.43.0


From 68463b1081653b6086084beb9b9d975bd7017299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 102/109] fix: look for the monitor of the window, not of the
 widget

---
 src/gingagui/FullscreenWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gingagui/FullscreenWindow.cpp b/src/gingagui/FullscreenWindow.cpp
index a7af328..94dd59f 100644
--- a/src/gingagui/FullscreenWindow.cpp
+++ b/src/gingagui/FullscreenWindow.cpp
@@ -35,7 +35,7 @@ create_fullscreen_window (void)
 
 #if GTK_CHECK_VERSION(3, 22, 0)
   GdkMonitor *monitor = gdk_display_get_monitor_at_window (
-      GDK_DISPLAY (display), GDK_WINDOW (mainWindow));
+      GDK_DISPLAY (display), gtk_widget_get_window (mainWindow));
   g_assert_nonnull (monitor);
   gdk_monitor_get_geometry (GDK_MONITOR (monitor), &rect);
 #else
-- 
2.43.0


From f4b683914adde13db355972fdcefd47561260d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:29 +0000
Subject: [PATCH 103/109] fix: save the history whenever it changes

---
 src/gingagui/MainWindow.cpp | 1 +
 src/gingagui/gingagui.cpp   | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 13de4c2..0704c83 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -469,6 +469,7 @@ select_historic_line (GtkListBox *box, GtkListBoxRow *row,
 
   gtk_widget_show_all (historicBox);
   hide_historicbox ();
+  save_settings ();
 
   if (!inPlayMode)
     {
diff --git a/src/gingagui/gingagui.cpp b/src/gingagui/gingagui.cpp
index c16c122..9d8d87e 100644
--- a/src/gingagui/gingagui.cpp
+++ b/src/gingagui/gingagui.cpp
@@ -233,7 +233,10 @@ main (int argc, char **argv)
           gchar *filename = saved_argv[1];
           gchar *ext = strrchr (filename, '.');
           if (!g_strcmp0 (ext, ".ncl"))
-            insert_historicbox (filename);
+            {
+              insert_historicbox (filename);
+              save_settings ();
+            }
         }
     }
 
-- 
2.43.0


From cee216c71671daa9e892348f7537da040507a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 104/109] fix: report the names of files as they are

The bar shows plain text, not markup.
---
 src/gingagui/MainWindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 0704c83..a22ff82 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -1075,7 +1075,7 @@ play_pause_button_callback (void)
       if (g_strcmp0 (ext, ".ncl"))
         {
           inPlayMode = FALSE;
-          show_infobar (g_markup_printf_escaped (
+          show_infobar (g_strdup_printf (
               "Error reading \"%s\": %s is a invalid formart file.", file,
               ext));
           return;
@@ -1098,7 +1098,7 @@ play_pause_button_callback (void)
       else
         {
           stop_button_callback ();
-          show_infobar (g_markup_printf_escaped (
+          show_infobar (g_strdup_printf (
               "Error playing \"%s\": %s", file, errmsg.c_str ()));
         }
 
@@ -1126,7 +1126,7 @@ void select_ncl_file_callback (unused (GtkWidget *widget),
       gchar *ext = strrchr (filename, '.');
       if (g_strcmp0 (ext, ".ncl"))
         {
-          show_infobar (g_markup_printf_escaped (
+          show_infobar (g_strdup_printf (
               "Error reading \"%s\": %s is a invalid formart file.",
               filename, ext));
         }
-- 
2.43.0


From 5bb711b407a3f2b4c4a79169bdc06be6604a45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:23 +0000
Subject: [PATCH 105/109] fix: leave out the applications without src

Playing one of them made a string of a null pointer.
---
 src/gingagui/BigPictureWindow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gingagui/BigPictureWindow.cpp b/src/gingagui/BigPictureWindow.cpp
index 9878852..f972399 100644
--- a/src/gingagui/BigPictureWindow.cpp
+++ b/src/gingagui/BigPictureWindow.cpp
@@ -69,6 +69,11 @@ instantiateInAppLibrary (unused (xmlDocPtr doc), xmlNodePtr cur)
       if ((!xmlStrcmp (cur->name, (const xmlChar *) "app")))
         {
           xmlChar *src = xmlGetProp (cur, (const xmlChar *) "src");
+          if (src == NULL) // nothing to play
+            {
+              cur = cur->next;
+              continue;
+            }
           xmlChar *thumbnail
               = xmlGetProp (cur, (const xmlChar *) "thumbnail");
           xmlChar *cover = xmlGetProp (cur, (const xmlChar *) "cover");
-- 
2.43.0


From c5f26eeb11e9f3207103be67e4251fe145b5bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:44 +0000
Subject: [PATCH 106/109] fix: show an application only if it starts

The presentation mode covered the list with a window that shows nothing.
---
 src/gingagui/BigPictureWindow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gingagui/BigPictureWindow.cpp b/src/gingagui/BigPictureWindow.cpp
index f972399..50a848d 100644
--- a/src/gingagui/BigPictureWindow.cpp
+++ b/src/gingagui/BigPictureWindow.cpp
@@ -310,10 +310,12 @@ play_application_in_bigpicture ()
 
       if (card->index == 0)
         {
-          if (GINGA->start (card->src, nullptr))
-            restart_ticks ();
+          if (!GINGA->start (card->src, nullptr))
+            return;
+          restart_ticks ();
           isPlayingApp = TRUE;
           set_fullscreen_mode ();
+          return;
         }
     }
 }
-- 
2.43.0


From 8ff574925251950cce4c69b86e3f58bfc571aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:44 +0000
Subject: [PATCH 107/109] fix: leave either the application or the presentation
 mode

The press of Escape left the application, and its release the program.
---
 src/gingagui/MainWindow.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index a22ff82..d337f8c 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -492,11 +492,12 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
   switch (e->keyval)
     {
     case GDK_KEY_Escape: /* quit */
-      if (inBigPictureMode
-               && (g_strcmp0 ((const char *) type, "press") != 0))
-        destroy_bigpicture_window ();
-      else  if (isFullScreenMode)
+      if (inBigPictureMode && press)
+        break; // wait for its release
+      if (isFullScreenMode)
         set_unfullscreen_mode ();
+      else if (inBigPictureMode)
+        destroy_bigpicture_window ();
       break;
     case GDK_KEY_Meta_L:
     case GDK_KEY_Meta_R:
-- 
2.43.0


From 3fd9ad611c02285f15881091859c159b9702d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:44 +0000
Subject: [PATCH 108/109] fix: keep the key that starts an application to the
 list

The application got ENTER at its start.
---
 src/gingagui/MainWindow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index d337f8c..68cd866 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -543,8 +543,12 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       key = "#";
       break;
     case GDK_KEY_Return:
-      if (inBigPictureMode)
-        play_application_in_bigpicture ();
+      if (inBigPictureMode && !isFullScreenMode)
+        {
+          if (!press)
+            play_application_in_bigpicture ();
+          break;
+        }
       key = "ENTER";
       break;
     case GDK_KEY_F1:
-- 
2.43.0


From d32fe8138ff9b798f99b165850131823022f2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:45 +0000
Subject: [PATCH 109/109] fix: leave the list alone while an application plays

The arrow keys meant for the application also chose another one.
---
 src/gingagui/MainWindow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 68cd866..6f5537c 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -571,13 +571,13 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     case GDK_KEY_Left:
       key = "CURSOR_LEFT";
-      if (inBigPictureMode
+      if (inBigPictureMode && !isFullScreenMode
           && (g_strcmp0 ((const char *) type, "press") != 0))
         carrousel_rotate (1);
       break;
     case GDK_KEY_Right:
       key = "CURSOR_RIGHT";
-      if (inBigPictureMode
+      if (inBigPictureMode && !isFullScreenMode
           && (g_strcmp0 ((const char *) type, "press") != 0))
         carrousel_rotate (-1);
       break;
-- 
2.43.0


From cce632203135263c39c477fce946d01b6ceef48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 01/27] fix: find the ace-point checker when bearing off with a
 larger die

range(die, 0, -1) never looked at point 0, so with all checkers on the ace
point no source was found for any die but 1.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..cf475d4 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From 1781beced9fe10e5863197654e24e101c87b9ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 02/27] fix: apply the same match-score rule for doubling to
 both players

The player YOU was allowed to double a cube that already suffices to win
the match (<=), the player HIM was not (<).
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index cf475d4..08a0a9c 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -162,7 +162,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From 775b396f4b51ae27a8bf88b9b4d187a72073f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 03/27] fix: do not look for a source beyond the bar

guess_your_single_pm_from_dest raised IndexError for destinations from which
the die reaches further back than the bar.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..95e9534 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -331,7 +331,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From ff1a07841077d560b5a1db99aff639e791c9c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 04/27] fix: do not use up the caller's dice while guessing a
 bear-off

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 95e9534..c62fcb4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From ff98ec03ba18946ac4310650c29982c0ccc69654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 05/27] fix: do not report that a missing checker may be borne
 off

---
 bglib/model/board.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 08a0a9c..9c19b8c 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -85,7 +85,9 @@ class AbstractBoard(object):
       for i in range(n + 1, BAR + 1):
         if self.has_chequer_to_move(i):
           return False
-      return True
+      if self.has_chequer_to_move(n):
+        return True
+      return False
     elif n+1 == die:
       for i in NONE_BEAROFF_POINTS:
         if self.has_chequer_to_move(i):
-- 
2.43.0


From ad90e60c89c270774a8e0eae0a6284811929e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 06/27] fix: refuse deleting attributes of an immutable board

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 9c19b8c..eb1e3da 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -212,6 +212,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to mutate immutable object by deleting attr of "%s"'%(name,))
+
   def __hash__(self):
     pass
 
-- 
2.43.0


From 9e3eefa8cf03d65a3ae85e08c5344f838ff8d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 07/27] fix: cancel the latest step when the same step was
 added twice

---
 bglib/model/move.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index c62fcb4..dfed259 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -134,9 +134,9 @@ class Move(object):
 
   def append(self, pm):
     assert isinstance(pm, PartialMove)
-    for p in reversed(self._pms):
+    for i, p in reversed(list(enumerate(self._pms))):
       if p.are_invertible_element(pm):
-        self._pms.remove(p)
+        del self._pms[i]
         return
     self._pms.append(pm)
 
-- 
2.43.0


From b690484d64f06a9fad51cd78eefa5ade51157830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 08/27] fix: adding a move to itself must terminate

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index dfed259..b215783 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -142,7 +142,7 @@ class Move(object):
 
   def add(self, mv):
     assert isinstance(mv, Move)
-    for pm in mv._pms:
+    for pm in list(mv._pms):
       self.append(pm)
 
   def find(self, dest):
-- 
2.43.0


From 62ce169ebfd289a8f69d461b48fade43c004d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 09/27] fix: do not record a step whose die is refused

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index b215783..2fa1725 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -188,11 +188,11 @@ class MoveFactory(object):
 
   def append(self, pm):
     assert(isinstance(pm, PartialMove))
-    self.move.append(pm)
     if pm.is_undo():
       self.available.add(pm.die)
     else:
       self.available.consume(pm.die)
+    self.move.append(pm)
     self.board.make_partial_move(pm)
 
   def add(self, mv):
-- 
2.43.0


From 69b7ade255c8b96d4576a2a047523bc45e037849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 10/27] fix: dice may not be picked up while a checker can
 enter from the bar

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 2fa1725..22fb6e8 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -208,6 +208,7 @@ class MoveFactory(object):
     if self.board.has_chequer_to_move(bar):
       if not self.guess_your_single_pm_from_source(bar):
         return True #dance
+      return False # must enter
 
     for pt in POINTS:
       if self.board.has_chequer_to_move(pt):
-- 
2.43.0


From ce5fd0b065407189e1fd6fbaca88dcdb9297c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 11/27] fix: asking whether the dice may be picked up must not
 take the move back on the board

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 22fb6e8..ee42ba3 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -221,7 +221,7 @@ class MoveFactory(object):
       return True
             
     #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
     inverses  = []
     for pm in mf.move:
       inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-- 
2.43.0


From 2c02c55d150b81795d31cf022b381fe133549b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 12/27] fix: report a non-numeric XG ID score as a decoding
 error

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..f7af650 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 1e3d5215ce879039b00341e12337b723d93cc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 13/27] fix: refuse dice out of range in an XG ID

---
 bglib/encoding/xgid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index f7af650..a662f53 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -108,9 +108,12 @@ def decode(model, s):
     raise bglib.encoding.InconsistentData('bad roll: %s '%(rolled, ))
 
   try:
-    model.rolled = int(rolled[0]), int(rolled[1])
+    dice = int(rolled[0]), int(rolled[1])
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer roll: %s '%(rolled,))
+  if dice != (0, 0) and not (1 <= dice[0] <= 6 and 1 <= dice[1] <= 6):
+    raise bglib.encoding.InconsistentData('bad roll: %s '%(rolled, ))
+  model.rolled = dice
 
   try:
     model.score = (int(his_score), int(your_score))
-- 
2.43.0


From 1415e1e76cbb74d7ddb57fd2a7940e79cf910204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 14/27] fix: read a FIBS board line when the opponent is on
 turn

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..cc9ea8c 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,7 +118,7 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
     m.on_action = INVALID
-- 
2.43.0


From 71b8da6e1b1ef2a9a1a1274494ccc3b674b5aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 15/27] fix: a FIBS board line without a standing double clears
 the double

---
 bglib/encoding/FIBS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index cc9ea8c..d7f912d 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -133,6 +133,8 @@ def decode(m, s):
       m.on_inner_action = HIM
     elif m.on_action == HIM:
       m.on_inner_action = YOU
+  else:
+    m.doubled = False
 
   m.resign_offer = RESIGN_NONE
   # can't define!
-- 
2.43.0


From 677269e86f291731e77793305beba50c14c300c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 16/27] fix: a quote in an attribute value must not end the
 attribute

---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..6d3a806 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -66,7 +66,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From 3ec12640a80f189a44f09f002138c1caac69f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 17/27] fix: fitting a picture into a bound must not fail on a
 rounding error

---
 bglib/image/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..4617e6f 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -313,8 +313,9 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    # what is drawn is apply_mag()ed; the product itself may exceed the bound by a rounding error
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From 491d580c31969f52b04897051b3e409a7abba07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 18/27] fix: a later style rule must be able to replace a
 picture or font

---
 bglib/image/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 4617e6f..81c2213 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -228,8 +228,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
-      assert a
+      a = self.DTD_ATTLIST[name](css_path=css_path)
       v = a.parse(value)
       setattr(self, name, v)
 
-- 
2.43.0


From 0e7e5c0a2886a189f6adc73c1fef2a18443b1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 19/27] fix: False in a style rule must mean false

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 81c2213..eb21f6c 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -133,7 +133,7 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -149,7 +149,7 @@ class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
   def parse(self, s):
-    return bool(s)
+    return bool(s) and s != 'False'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From 13f082a136245cd10e12377e91376f691272fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 20/27] fix: an attribute the enclosing element cannot have
 must fall back to its default

---
 bglib/image/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index eb21f6c..5e95ac6 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -281,7 +281,8 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
+      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None \
+           and name in self.parent.DTD_ATTLIST:
         return getattr(self.parent, name)
       else:
         try:
-- 
2.43.0


From 1519c46dde7456172377da040338f37483d06a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 21/27] fix: an item of another kind in a list of signs must
 not fail

---
 bglib/doc/doctree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 6d3a806..a9421e7 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -157,10 +157,10 @@ class ItemizeElement(LineElement):
     
   def open(self):
     style = self.attrs['style']
-    if style is None:
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m not in style:
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From dd5d24ccb3f42650f9e5c98cd9fd68446a541e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 22/27] fix: a table of contents must skip what it cannot copy
 from a heading

---
 bglib/doc/macro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..580d530 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -144,7 +144,8 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       editor.enter(bglib.doc.doctree.ItemizeElement, **d)
       editor.enter(bglib.doc.doctree.AnchorElement, **{'href':'#fragment%i'%self.fragment_count})
       if node.children:
-        editor.current.children = [self.de_anchor(n, editor.current) for n in node.children]
+        texts = [self.de_anchor(n, editor.current) for n in node.children]
+        editor.current.children = [n for n in texts if n is not None]
       editor.leave(bglib.doc.doctree.AnchorElement)
       editor.leave(bglib.doc.doctree.ItemizeElement)
       node.attrs['id'] = 'fragment%i'%self.fragment_count
-- 
2.43.0


From 01a4b86a49f56baf0932766bab8269e8c588aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 23/27] fix: a position macro without arguments has bad
 arguments

---
 bglib/doc/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 580d530..901d48a 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -189,7 +189,7 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
-  matchobj = _arg_pattern.match(s)
+  matchobj = _arg_pattern.match(s or '')
   if not matchobj:
     return None
   d = matchobj.groupdict()
-- 
2.43.0


From b0ba4d413fac70722a8e63feafec55fc194be110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:19 +0000
Subject: [PATCH 24/27] fix: the text of an address must be escaped

---
 bglib/doc/bgwiki.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..feaa57a 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -468,7 +468,7 @@ class LineFormatter(BaseFormatter):
                       **{'class':"ext-link", 'title':"title"})
     a.set_url(url)
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(url)
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From 1611113354288b1ebb9737a7a0e399dde2a8c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 25/27] fix: a rejected line must not change the state

---
 bglib/record/snowietxt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bglib/record/snowietxt.py b/bglib/record/snowietxt.py
index 75a81e6..c262db4 100644
--- a/bglib/record/snowietxt.py
+++ b/bglib/record/snowietxt.py
@@ -36,13 +36,18 @@ def statevalidate(method):
         if DEBUG:
           print args[1]
         raise ValueError('current:%s, next:%s'%(current, next))
+    count = self.count
     if current == 'handle_moves' and next == 'handle_moves':
       self.count += 1
     else:
       self.count = 1
 
     args[0].state = next
-    return method(*args, **kw)
+    try:
+      return method(*args, **kw)
+    except ValueError:
+      self.state, self.count = current, count
+      raise
   return decorator(statevalidate, method)
 
 
-- 
2.43.0


From 742a4041a35a4a404d05809b69dfa5aeff57e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 26/27] fix: an index of a bear-off position with 15 checkers
 has a position too

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From 1c5624d3267d4d0454f43a98df6cddb8bfafede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:58 +0000
Subject: [PATCH 27/27] fix: a position key always has ten bytes

---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..243b25f 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -55,8 +55,9 @@ def seq2bytes (xs):
       count += 1
       yield byte.pack()
   if byte.count != 0:
+    count += 1
     yield byte.pad()
-  while count < 9:
+  while count < 10:
     count += 1
     yield byte.pad()
 
-- 
2.43.0


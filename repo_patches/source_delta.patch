From 6e5e717ec2f849a03225c0e3f88697535d35f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:30 +0000
Subject: [PATCH 01/30] fix: KeyboardLayout.copy passes the keyboard on

---
 lulua/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 5e021fe..81b7c7c 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -163,7 +163,7 @@ class KeyboardLayout:
 
     def copy (self):
         layers = copy.deepcopy (self.layers)
-        return self.__class__ (self.name[:], layers)
+        return self.__class__ (self.name[:], layers, self.keyboard)
 
     def getText (self, comb: ButtonCombination) -> Text:
         """ Get input text for combination """
-- 
2.43.0


From b889e363ba51cc4b096a51b048d92a458fa2f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 02/30] fix: import KLC keys to existing, distinct buttons

---
 lulua/layout.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 81b7c7c..d4a5521 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -245,7 +245,7 @@ class GenericLayout:
             return unicodedata.normalize ('NFD', chr (n))
 
         vkToButton = {
-            'OEM_3': 'Bl2',
+            'OEM_3': 'Bl1',
             '1': 'Bl2',
             '2': 'Bl3',
             '3': 'Bl4',
@@ -271,7 +271,7 @@ class GenericLayout:
             'P': 'Cr3',
             'OEM_4': 'Cr2',
             'OEM_6': 'Cr1',
-            'OEM_5': 'Cr0',
+            'OEM_5': 'Dr1',
 
             'A': 'Dl1',
             'S': 'Dl2',
@@ -284,7 +284,6 @@ class GenericLayout:
             'L': 'Dr4',
             'OEM_1': 'Dr3',
             'OEM_7': 'Dr2',
-            #Dr1
 
             'OEM_102': 'El1',
             'Z': 'El2',
@@ -336,8 +335,8 @@ class GenericLayout:
                 1: [('El_shift', ), ('Er_shift', )],
                 2: [('Fl_ctrl', ), ('Fr_ctrl', )],
                 3: [('El_shift', 'Fl_ctrl'), ('Er_shift', 'Fr_ctrl')],
-                4: [('Er_altgr', )],
-                5: [('El_shift', 'Er_altgr')],
+                4: [('Fr_altgr', )],
+                5: [('El_shift', 'Fr_altgr')],
                 }
             return layers, layerSwitches
 
-- 
2.43.0


From fe869aa650d8a48fb038ed097742baeb397917cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:38 +0000
Subject: [PATCH 03/30] fix: credit finger runs to the finger that typed them

---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index 9d6c537..aeed7ea 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -90,7 +90,7 @@ class RunlenStats (Stats):
 
             fingerKey = (thisHand, thisFinger)
             if self.lastFinger and fingerKey != self.lastFinger:
-                self.fingerRunlenDist[fingerKey][self.fingerRunlen] += 1
+                self.fingerRunlenDist[self.lastFinger][self.fingerRunlen] += 1
                 self.fingerRunlen = 0
             self.fingerRunlen += 1
             self.lastFinger = fingerKey
-- 
2.43.0


From 9e019fe9709f747384967bc20a90624265895cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:42 +0000
Subject: [PATCH 04/30] fix: merge finger run lengths too

---
 lulua/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index aeed7ea..c90da04 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -76,7 +76,8 @@ class RunlenStats (Stats):
     def __eq__ (self, other):
         if not isinstance (other, RunlenStats):
             return NotImplemented
-        return self.perHandRunlenDist == other.perHandRunlenDist
+        return self.perHandRunlenDist == other.perHandRunlenDist and \
+                self.fingerRunlenDist == other.fingerRunlenDist
         
     def process (self, event):
         if isinstance (event, ButtonCombination):
@@ -106,6 +107,7 @@ class RunlenStats (Stats):
 
     def update (self, other):
         updateDictOp (self.perHandRunlenDist, other.perHandRunlenDist, operator.add)
+        updateDictOp (self.fingerRunlenDist, other.fingerRunlenDist, operator.add)
 
 class SimpleStats (Stats):
     __slots__ = ('buttons', 'combinations', 'unknown')
-- 
2.43.0


From 8c4ee75f6626d5bb55e3576863156716d5fce891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:47 +0000
Subject: [PATCH 05/30] fix: keep the attributes of AnySoftKeyboard's bottom
 row keys

---
 lulua/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/render.py b/lulua/render.py
index bc09e4c..38f8d96 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -462,7 +462,7 @@ def renderAsk (args):
             # backspace
             {'ask:isFunctional': 'true', 'android:keyWidth': '25%p', 'android:codes': '-5', 'android:keyEdgeFlags': 'right', 'android:isRepeatable': 'true'},
             ]:
-        ET.SubElement (rowelem, 'Key', )
+        ET.SubElement (rowelem, 'Key', attrib=attrib)
 
     tree = ET.ElementTree (kbdelem)
     tree.write (args.output, encoding='utf-8', xml_declaration=True)
-- 
2.43.0


From 02a0da52b8ad55d1733a725fb4342786bf35301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 06/30] fix: terminate the driver's tables of prefixed
 scancodes

---
 lulua/winkbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/winkbd.py b/lulua/winkbd.py
index 0f4dffc..36cf717 100644
--- a/lulua/winkbd.py
+++ b/lulua/winkbd.py
@@ -450,7 +450,7 @@ def scancodeToVkTables (m):
         f = lambda x: len (x[0]) == 2 and x[0][0] == escape
         for k, v in sorted (filter (f, m.items ()), key=lambda x: x[0]):
             ret.append (f'\t{{ 0x{k[1]:x}, {enumOr (v)} }},')
-        ret.append ('\t};\n')
+        ret.extend (['\t{ 0, 0 },', '\t};\n'])
 
     return '\n'.join (ret)
 
-- 
2.43.0


From 892cc7124216a6fc6f48bd4cbd875cb254160c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:55 +0000
Subject: [PATCH 07/30] fix: report the energy of the layout written, not of
 the last step

---
 lulua/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lulua/optimize.py b/lulua/optimize.py
index facba17..63cbc93 100644
--- a/lulua/optimize.py
+++ b/lulua/optimize.py
@@ -342,6 +342,7 @@ def optimize ():
             opt.mutate (withEnergy=False)
     try:
         state, relEnergy = opt.run (steps=args.steps)
+        opt.state = state
         energy = opt.energy ()
         optimalButtonMap = state.buttonMap
     except KeyboardInterrupt:
-- 
2.43.0


From 39142c73203ab77c0f6a0e17415d263c4b60644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 08/30] fix: plots use the keyboard asked for

---
 lulua/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/plot.py b/lulua/plot.py
index 9fb5cf1..27cdd39 100644
--- a/lulua/plot.py
+++ b/lulua/plot.py
@@ -58,7 +58,7 @@ def letterfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
 
 
@@ -134,7 +134,7 @@ def triadfreq (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
@@ -183,7 +183,7 @@ def triadEffortData (args):
     stats = pickle.load (sys.stdin.buffer)
 
     # XXX: add layout to stats?
-    keyboard = defaultKeyboards['ibmpc105']
+    keyboard = defaultKeyboards[args.keyboard]
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
-- 
2.43.0


From ccd41d57e569d8860a55cfce997cad4ecba72111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:05 +0000
Subject: [PATCH 09/30] fix: corpus workers use the layout's keyboard

---
 lulua/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lulua/text.py b/lulua/text.py
index ea91139..a057511 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -331,8 +331,7 @@ from .stats import allStats, makeCombined
 
 def writeWorker (layout, funcs, inq, outq, statusq, benchmark):
     try:
-        keyboard = defaultKeyboards['ibmpc105']
-        combined = makeCombined (keyboard)
+        combined = makeCombined (layout.keyboard)
         itemsProcessed = 0
 
         while True:
-- 
2.43.0


From c1854e7c1bd443b403ea8a43c9640403563648d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:09 +0000
Subject: [PATCH 10/30] fix: (de)serializing buttons does not change them or
 the data

---
 lulua/keyboard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index eed58a7..6f24445 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -47,7 +47,7 @@ class Button:
         self.isMarked = isMarked
         # scancode map, although they are not all technically scancodes, they
         # are some low-level representation of the physical key
-        self.scancode = scancode
+        self.scancode = dict (scancode) if scancode else scancode
         # special case for windows
         if self.scancode and 'windows' in self.scancode:
             self.scancode['windows'] = tuple (self.scancode['windows'])
@@ -71,6 +71,7 @@ class Button:
     def deserialize (self, data: Dict):
         kindMap = dict (map (lambda x: (x.serializedName, x),
                 (Button, LetterButton, MultiRowButton)))
+        data = dict (data)
         try:
             kind = data['kind']
             del data['kind']
@@ -79,7 +80,8 @@ class Button:
         return kindMap[kind] (**data)
 
     def serialize (self):
-        d = dict (name=self.name, width=self.width, scancode=self.scancode)
+        d = dict (name=self.name, width=self.width,
+                scancode=dict (self.scancode) if self.scancode else self.scancode)
         if self.__class__ is not Button:
             d['kind'] = self.serializedName
         if self.isMarked:
-- 
2.43.0


From f21803694ea3db1ec024d7d7724ad295d663f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:14 +0000
Subject: [PATCH 11/30] fix: pickle buttons by name

---
 lulua/keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lulua/keyboard.py b/lulua/keyboard.py
index 6f24445..28a76c4 100644
--- a/lulua/keyboard.py
+++ b/lulua/keyboard.py
@@ -63,6 +63,10 @@ class Button:
     def __hash__ (self):
         return hash (self.i)
 
+    def __reduce__ (self):
+        # i is only valid inside this process
+        return Button.deserialize, (self.serialize (), )
+
     @property
     def name (self):
         return Button._idToName[self.i]
-- 
2.43.0


From e41e2398568f80106e4acfda32b49c21eeaafae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 12/30] fix: stop reading truncated brotli streams

---
 lulua/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index a057511..4ce0755 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -128,7 +128,11 @@ class BrotliFile:
         while not self.decompressor.is_finished ():
             if num is not None and len (self.buf) >= num:
                 break
-            self.buf += self.decompressor.process (self.fd.read (self.readchunk))
+            chunk = self.fd.read (self.readchunk)
+            if not chunk:
+                logging.error ('truncated brotli stream')
+                break
+            self.buf += self.decompressor.process (chunk)
         if num is not None:
             b = self.buf[0:num]
             self.buf = self.buf[num:]
-- 
2.43.0


From 589cea443dc012fd98ce1873db70e8aacb0e63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:23 +0000
Subject: [PATCH 13/30] fix: BrotliFile does not swallow exceptions

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 4ce0755..dc4dbc4 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -122,7 +122,7 @@ class BrotliFile:
         return self
 
     def __exit__ (self, exc_type, exc_val, exc_tb):
-        return True
+        return False
 
     def read (self, num=None):
         while not self.decompressor.is_finished ():
-- 
2.43.0


From 7d66a1998ac1015a75f628a5fd9637eb54513a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:30 +0000
Subject: [PATCH 14/30] fix: backspace has no typing effort, do not count it in
 triads

---
 lulua/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index c90da04..b76cc89 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -147,7 +147,7 @@ class TriadStats (Stats):
     """
     Button triad stats with an overlap of two.
 
-    Whitespace buttons are ignored.
+    Whitespace buttons and backspace are ignored.
     """
 
     __slots__ = ('_triad', 'triads', '_writer', '_ignored')
@@ -160,7 +160,7 @@ class TriadStats (Stats):
         self._triad = []
         self.triads = defaultdict (int)
         keyboard = self._writer.layout.keyboard
-        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'))
+        self._ignored = frozenset (keyboard[x] for x in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab', 'Br_bs'))
 
     def __eq__ (self, other):
         if not isinstance (other, TriadStats):
-- 
2.43.0


From 7c315c356e09bdc63a671decdd9e5334cbdc0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 15/30] fix: report layouts that do not use some hand or finger

---
 lulua/data/report/index.html | 2 +-
 lulua/stats.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/report/index.html b/lulua/data/report/index.html
index e2108cd..193638a 100644
--- a/lulua/data/report/index.html
+++ b/lulua/data/report/index.html
@@ -413,7 +413,7 @@
 	{% for finger in fingerOrder[hand] %}
 		{% set fingerpct = fingers[(hand, finger)]/stats.buttonPresses*100 %}
 		{# finger width is relative to parent (i.e. hand) #}
-		{% set fingerwidth = fingers[(hand, finger)]/hands[hand]*100 %}
+		{% set fingerwidth = fingers[(hand, finger)]/hands[hand]*100 if hands[hand] else 0 %}
 		<div class="{{ finger.name.lower() }}" style="width: {{ '%.3f'|format(fingerwidth) }}%;">{{ '%.2f'|format(fingerpct) }}</div>
 	{% endfor %}
 	</div>
diff --git a/lulua/stats.py b/lulua/stats.py
index b76cc89..bbd8841 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -329,8 +329,8 @@ def layoutstats (args):
     layout = defaultLayouts[args.layout].specialize (keyboard)
     writer = Writer (layout)
 
-    hands = defaultdict (int)
-    fingers = defaultdict (int)
+    hands = dict ((x, 0) for x in Direction)
+    fingers = dict ((x, 0) for x in product (Direction, FingerType))
     buttonPresses = sum (stats['simple'].buttons.values ())
     for btn, count in stats['simple'].buttons.items ():
         hand, finger = writer.getHandFinger (btn)
-- 
2.43.0


From ac066005a4d560101306d86a8b93e240186e1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:41 +0000
Subject: [PATCH 16/30] fix: layouts without text do not drop the input

---
 lulua/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index d4a5521..06e1b45 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -132,7 +132,8 @@ class KeyboardLayout:
         self.layers = layers
         self.keyboard = keyboard
         self._modifierToLayer : Dict[FrozenSet[Button], Tuple[int, Layer]] = dict ()
-        self.bufferLen = 0
+        # look at one character at least, even if nothing can be typed
+        self.bufferLen = 1
         t = self.t = CharTrie ()
         for i, l in enumerate (layers):
             for m in l.modifier:
-- 
2.43.0


From f66149097aac3f99ab347f57d6984ae8319621e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:45 +0000
Subject: [PATCH 17/30] fix: a nested match does not end the selection early

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index dc4dbc4..96fe4e6 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -61,7 +61,7 @@ class Select (Filter):
             if ttype == 'StartTag':
                 tname = token['name']
                 tdata = token['data']
-                if self.f (token):
+                if self.inside is None and self.f (token):
                     self.inside = 0
                 if tname in {'script', 'style'}:
                     isScript = 0
-- 
2.43.0


From b84854ac1d342e8c65641e138598a5012601748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:06 +0000
Subject: [PATCH 18/30] fix: left shift and right windows key have their own
 codes

---
 lulua/data/keyboards/ibmpc105.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index 0938262..b2453ed 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -372,7 +372,7 @@ rows:
 - - - name: El_shift
       scancode:
         keyman: SHIFT
-        macos: 57
+        macos: 56
         windows:
         - 42
         xorg: 50
@@ -536,11 +536,11 @@ rows:
     - name: Fr_win
       scancode:
         keyman: K_?5C
-        macos: 55
+        macos: 54
         windows:
         - 224
         - 92
-        xorg: 105
+        xorg: 134
       width: 1.25
     - name: Fr_menu
       scancode:
-- 
2.43.0


From 0c5816e7a75877c82ab302fb733ea1ddba7e540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:10 +0000
Subject: [PATCH 19/30] fix: every key has a macOS code

---
 lulua/data/keyboards/ibmpc105.yaml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lulua/data/keyboards/ibmpc105.yaml b/lulua/data/keyboards/ibmpc105.yaml
index b2453ed..5d73f8c 100644
--- a/lulua/data/keyboards/ibmpc105.yaml
+++ b/lulua/data/keyboards/ibmpc105.yaml
@@ -365,6 +365,7 @@ rows:
       name: Dr1
       scancode:
         keyman: K_SLASH
+        macos: 42
         windows:
         - 43
         xorg: 51
@@ -381,6 +382,7 @@ rows:
       name: El1
       scancode:
         keyman: K_oE2
+        macos: 10
         windows:
         - 86
         xorg: 94
@@ -545,6 +547,7 @@ rows:
     - name: Fr_menu
       scancode:
         keyman: K_?5D
+        macos: 110
         windows:
         - 224
         - 93
@@ -553,6 +556,7 @@ rows:
     - name: Fr_ctrl
       scancode:
         keyman: RCTRL
+        macos: 62
         windows:
         - 224
         - 29
-- 
2.43.0


From 8dc5a509e161aae230ceb8049299934d196ceada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:25 +0000
Subject: [PATCH 20/30] fix: elements inside scripts and styles do not end them

---
 lulua/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 96fe4e6..97dc993 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -63,10 +63,12 @@ class Select (Filter):
                 tdata = token['data']
                 if self.inside is None and self.f (token):
                     self.inside = 0
-                if tname in {'script', 'style'}:
+                if isScript is None and tname in {'script', 'style'}:
                     isScript = 0
 
             if isScript is not None:
+                if ttype == 'StartTag':
+                    isScript += 1
                 if ttype == 'EndTag':
                     isScript -= 1
                     if isScript <= 0:
-- 
2.43.0


From 5602ba2122defad16d162a7f0f3a862ca96a7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:50 +0000
Subject: [PATCH 21/30] fix: write backspace as character reference in
 keylayout files

A raw control character makes the XML document ill-formed.
---
 lulua/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lulua/render.py b/lulua/render.py
index 38f8d96..f96abd5 100644
--- a/lulua/render.py
+++ b/lulua/render.py
@@ -548,12 +548,14 @@ def renderKeylayout (args):
     layouts = ET.SubElement (docroot, 'layouts')
     layout = ET.SubElement (layouts, 'layout', first='0', last='0', modifiers=str (modmapId), mapSet=str (keymapSetId))
 
-    decl = b"""<?xml version="1.0" encoding="utf-8"?>
+    # XML 1.0 cannot represent control characters like backspace at all, XML 1.1
+    # (which Apple’s own layouts use) requires references
+    decl = b"""<?xml version="1.1" encoding="utf-8"?>
 <!DOCTYPE keyboard PUBLIC "" "file://localhost/System/Library/DTDs/KeyboardLayout.dtd">
 """
     with open (args.output, 'wb') as fd:
         fd.write (decl)
-        fd.write (ET.tostring (docroot, encoding='utf-8'))
+        fd.write (ET.tostring (docroot, encoding='utf-8').replace (b'\b', b'&#x0008;'))
 
 def renderKlavaro (args):
     keyboard = defaultKeyboards[args.keyboard]
-- 
2.43.0


From 7a1d7c2cd9212c8ce11aedc5cfa813a39f041586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 22/30] fix: epub documents yield no scripts and styles

---
 lulua/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index 97dc993..d279455 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -198,7 +198,8 @@ def filterEpub (item):
         walker = html5lib.getTreeWalker("etree")
         stream = walker (document)
         s = HTMLSerializer()
-        yield ''.join (s.serialize (stream))
+        # everything, except for scripts and styles
+        yield ''.join (s.serialize (Select (stream, lambda x: True)))
     # It looks like ebooklib is leaking ZipFile instances somewhere, which
     # can be prevented by resetting the book before the GC grabs it.
     book.reset ()
-- 
2.43.0


From 7d1908d206fd5299db25ea5b71180d7820510c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 23/30] fix: CDATA sections are text too

---
 lulua/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/text.py b/lulua/text.py
index d279455..5157d52 100644
--- a/lulua/text.py
+++ b/lulua/text.py
@@ -229,7 +229,7 @@ def getText (nodelist):
     """ Helper to retrieve text from an XML node list """
     rc = []
     for node in nodelist:
-        if node.nodeType == node.TEXT_NODE:
+        if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE):
             rc.append(node.data)
     return ''.join(rc)
 
-- 
2.43.0


From 453a022adc53c6e22a43a31ca784d8e6af97d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:40 +0000
Subject: [PATCH 24/30] fix: klc import strips both kinds of comments

A semicolon only started a comment if the line had a // as well. The LAYOUT
lines Microsoft's tool writes do not, and other lines failed to parse.
---
 lulua/layout.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 06e1b45..3d12d8a 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -306,11 +306,8 @@ class GenericLayout:
             layers = [{} for i in range (6)]
             for line in fd:
                 # strip comments
-                try:
-                    line = line[:line.index ('//')]
-                    line = line[:line.index (';')]
-                except ValueError:
-                    pass
+                for marker in ('//', ';'):
+                    line = line.split (marker, 1)[0]
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-- 
2.43.0


From 2de91a993d0b21d849671e147dca2962140dce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 25/30] fix: klc import stops at the end of the layout section

Only projects with ligatures could be imported: without that section the
names of the keys were taken as part of the layout and failed to parse.
---
 lulua/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lulua/layout.py b/lulua/layout.py
index 3d12d8a..a749b10 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -311,7 +311,8 @@ class GenericLayout:
                 line = line.strip ()
                 if line.startswith ('LAYOUT'):
                     mode = 'layout'
-                elif line == 'LIGATURE':
+                elif line.startswith (('LIGATURE', 'DEADKEY', 'KEYNAME')):
+                    # sections that can follow the layout
                     mode = None
                 elif mode == 'layout':
                     try:
-- 
2.43.0


From 7a44338bf06a9f87e1954778531e2fa0227c2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:09 +0000
Subject: [PATCH 26/30] fix: documented command creates statistics

The file filter expects names of files, not their contents, and failed.
---
 README.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.rst b/README.rst
index 7234524..26b2de0 100644
--- a/README.rst
+++ b/README.rst
@@ -18,7 +18,7 @@ examples. Then create statistics for your corpus. For plain-text files use:
 
 .. code:: bash
 
-    cat corpus.txt \
+    echo corpus.txt \
         | lulua-write my-layout.yaml file text \
         | lulua-analyze combine \
         > stats.pickle
-- 
2.43.0


From 5bb321b7406872a68d8c75810ac8bbd1089318f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:09 +0000
Subject: [PATCH 27/30] fix: quote pinned keys in rule opt

The shell treated the semicolons as end of the command.
---
 gen.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen.sh b/gen.sh
index cde2be4..6fb3310 100755
--- a/gen.sh
+++ b/gen.sh
@@ -32,7 +32,7 @@ pool write
 
 ### rules ###
 rule opt
-    command = lulua-optimize -n \$optrounds -r -p \$optpins -l ar-lulua -m \$optmodel < \$in > \$out
+    command = lulua-optimize -n \$optrounds -r -p '\$optpins' -l ar-lulua -m \$optmodel < \$in > \$out
 
 rule render-svg
     command = lulua-render -l \$layout svg \$out
-- 
2.43.0


From af9579355aa95e2abff14485eb564c1026d1497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:53 +0000
Subject: [PATCH 28/30] fix: triadfreq can show its help

argparse treats the help text as format string.
---
 lulua/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/stats.py b/lulua/stats.py
index bbd8841..1f701dc 100644
--- a/lulua/stats.py
+++ b/lulua/stats.py
@@ -421,7 +421,7 @@ def main ():
     sp = subparsers.add_parser('letterfreq')
     sp.set_defaults (func=letterfreq)
     sp = subparsers.add_parser('triadfreq')
-    sp.add_argument('-c', '--cutoff', type=float, default=0.5, help='Only include the top x% of all triads')
+    sp.add_argument('-c', '--cutoff', type=float, default=0.5, help='Only include the top x%% of all triads')
     sp.add_argument('-r', '--reverse', action='store_true', help='Reverse sorting order')
     sp.add_argument('-s', '--sort', choices={'weight', 'effort', 'combined'}, default='weight', help='Sorter')
     sp.add_argument('-n', '--limit', type=int, default=0, help='Sorter')
-- 
2.43.0


From c0848632a1571e24528a9b5f0ced5efafbf18212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:41 +0000
Subject: [PATCH 29/30] fix: name the file with driver instructions

---
 lulua/data/report/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lulua/data/report/index.html b/lulua/data/report/index.html
index 193638a..fd55d7f 100644
--- a/lulua/data/report/index.html
+++ b/lulua/data/report/index.html
@@ -96,7 +96,7 @@
 			<dt>Printout</dt>
 			<dd><a href="ar-lulua.pdf">PDF</a></dd>
 			<dt>Windows</dt>
-			<dd>Download <a href="ar-lulua-w64.zip">driver</a> and follow instructions in <kbd>INSTALL.txt</kbd></dd>
+			<dd>Download <a href="ar-lulua-w64.zip">driver</a> and follow instructions in <kbd>README.txt</kbd></dd>
 			<dt>Android</dt>
 			<dd>Install
 			<a href="https://play.google.com/store/apps/details?id=com.menny.android.anysoftkeyboard">AnySoftKeyboard</a>
-- 
2.43.0


From 8e0728db9949ab38142ac007d8fd97c8decbaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:38 +0000
Subject: [PATCH 30/30] fix: klc import accepts literal characters and dead
 keys

---
 lulua/layout.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lulua/layout.py b/lulua/layout.py
index a749b10..fde4576 100644
--- a/lulua/layout.py
+++ b/lulua/layout.py
@@ -240,6 +240,12 @@ class GenericLayout:
             # two symbols for NULL? Seriously Microsoft?
             if c == '%%':
                 return None
+            # dead keys are marked
+            if len (c) > 1 and c.endswith ('@'):
+                c = c[:-1]
+            # letters and digits stand for themselves
+            if len (c) == 1:
+                return c
             n = int (c, 16)
             if n == -1:
                 return None
-- 
2.43.0


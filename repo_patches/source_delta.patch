From 4501261dabfe7d912c544d195e9866ff2623eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 01/45] fix: reset hold state when the hold time elapses right
 at release of a repeating hold switch

---
 content/lib/pyswitch/controller/inputs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..b9dc1a4 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -81,6 +81,8 @@ class SwitchController:
                             return
                                                 
                         if self.__check_hold():
+                            self.__hold_active = False
+                            self.__hold_was_active = False
                             return
 
                         if self.__hold_was_active:
-- 
2.43.0


From b6ebb6c70d0a7cbdd01dd6ad81a4a89fc132bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 02/45] fix: notify every listener of a parameter which depends
 on another one, not just the first

---
 content/lib/pyswitch/controller/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..e1b6853 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -316,11 +316,13 @@ class Client: #(ClientRequestListener):
             return
         
         if mapping.depends:
-            if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+            # Each listener has its own dependency listener, as all of them want to be notified
+            key = (mapping, listener)
+            if not key in self.__dependencies:
+                self.__dependencies[key] = self._DependencyListener(self, mapping, listener)
 
             # Register the dependency rather than the mapping itself
-            self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
+            self._register_mapping(mapping.depends, self.__dependencies[key], True)
         else:
             self._register_mapping(mapping, listener, True)
         
-- 
2.43.0


From a0d0160c4434f612024870ed664388fcad70bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 03/45] fix: request a dependent parameter again if its answer
 got lost

---
 content/lib/pyswitch/controller/client.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index e1b6853..9169386 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -244,13 +244,25 @@ class Client: #(ClientRequestListener):
             self.__listener = listener
 
         def parameter_changed(self, mapping):
+            if mapping == self.__orig_mapping:
+                if self.__listener:
+                    self.__listener.parameter_changed(mapping)
+                return
+
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                self.__client._register_mapping(self.__orig_mapping, self, True)           
         
         def request_terminated(self, mapping):
-            pass
+            if mapping != self.__orig_mapping:
+                return
+            
+            # No answer: Request again with the next answer of the dependency, even if that did not change
+            self.__last_value = None
+
+            if self.__listener:
+                self.__listener.request_terminated(mapping)
 
     ##########################################################################################################
 
-- 
2.43.0


From 908f2cc2155a49da25689a86fa2ae92ca7377423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:50 +0000
Subject: [PATCH 04/45] fix: deliver messages of a MIDI source to all its
 targets if it is routed to the application and externally

---
 content/lib/pyswitch/controller/midi.py | 40 ++++++++++++-------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..3675489 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -75,43 +75,41 @@ class MidiController:
             msg = r.source.receive()
 
             if msg:
+                # The source can also be routed to external targets
+                self.__forward(r.source, msg)
+
                 # Return first message for APPLICATION in the queue (next ticks will deliver the next messages)
                 return msg                
     
-    # Process all routings where APPLICATION is not involved (this processes one message of each source every time)
+    # Process all routings where APPLICATION is not involved (this processes one message of each source every time).
+    # Sources which are also routed to APPLICATION are left out here, their messages are forwarded when they are read there.
     def __process_external_routings(self):
         routings = self.__routings_external
         if not routings:
             return
         
         # Get all sources messages
-        sources = []
-        results = []
+        sources = [r.source for r in self.__routings_to_appl]
 
         for r in routings:
             if r.source in sources:
                 continue
 
             sources.append(r.source)
-            results.append(r.source.receive())
-            
-        # Distribute messages
-        for r in routings:
-            for i in range(len(sources)):
-                if sources[i] != r.source:
-                    continue
+            self.__forward(r.source, r.source.receive())
 
-                msg = results[i]
+    # Distribute a message to all external targets of its source
+    def __forward(self, source, msg):
+        if not msg:
+            return
         
-                if not msg:
-                    continue
-                
-                if isinstance(msg, MIDIUnknownEvent):
-                    continue
-                
-                if getattr(msg, "_STATUS", None) is None:
-                    continue
-                
+        if isinstance(msg, MIDIUnknownEvent):
+            return
+        
+        if getattr(msg, "_STATUS", None) is None:
+            return
+
+        for r in self.__routings_external:
+            if r.source == source:
                 r.target.send(msg)
 
-                break
-- 
2.43.0


From 5095abade15509511380b21ff0dd1fda388bbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 05/45] fix: refresh LEDs and labels of all kinds of actions
 when actions are reset (after page changes and tuner mode)

---
 content/lib/pyswitch/clients/local/actions/pager.py | 3 +++
 content/lib/pyswitch/controller/actions/__init__.py | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..0f40ab0 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -121,6 +121,9 @@ class PagerAction(Callback, Action):
         self.appl.reset_actions()
         self.update_displays()
 
+    def reset(self):
+        self.update_displays()
+
     def update_displays(self):
         if not len(self.pages):
             return
diff --git a/content/lib/pyswitch/controller/actions/__init__.py b/content/lib/pyswitch/controller/actions/__init__.py
index e3c91db..071b957 100755
--- a/content/lib/pyswitch/controller/actions/__init__.py
+++ b/content/lib/pyswitch/controller/actions/__init__.py
@@ -151,6 +151,8 @@ class Action(Updateable):
         if self.callback:
             self.callback.reset()
 
+        self.update_displays()
+
     # Returns the switch LED segments to use
     def __get_led_segments(self):
         if not self.switch.pixels or not self.uses_switch_leds or not self.enabled:
@@ -309,7 +311,6 @@ class PushButtonAction(Action):
 
     # Reset the action: Set False state without sending anything
     def reset(self):
-        super().reset()
         self.__state = False
-        self.update_displays()
+        super().reset()
 
-- 
2.43.0


From 1a393c72d6e4c9a73367f63fbcc3d59819e51bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 06/45] fix: accept a page ID of 0 for direct page selection of
 the pager

---
 content/lib/pyswitch/clients/local/actions/pager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 0f40ab0..54e8ff4 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page != None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
-- 
2.43.0


From 9c35dfae2cbf4e2860d7cf86f067f638f7e3c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 07/45] fix: dim_factor "on" of BANK_UP and BANK_DOWN raised a
 TypeError

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From bdf6d007b77df58b5d7869df0bd283ad40811bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:14 +0000
Subject: [PATCH 08/45] fix: RIG_SELECT with bank_off but without rig_off shows
 the bank it switches to

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..a5ee99b 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -263,8 +263,8 @@ class _KemperRigSelectCallback(Callback):
                     self.action.label.back_color = bank_color if is_current else dim_color(bank_color, self.__default_dim_factor_off) 
 
                     if self.__bank != None:
-                        if is_current and self.__rig_off != None and self.__bank_off != None:
-                            self.action.label.text = self.__get_text(self.__bank_off - 1, self.__rig_off - 1)
+                        if is_current and self.__bank_off != None:
+                            self.action.label.text = self.__get_text(self.__bank_off - 1, (self.__rig_off if self.__rig_off != None else self.__rig) - 1)
                         elif self.__rig != None:
                             self.action.label.text = self.__get_text(self.__bank - 1, self.__rig - 1)
                         else:
-- 
2.43.0


From 210e0bc36fde4a88080e880653809df59518c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 09/45] fix: bank preselection by BANK_UP and BANK_DOWN
 refreshes the target bank shown by other actions

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..ed93f13 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -149,6 +149,12 @@ class KemperBankChangeCallback(Callback):
             
             self.__appl.shared["preselectedBank"] = value
             self.__appl.shared["preselectCallback"] = self
+
+            # The target bank of other actions depends on the preselected bank, too
+            for input in self.__appl.inputs:
+                if hasattr(input, "pixels"):
+                    for a in input.actions:
+                        a.update_displays()
         else:
             value = 0
 
-- 
2.43.0


From 8489c765eca97c2322c858cd0134b5147861ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:51 +0000
Subject: [PATCH 10/45] fix: rig name label is refreshed when a bank
 preselection ends without a rig name change

---
 content/lib/pyswitch/clients/kemper/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..3d2c469 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -98,13 +98,17 @@ class KemperRigNameCallback(Callback):
         if "preselectedBank" in self.__appl.shared:
             if self.__preselect_initialized != self.__appl.shared["preselectedBank"]:
                 self.__preselect_initialized = self.__appl.shared["preselectedBank"]
+                self.__refresh()
 
-                if self.__show_name:
-                    self.parameter_changed(self.__mapping_name)
-                elif self.__show_rig_id:
-                    self.parameter_changed(self.__mapping_id)
-        else:
+        elif self.__preselect_initialized != None:
             self.__preselect_initialized = None
+            self.__refresh()
+
+    def __refresh(self):
+        if self.__show_name:
+            self.parameter_changed(self.__mapping_name)
+        elif self.__show_rig_id:
+            self.parameter_changed(self.__mapping_id)
 
     def update_label(self, label):
         if "preselectedBank" in self.__appl.shared:
-- 
2.43.0


From 0abfd8c7a0360b6f581ce5389a5fb6e9ea38c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 11/45] fix: RIG_UP and RIG_DOWN end bank preselection, as the
 device does on rig selection

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..2acbbb0 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -127,6 +127,10 @@ class _KemperRigChangeCallback(Callback):
             
         self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)
         self.__appl.client.set(self.__sent_rig_mapping, 1)
+
+        # Selecting a rig ends bank preselection
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
         
         self.__appl.shared["morphStateOverride"] = 0
 
-- 
2.43.0


From 3c995b9ab9a254afd92dc311752b48738c2e59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 12/45] fix: blinking of a preselected bank does not stop when
 BANK_UP or BANK_DOWN reach the bank of a BANK_SELECT

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..da26074 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -106,8 +106,11 @@ class KemperBankSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
-            self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
+        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1:
+            # Only one callback may toggle the blink state
+            if self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
+                self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
+            
             self.update_displays()
 
     def push(self):
-- 
2.43.0


From b244ba15424bcc62a9eac91d916aa1e995e6b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 13/45] fix: encoder lost a step when passing position -1

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..e62a544 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 56a5dd12b0c94a24e574bfc57b0e1680ed7290e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 14/45] fix: encoder steps refer to the current value, not to
 the one last set with the encoder

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index e62a544..f681735 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -129,6 +129,10 @@ class EncoderAction(Updateable):
         if self.__last_pos == position:
             return
 
+        # Start from the current value, it might have been changed by others (unless a preselection is in progress)
+        if not self.__preselect_active and self._get_value() != None:
+            self._last_value = self._get_value()
+
         # No value yet
         if self._get_value() == None:
             self._set_value(0)
-- 
2.43.0


From bd810867187658a1667ebb9ff9f4837c73ba9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 15/45] fix: turning the bank select encoder before a rig ID
 has been received raised a TypeError

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..65dcabc 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From eea7f01b745305ef08faeb627ebdb7f82bd61cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 16/45] fix: BANK_SELECT keeps the current rig also after the
 bank select encoder has been turned

---
 .../pyswitch/clients/kemper/actions/bank_select_encoder.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 65dcabc..22f7f16 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -68,7 +68,10 @@ class _BankSelectEncoderAction(EncoderAction):
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        # Keep the current rig of the bank (other actions rely on that)
+        rig = self._mapping.value % NUM_RIGS_PER_BANK if self._mapping.value != None else 0
+
+        self._mapping.value = value * NUM_RIGS_PER_BANK + rig
 
 
 def _convert_value(value):
-- 
2.43.0


From 3b172ac47e90d2f6412f1e396443db0d4983d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 17/45] fix: encoder actions do not catch up turns made while
 they were disabled

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++++
 content/lib/pyswitch/controller/inputs.py                | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f681735..c0db56d 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -108,6 +108,10 @@ class EncoderAction(Updateable):
     def _set_value(self, value):
         self._mapping.value = value
 
+    # Called instead of process() when disabled: Turns made in the meantime do not count
+    def skip(self, position):
+        self.__last_pos = int(position * self.__step_width)
+
     # Process the current encoder position
     def process(self, position):
         # Scale by step width
diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index b9dc1a4..0ad1731 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -282,6 +282,8 @@ class ContinuousController:
 
         for action in self.actions:
             if not action.enabled:
+                if hasattr(action, "skip"):
+                    action.skip(value)
                 continue
 
             action.process(value)
-- 
2.43.0


From 4b9ec35a84982de4ac08894b4fb828b5c4278d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 18/45] fix: auto calibrated pedals do not exceed the range
 documented for transfer functions

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..f92e281 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -99,7 +99,7 @@ class AnalogAction(Updateable):
                     return
                 
                 # Scale the input value up
-                value = int((value - self.__cal_min) * self.__cal_factor)
+                value = min(int((value - self.__cal_min) * self.__cal_factor), 65535)
 
             # Determine the output value to be sent from the (possibly calibrated) input
             # value in range [0..65535]
-- 
2.43.0


From c494ce5f9682cf31590692e351f14b4914580346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 19/45] fix: auto calibration without a minimum window raised
 an AttributeError

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index f92e281..8f8b39f 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -49,6 +49,7 @@ class AnalogAction(Updateable):
         self.__calibrate = auto_calibrate
         self.__cal_min = None
         self.__cal_max = None
+        self.__cal_factor = 1
         self.__cal_min_window = int(65536 * cal_min_window)
 
         self.__min_raw_value = min_raw_value   # store the custom min raw value
-- 
2.43.0


From 47d426847f8287c94f5c8e40f8f710c0b52caff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 20/45] fix: PARAMETER_UP_DOWN lost steps when pressed again or
 repeating before the changed value had been reported

---
 .../clients/local/actions/param_change.py     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..ff01a6f 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -95,19 +95,23 @@ class _ParameterChangeCallback(Callback):
         self.__last_value = -1
 
     def update(self):
+        # Repeat before requesting the value: The answer has to include the change
+        if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
+            self.__change(self.__set_value)
+
         super().update()
 
         if self.__preview:
             self.__preview.update()
 
-        if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
-            self.push()
-
     def push(self):
-        if self._mapping.value is None:
+        self.__change(self._mapping.value)
+
+    def __change(self, value):
+        if value is None:
             return
         
-        v = self._mapping.value + self._offset
+        v = value + self._offset
 
         if v < 0:
             v = 0
@@ -115,6 +119,11 @@ class _ParameterChangeCallback(Callback):
             v = self._max_value
         
         self.__appl.client.set(self._mapping, v)
+        
+        # Further steps refer to the new value, even if the client has not reported it yet
+        self.__set_value = v
+        self._mapping.value = v
+        self.update_displays()
 
         if self.__preview:
             self.__preview.preview_mapping(
-- 
2.43.0


From 9261700af48ccc3f578019129fc327cc436785cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 21/45] fix: PARAMETER_UP_DOWN went on repeating after release
 if the page was changed while the switch was held

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index ff01a6f..0a57a10 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -95,6 +95,10 @@ class _ParameterChangeCallback(Callback):
         self.__last_value = -1
 
     def update(self):
+        # The release is not delivered while disabled or in tuner mode
+        if not self.action.enabled or not getattr(self.action.switch, "pushed", True):
+            self.__pushed = False
+
         # Repeat before requesting the value: The answer has to include the change
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.__change(self.__set_value)
-- 
2.43.0


From 600d6c9504812f10e1b6faeabb34320d30b45753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 22/45] fix: text_color of DISPLAY_FIXED_TEXT had no effect

---
 .../clients/local/actions/fixed_text.py       | 105 +++++++++---------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/fixed_text.py b/content/lib/pyswitch/clients/local/actions/fixed_text.py
index 1ca50a8..9c445a1 100644
--- a/content/lib/pyswitch/clients/local/actions/fixed_text.py
+++ b/content/lib/pyswitch/clients/local/actions/fixed_text.py
@@ -1,52 +1,53 @@
-from ....controller.callbacks import Callback
-from ....controller.actions import Action
-
-# Simple action to display a fixed text in a display field. Ignores any switch pushes.
-def DISPLAY_FIXED_TEXT(text,                           # Text to be shown on the label
-					   display = None,                 # Display label to show the fixed text on 
-					   back_color = None,              # Background color of the label
-					   text_color = None,              # Text color (optional, if empty this will be chosen automatically based on the background color)
-					   id = None, 
-					   enable_callback = None
-	):
-	return Action({
-		"callback": _DisplayMessageCallback(
-			text = text, 
-			back_color = back_color,
-			text_color = text_color
-		),
-		"display": display,
-		"id": id,
-		"enableCallback": enable_callback
-	})
-
-
-class _DisplayMessageCallback(Callback):
-	def __init__(self, 
-			     text, 
-				 back_color = None,
-				 text_color = None
-	):
-		super().__init__()
-	
-		self.__text = text
-		self.__back_color = back_color
-		self.__text_color = text_color
-
-	def update_displays(self):
-		if not self.action or not self.action.label:
-			return
-		
-		self.action.label.text = self.__text
-		
-		if self.__back_color is not None:
-			self.action.label.back_color = self.__back_color
-		
-		if self.__text_color is not None:
-			self.action.label.color = self.__text_color
-
-	def push(self):
-		pass
-
-	def release(self):
-		pass
+from ....controller.callbacks import Callback
+from ....controller.actions import Action
+
+# Simple action to display a fixed text in a display field. Ignores any switch pushes.
+def DISPLAY_FIXED_TEXT(text,                           # Text to be shown on the label
+					   display = None,                 # Display label to show the fixed text on 
+					   back_color = None,              # Background color of the label
+					   text_color = None,              # Text color (optional, if empty this will be chosen automatically based on the background color)
+					   id = None, 
+					   enable_callback = None
+	):
+	return Action({
+		"callback": _DisplayMessageCallback(
+			text = text, 
+			back_color = back_color,
+			text_color = text_color
+		),
+		"display": display,
+		"id": id,
+		"enableCallback": enable_callback
+	})
+
+
+class _DisplayMessageCallback(Callback):
+	def __init__(self, 
+			     text, 
+				 back_color = None,
+				 text_color = None
+	):
+		super().__init__()
+	
+		self.__text = text
+		self.__back_color = back_color
+		self.__text_color = text_color
+
+	def update_displays(self):
+		if not self.action or not self.action.label:
+			return
+		
+		self.action.label.text = self.__text
+		
+		if self.__back_color is not None:
+			self.action.label.back_color = self.__back_color
+		
+		if self.__text_color is not None:
+			self.action.label.color = self.__text_color
+			self.action.label.text_color = self.__text_color
+
+	def push(self):
+		pass
+
+	def release(self):
+		pass
-- 
2.43.0


From 45de4c026029bc46f490501486343ca32d3bca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:20 +0000
Subject: [PATCH 23/45] fix: a switch with hold actions released in tuner mode
 fired the hold actions at the next press

---
 content/lib/pyswitch/controller/inputs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 0ad1731..46510a7 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -105,6 +105,10 @@ class SwitchController:
                 if self.override_action:
                     if self.override_action.release():
                         release()
+                    else:
+                        # The actions do not get to know about this release, so do not leave any hold state behind
+                        self.__hold_active = False
+                        self.__hold_was_active = False
                 else:
                     release()
 
-- 
2.43.0


From a23774a23d3650624e0677c7a77dda49265e52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:20 +0000
Subject: [PATCH 24/45] fix: actions are not released when their push has been
 bypassed in tuner mode

---
 content/lib/pyswitch/controller/inputs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 46510a7..f7bcfdb 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -34,6 +34,7 @@ class SwitchController:
 
         self.__appl = appl
         self.__pushed_state = False
+        self.__push_overridden = False
 
         self.__colors = [(0, 0, 0) for i in range(len(self.pixels))]
         self.__brightnesses = array('f', (0 for i in range(len(self.pixels))))
@@ -109,7 +110,8 @@ class SwitchController:
                         # The actions do not get to know about this release, so do not leave any hold state behind
                         self.__hold_active = False
                         self.__hold_was_active = False
-                else:
+
+                elif not self.__push_overridden:
                     release()
 
             return
@@ -123,8 +125,13 @@ class SwitchController:
         # Mark as pushed (prevents redundant messages in the following ticks, when the switch can still be down)
         self.__pushed_state = True
 
+        # Remember if the actions have been bypassed: If the override is gone until the switch is released, 
+        # they must not be released either.
+        self.__push_overridden = False
+
         if self.override_action:
             if not self.override_action.push():
+                self.__push_overridden = True
                 return
 
         # Process all push actions assigned to the switch     
-- 
2.43.0


From 1271bc228333aa3f5d3f7883c4aa479b60a4ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 25/45] fix: tuner was switched off by releasing its own button
 if another switch was held when it ended before

---
 content/lib/pyswitch/clients/kemper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 3d2c469..4dcfcd8 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -233,6 +233,8 @@ class TunerDisplayCallback(Callback):
                         input.brightness = 0
         else:
             # Tuner off
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = None
-- 
2.43.0


From 962d2ceec44db093d207efd4fbf0647d5ed276fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 26/45] fix: tuner deviance marker left its bounds by one pixel
 at the low end

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..de5b237 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -290,7 +290,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8191, min(int((value - 8192) * self.__zoom), 8192)) + 8191
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From d6121ac0a91e664324c149f11d5c541ff81c70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 27/45] fix: strobe tuner LEDs kept other contents after
 engaging the tuner until the spot passed

---
 content/lib/pyswitch/controller/strobe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..ba56655 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -71,6 +71,9 @@ class StrobeController:
                 # Tuner on
                 self.__enabled = True
                 self.__period.reset()
+
+                # The LEDs have shown something else meanwhile, so all of them have to be set
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From 377d5c5f4c472a45d60fd7438681e9818d0521cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 28/45] fix: Dual Chromatic effects (type 137) were shown as an
 empty slot

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From 5b8f1544686ccdc0c5a7d31e34d4724649470146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 29/45] fix: effect slots show the right state when an effect
 is loaded into an empty slot or removed from it

---
 .../pyswitch/controller/callbacks/effect_enable.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..82c0a56 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -33,11 +33,16 @@ class EffectEnableCallback(BinaryParameterCallback):
         self.__current_kpp_type = None
 
     def update_displays(self):
+        last_category = self.__effect_category
         self.__effect_category = self.get_effect_category(self.mapping_fxtype.value) if self.mapping_fxtype.value != None else self.CATEGORY_NONE
         
         if self.__effect_category == self.CATEGORY_NONE:
             self.action.feedback_state(False)
 
+        elif last_category == self.CATEGORY_NONE:
+            # There is an effect in the slot again: Its state has been ignored up to now
+            self.evaluate_value(self.mapping.value)
+
         if self.__current_kpp_type == self.mapping_fxtype.value:
             super().update_displays()
             return
@@ -50,6 +55,13 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         super().update_displays()
 
+    # An empty slot is never shown as enabled
+    def evaluate_value(self, value):
+        super().evaluate_value(value)
+
+        if self.__effect_category == self.CATEGORY_NONE:
+            self.action.feedback_state(False)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 11dfa2e836108a11e7e5c81092575d6bfac9081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 30/45] fix: restore tempo text and LED when the tempo display
 gets active again

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..7fcf204 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -105,6 +105,11 @@ class _KemperShowTempoCallback(Callback):
     def release(self):
         pass
 
+    # Called when the displays could have been used by something else meanwhile
+    def reset(self):
+        self.__current_value = None
+        self.__last_bpm = None
+
     def update(self):
         super().update()
 
-- 
2.43.0


From b687697ce41e39f8dfc4e3fced5c915825279230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 31/45] fix: blinking during bank preselect wrote the look of
 functions on hidden pages

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py  | 2 +-
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 content/lib/pyswitch/clients/kemper/actions/rig_select.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index da26074..f1b36a6 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -111,7 +111,7 @@ class KemperBankSelectCallback(Callback):
             if self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
                 self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index ed93f13..bd10365 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -171,7 +171,7 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index a5ee99b..1be70c9 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -215,7 +215,7 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+                self.action.update_displays()
 
 
     def update_displays(self):
-- 
2.43.0


From 57f92924172ad60ddb84c3acedec2dfde694706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:35 +0000
Subject: [PATCH 32/45] fix: Web: BANK_SELECT does not offer bank_off = 'auto',
 which it does not support

---
 web/htdocs/definitions/meta.json | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/definitions/meta.json b/web/htdocs/definitions/meta.json
index cb4d8eb..09d13fd 100644
--- a/web/htdocs/definitions/meta.json
+++ b/web/htdocs/definitions/meta.json
@@ -396,7 +396,23 @@
                 "entityName": "BANK_SELECT",
                 "category": "bank",
                 "target": "AdafruitSwitch",
-                "parameters": []
+                "parameters": [
+                    {
+                        "name": "bank_off",
+                        "type": "int",
+                        "advanced": 1,
+                        "range": {
+                            "min": 1,
+                            "max": "NUM_BANKS",
+                            "additionalValues": [
+                                {
+                                    "name": "None",
+                                    "value": "None"
+                                }
+                            ]
+                        }
+                    }
+                ]
             },
             {
                 "entityName": "BANK_UP",
-- 
2.43.0


From 5ab2fc5945bce59f34ea19815b75ccd9d88dfdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:35 +0000
Subject: [PATCH 33/45] fix: PagerAction: Initialize the callback, so mappings
 can be used

---
 content/lib/pyswitch/clients/local/actions/pager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 54e8ff4..682dc0b 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -95,6 +95,7 @@ class PagerAction(Callback, Action):
     # Must be called before usage
     def init(self, appl, switch):
         Action.init(self, appl, switch)
+        Callback.init(self, appl, self._CallbackListener(self))
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
-- 
2.43.0


From 911b2b54e83365b24fe8853e725827220e559ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:35 +0000
Subject: [PATCH 34/45] fix: BidirectionalClient: Do not raise if a value is
 set for a mapping nobody listens to

---
 content/lib/pyswitch/controller/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 9169386..330353e 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -583,7 +583,7 @@ class BidirectionalClient(Client, Updateable):
         if self.protocol.feedback_value(mapping):
             req = self.get_matching_request(mapping)
             if not req:
-                raise Exception() #"No request for mapping: " + repr(mapping))
+                return   # Nobody listens to this mapping
             
             req.mapping.value = value
             req.notify_listeners()
-- 
2.43.0


From 85c9d6a086a16ef20d0648a68538e519f71db6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:35 +0000
Subject: [PATCH 35/45] fix: Parameter change actions: LED brightness must not
 exceed 1 if the value is above max_value

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 0a57a10..0c5f701 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -151,7 +151,7 @@ class _ParameterChangeCallback(Callback):
         
         self.__last_value = self._mapping.value
         
-        dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        dim_factor = min(self._mapping.value / self._max_value, 1) if self._mapping.value != None else 0
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From 04d77ff886fd322274c2111ca63d490b1b484db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 36/45] fix: Web: Configurations with assignments to tuples,
 items or attributes can be opened

---
 web/htdocs/python/parser/misc/AddAssignmentTransformer.py     | 2 +-
 web/htdocs/python/parser/misc/AssignmentExtractor.py          | 3 +++
 web/htdocs/python/parser/misc/AssignmentNameExtractor.py      | 2 +-
 web/htdocs/python/parser/misc/CodeExtractor.py                | 2 +-
 web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py | 3 ++-
 5 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..8be9026 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -34,7 +34,7 @@ class AddAssignmentTransformer(TransformerWithStack):
             assign = updated_node.body[0]
             
             for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
+                if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..61641c3 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -21,6 +21,9 @@ class AssignmentExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 ret.append({
                     "name": target.target.value,
                     "node": assign.value
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..da79258 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -17,7 +17,7 @@ class AssignmentNameExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
-                if target.target.value.startswith("_"):
+                if not isinstance(target.target, libcst.Name) or target.target.value.startswith("_"):
                     continue
 
                 ret.append(target.target.value)
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..2a7e705 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -27,7 +27,7 @@ class CodeExtractor:
 
             assign = statement.body[0]
             for target in assign.targets:
-                if target.target.value != assign_name:
+                if not isinstance(target.target, libcst.Name) or target.target.value != assign_name:
                     continue
 
                 ret = self._parse_node(assign.value)
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..d620bd5 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,4 @@
+import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +13,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From 0ce8a93ae84d9379a37be5baacd8046fccae2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 37/45] fix: Web: Save dict keys in single quotes correctly

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 2a7e705..3719f95 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -97,7 +97,7 @@ class CodeExtractor:
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = dict_element.key.evaluated_value if isinstance(dict_element.key, libcst.SimpleString) else dict_element.key.value
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
-- 
2.43.0


From 9a538802e230fef8a09ef2e66d30bef7f191f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 38/45] fix: Web: Save assigned empty values

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..f28aef7 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] != None else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 1c9784a2f65e8086ec3b978af20ea993540b1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 39/45] fix: Web: Keep an import which is also done inside a
 function

---
 web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
index 35b466a..ff4c2e9 100644
--- a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
+++ b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
@@ -8,8 +8,9 @@ class RemoveUnusedImportTransformer(libcst.CSTTransformer):
 
         self.unused_imports = defaultdict(set)
         
-        imported = []
         for scope in scopes:
+            imported = []
+
             for assignment in scope.assignments:
                 node = assignment.node
 
-- 
2.43.0


From 8a2ecdb999359dd24be9dbe43ee408014c87abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 40/45] fix: Web: Do not replace names the user has imported
 from elsewhere

---
 .../parser/misc/AddImportsTransformer.py      | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..ac9da34 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -5,6 +5,17 @@ class AddImportsTransformer(libcst.CSTTransformer):
     def __init__(self, import_paths):
         self.import_paths = import_paths
         self.__done = False
+        self.__imported = []
+
+    # Collect all names which are already imported on module level, these must not be replaced
+    def visit_Module(self, node):
+        for statement in node.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for entry in statement.body:
+                if isinstance(entry, libcst.ImportFrom) and not isinstance(entry.names, libcst.ImportStar):
+                    self.__imported += [alias.evaluated_alias or alias.evaluated_name for alias in entry.names]
 
     def leave_SimpleStatementLine(self, original_node, updated_node):
         if self.__done:
@@ -12,10 +23,16 @@ class AddImportsTransformer(libcst.CSTTransformer):
         
         self.__done = True
         
-        new_statements = [
-            libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
+        names = [
+            (definition["importPath"], definition["importName"] if "importName" in definition else definition["name"])
             for definition in self.import_paths
         ]
 
+        new_statements = [
+            libcst.parse_statement("from " + path + " import " + name + "\n")
+            for path, name in names
+            if name not in self.__imported
+        ]
+
         return libcst.FlattenSentinel(new_statements + [updated_node])
         
\ No newline at end of file
-- 
2.43.0


From 5fcd46f28092fbacdb88698109184fb9b46aa98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 41/45] fix: Web: Define assignments before they are used when
 saving

---
 web/htdocs/js/PySwitchRunner.js               |  1 +
 web/htdocs/python/parser/PySwitchParser.py    |  7 ++
 .../parser/misc/SortAssignmentsTransformer.py | 67 +++++++++++++++++++
 3 files changed, 75 insertions(+)
 create mode 100644 web/htdocs/python/parser/misc/SortAssignmentsTransformer.py

diff --git a/web/htdocs/js/PySwitchRunner.js b/web/htdocs/js/PySwitchRunner.js
index 036d3e6..25740a3 100644
--- a/web/htdocs/js/PySwitchRunner.js
+++ b/web/htdocs/js/PySwitchRunner.js
@@ -126,6 +126,7 @@ class PySwitchRunner {
             this.#loadModule("parser/misc/ImportExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ReplaceAssignmentTransformer.py", localPythonPath),
             this.#loadModule("parser/misc/AddAssignmentTransformer.py", localPythonPath),
+            this.#loadModule("parser/misc/SortAssignmentsTransformer.py", localPythonPath),
             this.#loadModule("parser/misc/CodeExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/CodeGenerator.py", localPythonPath),        
 
diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 8e3e8bd..e2792e0 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -12,6 +12,7 @@ from .misc.AssignmentExtractor import AssignmentExtractor
 from .misc.ImportExtractor import ImportExtractor
 from .misc.ReplaceAssignmentTransformer import ReplaceAssignmentTransformer
 from .misc.AddAssignmentTransformer import AddAssignmentTransformer
+from .misc.SortAssignmentsTransformer import SortAssignmentsTransformer
 from .misc.ClassNameExtractor import ClassNameExtractor
 
 class PySwitchParser:
@@ -81,6 +82,7 @@ class PySwitchParser:
         ).generate(inputs_py)
         
         self.set_assignment("Inputs", inputs_node, "inputs_py")
+        self._sort_assignments("inputs_py")
 
     # Searches for an Assign with the given name and returns its node, or None if not found
     def get_assignment(self, name, file_id):
@@ -127,6 +129,7 @@ class PySwitchParser:
         ).generate(splashes_py)
         
         self.set_assignment("Splashes", splashes_node, "display_py")
+        self._sort_assignments("display_py")
 
     ########################################################################################
         
@@ -146,6 +149,10 @@ class PySwitchParser:
 
         self.__csts[file_id] = self.__csts[file_id].visit(adder)
 
+    # Reorder the assignments of the file so that they only use names which are already defined
+    def _sort_assignments(self, file_id):
+        self.__csts[file_id] = self.__csts[file_id].visit(SortAssignmentsTransformer())
+
     ########################################################################################
 
     # Remove unused imports on all files. Does no config update!
diff --git a/web/htdocs/python/parser/misc/SortAssignmentsTransformer.py b/web/htdocs/python/parser/misc/SortAssignmentsTransformer.py
new file mode 100644
index 0000000..0fc8e9d
--- /dev/null
+++ b/web/htdocs/python/parser/misc/SortAssignmentsTransformer.py
@@ -0,0 +1,67 @@
+import libcst
+
+# Moves assignments on module level behind the assignments they depend on (for example when an existing 
+# assignment now uses another one which has been added after it).
+class SortAssignmentsTransformer(libcst.CSTTransformer):
+
+    def leave_Module(self, original_node, updated_node):
+        body = list(updated_node.body)
+        
+        # Every move resolves one dependency, so this is sufficient if there are no circular references
+        for i in range(len(body) ** 2):
+            if not self._move_next(body):
+                break
+
+        return updated_node.with_changes(body = body)
+    
+    # Moves the first statement which uses names defined later. Returns if something has been moved.
+    def _move_next(self, body):
+        for i in range(len(body)):
+            if not self._is_assign(body[i]):
+                continue
+
+            names = UsedNamesVisitor().get(body[i])
+            for defined in body[:i]:
+                names -= self._defined_names(defined)
+
+            for k in range(len(body) - 1, i, -1):
+                if self._is_assign(body[k]) and names & self._defined_names(body[k]):
+                    body.insert(k, body.pop(i))
+                    return True
+                
+        return False
+    
+    def _is_assign(self, statement):
+        return isinstance(statement, libcst.SimpleStatementLine) and isinstance(statement.body[0], libcst.Assign)
+    
+    # Names assigned by a statement
+    def _defined_names(self, statement):
+        if not self._is_assign(statement):
+            return set()
+        
+        return { target.target.value for target in statement.body[0].targets if isinstance(target.target, libcst.Name) }
+
+
+# Collects all names needed to execute a statement
+class UsedNamesVisitor(libcst.CSTVisitor):
+
+    def get(self, statement):
+        self._names = set()
+        statement.body[0].value.visit(self)
+        return self._names
+
+    def visit_Name(self, node):
+        self._names.add(node.value)
+
+    # Attribute names (a.b) and names of keyword arguments are no references
+    def visit_Attribute(self, node):
+        node.value.visit(self)
+        return False
+    
+    def visit_Arg(self, node):
+        node.value.visit(self)
+        return False
+
+    # Executed later
+    def visit_Lambda(self, node):
+        return False
-- 
2.43.0


From c2ec78d5c41c4d9cee710a630e8683c76d86b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 42/45] fix: Web: Import inputs if not all hardware definitions
 are imported

---
 web/htdocs/python/parser/PySwitchParser.py | 27 +++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index e2792e0..e53a7db 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -1,6 +1,8 @@
 import libcst
 import json 
 
+from libcst.helpers import get_full_name_for_node
+
 from .InputsExtractor import InputsExtractor
 from .SplashesExtractor import SplashesExtractor
 
@@ -188,7 +190,7 @@ class PySwitchParser:
         ]
 
         # Add all imports
-        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments)
+        visitor = AddImportsTransformer(self.__available_actions + self.__available_mappings + display_assignments + self._generate_hardware_imports())
         self.__csts["inputs_py"] = self.__csts["inputs_py"].visit(visitor)
 
     def _add_all_possible_imports_display(self):
@@ -351,6 +353,29 @@ class PySwitchParser:
             }
         ]
     
+    # Generates the imports for the inputs of the device, if these are not all imported anyway
+    def _generate_hardware_imports(self):
+        for statement in self.__csts["inputs_py"].body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for entry in statement.body:
+                if not isinstance(entry, libcst.ImportFrom) or not isinstance(entry.names, libcst.ImportStar):
+                    continue
+                
+                if get_full_name_for_node(entry.module) == self.hw_import_path:
+                    return []
+
+        with open(self.hw_import_path.replace(".", "/") + ".py") as f: hardware_py = f.read()
+
+        return [
+            { 
+                "name": assign, 
+                "importPath": self.hw_import_path
+            } 
+            for assign in AssignmentNameExtractor().get(libcst.parse_module(hardware_py))
+        ]
+
     # Generates all imports for mappings
     def _generate_mapping_imports(self):
         # Load actions definitions from file
-- 
2.43.0


From 0c0dd1e3b61d31c3c19791e4426551839bed306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 43/45] fix: Web: Edit pagers with assigned pages

---
 web/htdocs/js/model/parser/ParserInputAction.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/js/model/parser/ParserInputAction.js b/web/htdocs/js/model/parser/ParserInputAction.js
index c028871..8a4cac7 100644
--- a/web/htdocs/js/model/parser/ParserInputAction.js
+++ b/web/htdocs/js/model/parser/ParserInputAction.js
@@ -119,7 +119,10 @@ class ParserInputAction extends ParserTreeElement {
      * Converts the nternal parser raw format to the pages array format used in the UI
      */
     #decodePages(arg) {
-        return arg.value.map((page) => {
+        // The pages can also be assigned to a name
+        const pages = Array.isArray(arg.value) ? arg.value : arg.value.value;
+
+        return pages.map((page) => {
             function getPageArg(name) {
                 for (const a of page.arguments) {
                     if (a.name == name) {
-- 
2.43.0


From 7a09bbd1c975990350fc171f5cc89257c2e1378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 44/45] fix: Web: Edits of assigned actions must not be
 overwritten by other usages

---
 web/htdocs/js/model/parser/Parser.js      | 29 +++++++++++++++++++++++
 web/htdocs/js/model/parser/ParserInput.js |  5 ++++
 2 files changed, 34 insertions(+)

diff --git a/web/htdocs/js/model/parser/Parser.js b/web/htdocs/js/model/parser/Parser.js
index 3c96622..82531f7 100644
--- a/web/htdocs/js/model/parser/Parser.js
+++ b/web/htdocs/js/model/parser/Parser.js
@@ -120,6 +120,35 @@ class Parser {
         return crawl(this.#trees.get(fileId));
     }
 
+    /**
+     * All usages of an assignment have their own copy of its definition in the tree. This replaces
+     * all copies which are using the same assignment name as the passed node.
+     */
+    updateAssignment(fileId, node) {
+        this.#initTrees();
+
+        function update(value) {
+            if (value && typeof value == "object" && value !== node && value.assign == node.assign) return node;
+
+            crawl(value);
+            return value;
+        }
+
+        function crawl(element) {
+            if (!element || typeof element != "object" || element === node) return;
+
+            if (Array.isArray(element)) {
+                for (let i = 0; i < element.length; ++i) element[i] = update(element[i]);
+                return;
+            }
+
+            if (element.value) element.value = update(element.value);
+            if (element.arguments) crawl(element.arguments);
+        }
+
+        crawl(this.#trees.get(fileId));
+    }
+
     ///////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
     /**
diff --git a/web/htdocs/js/model/parser/ParserInput.js b/web/htdocs/js/model/parser/ParserInput.js
index 2d1c46e..af14330 100644
--- a/web/htdocs/js/model/parser/ParserInput.js
+++ b/web/htdocs/js/model/parser/ParserInput.js
@@ -138,6 +138,11 @@ class ParserInput extends ParserTreeElement {
         this.#actions = null;
         this.setArgument(hold ? "actionsHold" : "actions", prepped);
 
+        // Assigned actions can be referenced by other actions, too
+        for (const action of prepped) {
+            if (action.assign) this.parser.updateAssignment("inputs_py", action);
+        }
+
         if (!noUpdate) {
             this.parser.updateConfig();
         }
-- 
2.43.0


From 03bc3330fb8819f717fd62668f0a74abcf293d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 45/45] fix: Web: Keep imports when moving actions to an unused
 input

---
 web/htdocs/js/model/parser/Parser.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/htdocs/js/model/parser/Parser.js b/web/htdocs/js/model/parser/Parser.js
index 82531f7..768d014 100644
--- a/web/htdocs/js/model/parser/Parser.js
+++ b/web/htdocs/js/model/parser/Parser.js
@@ -201,10 +201,10 @@ class Parser {
                 ]
             }
 
+            // The config is updated by the caller when the input has been filled: Doing this here
+            // would remove imports which are not used in the meantime (when moving actions to the new input)
             this.#trees.get("inputs_py").push(newInput);
 
-            this.updateConfig();
-            
             return this.input(modelName);
         }
         
-- 
2.43.0


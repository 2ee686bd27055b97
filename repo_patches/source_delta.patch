From f552ed6eb9b44fd2b7e1a739f1853e9045244661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:38 +0000
Subject: [PATCH 01/43] fix: press modifier again after it was negated while
 repeating

A held modifier which repeated keeps its pressed-twice flag when a negation
releases it. The next output containing the modifier then dropped its press,
so it was sent without the modifier. Reset the flag on temporary release.
---
 src/runtime/Stage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 997e35d..f799a34 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -828,6 +828,7 @@ void Stage::update_output(const KeyEvent& event, const Trigger& trigger, int con
           m_output_buffer.emplace_back(event.key, KeyState::Up);
           it->temporarily_released = true;
         }
+        it->pressed_twice = false;
         it->suppressed = true;
       }
       break;
-- 
2.43.0


From ca27ddcc7d5206e45a4543a7413e6c0f8809d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:27 +0000
Subject: [PATCH 02/43] fix: emit output split with ^ once per press and
 complete it on release

When the key which triggers a split output was not the last one pressed (for
example in a chord), repeats of the other key emitted the first part again and
each time queued the second part. Only one queued part was emitted on release,
the remaining ones swallowed the next press of the trigger. Ignore repeated
matches while the second part is pending and emit all pending parts on release.
---
 src/runtime/Stage.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index f799a34..77e2ce0 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -637,7 +637,15 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
           trigger = event;
       }
 
-      apply_output(*output, trigger, context_index);
+      // ignore repeated match while rest of output is pending
+      const auto output_pending = std::any_of(
+        cbegin(m_output_on_release), cend(m_output_on_release),
+        [&](const OutputOnRelease& o) {
+          return (o.trigger == get_trigger_key(trigger) &&
+                  o.sequence.end() == output->end());
+        });
+      if (!output_pending)
+        apply_output(*output, trigger, context_index);
 
       finish_sequence(sequence);
 
@@ -675,19 +683,20 @@ void Stage::apply_input(const KeyEvent event, int device_index) {
 }
 
 bool Stage::continue_output_on_release(const KeyEvent& event, int context_index) {
-  const auto it = std::find_if(begin(m_output_on_release), end(m_output_on_release),
-    [&](const OutputOnRelease& o) {
-      return (o.trigger == event.key &&
-              (o.trigger != Key::ContextActive || o.context_index == context_index));
-    });
-  if (it != m_output_on_release.end()) {
+  for (auto it = begin(m_output_on_release); it != end(m_output_on_release); ) {
+    if (it->trigger != event.key ||
+        (it->trigger == Key::ContextActive && it->context_index != context_index)) {
+      ++it;
+      continue;
+    }
+
     // ignore key repeat
     if (event.state == KeyState::Down)
       return false;
 
     // trigger released - output rest of sequence
     apply_output(it->sequence, event, it->context_index);
-    m_output_on_release.erase(it);
+    it = m_output_on_release.erase(it);
   }
   return true;
 }
-- 
2.43.0


From bce493bfdb395722f4f5a0993ab2f7f9463165d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:30 +0000
Subject: [PATCH 03/43] fix: restore all negated keys before an output presses
 one of them

When an output pressed a key which was itself temporarily released by a
negation, restoring stopped at that key. Other keys which are still held, like
Shift, stayed released. Restore the others first, then the pressed key.
---
 src/runtime/Stage.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/runtime/Stage.cpp b/src/runtime/Stage.cpp
index 77e2ce0..6c7f138 100644
--- a/src/runtime/Stage.cpp
+++ b/src/runtime/Stage.cpp
@@ -844,15 +844,17 @@ void Stage::update_output(const KeyEvent& event, const Trigger& trigger, int con
     }
 
     case KeyState::Down: {
-      // reapply temporarily released
+      // reapply temporarily released, the key itself last
+      auto reapply_key = false;
       for (auto& output : m_output_down)
         if (output.temporarily_released && !output.suppressed) {
           output.temporarily_released = false;
-          m_output_buffer.emplace_back(output.key, KeyState::Down);
           m_temporary_reapplied = true;
 
           if (output.key == event.key)
-            return;
+            reapply_key = true;
+          else
+            m_output_buffer.emplace_back(output.key, KeyState::Down);
         }
         else if (output.temporarily_released &&
                  output.key == event.key) {
@@ -866,6 +868,10 @@ void Stage::update_output(const KeyEvent& event, const Trigger& trigger, int con
             return;
           }
         }
+      if (reapply_key) {
+        m_output_buffer.emplace_back(event.key, KeyState::Down);
+        return;
+      }
 
       if (it == end(m_output_down)) {
         if (event.key != Key::timeout)
-- 
2.43.0


From a17440b45f878fb41b3a284a6352bd308233ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:50 +0000
Subject: [PATCH 04/43] fix: let input timeouts match when the duration was
 rounded down

---
 src/runtime/Timeout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/Timeout.h b/src/runtime/Timeout.h
index 752a18d..8139445 100644
--- a/src/runtime/Timeout.h
+++ b/src/runtime/Timeout.h
@@ -8,8 +8,10 @@
 
 template<typename R, typename P>
 KeyEvent::value_t duration_to_timeout(const std::chrono::duration<R, P>& duration) {
+  // tolerate that fractional durations can be rounded down
   const auto milliseconds = 
-    std::chrono::duration_cast<std::chrono::milliseconds>(duration);
+    std::chrono::duration_cast<std::chrono::milliseconds>(
+      duration + std::chrono::microseconds(1));
   const auto max = (1 << KeyEvent::value_bits) - 1;
   return static_cast<KeyEvent::value_t>(std::clamp(
     static_cast<int>(milliseconds.count()),
-- 
2.43.0


From 3c8b443f555ca92525a1aa100b0f7cd77d11e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:40 +0000
Subject: [PATCH 05/43] fix: discard delayed output of a replaced configuration

When the configuration was replaced while output was delayed, the pending
output was sent at once, its virtual keys and actions were triggered under
the new configuration, and keys it pressed could stay down.
Only output which is already due is sent now. Of the delayed output only
the releases are kept.
---
 src/server/ServerState.cpp | 18 ++++++++++++++++++
 src/server/ServerState.h   |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 4dde44c..91c99f3 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -100,9 +100,27 @@ bool ServerState::read_client_messages(std::optional<Duration> timeout) {
   return m_client->read_messages(*this, timeout);
 }
 
+void ServerState::discard_delayed_output() {
+  // keep releases, since the keys may already be down
+  m_send_buffer.erase(
+    std::remove_if(m_send_buffer.begin(), m_send_buffer.end(),
+      [](const KeyEvent& event) {
+        return (event.state != KeyState::Up ||
+          !is_device_key(event.key) || is_mouse_wheel(event.key));
+      }),
+    m_send_buffer.end());
+}
+
 void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
+  if (!m_flush_scheduled_at || Clock::now() >= *m_flush_scheduled_at)
+    flush_send_buffer();
+  discard_delayed_output();
   release_all_keys();
   flush_send_buffer();
+  m_send_buffer.clear();
+  m_last_key_event = { };
+  if (!stage)
+    m_next_key_info_requested = false;
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
   m_virtual_keys_down.clear();
diff --git a/src/server/ServerState.h b/src/server/ServerState.h
index cc93b39..57ef286 100644
--- a/src/server/ServerState.h
+++ b/src/server/ServerState.h
@@ -48,6 +48,7 @@ protected:
   virtual std::string get_devices_error_message() { return { }; }
 
   void release_all_keys();
+  void discard_delayed_output();
   void set_active_contexts(const std::vector<int>& active_contexts);
   void send_key_sequence(const KeySequence& key_sequence);
   void schedule_timeout(Duration timeout, bool cancel_on_up);
-- 
2.43.0


From 0e3a042b1ca56025b364976067dfdac6f444630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:19 +0000
Subject: [PATCH 06/43] fix: do not require release of a key which was only
 negated before

An input expression like "!A B !A" was translated to a sequence which waits
for a release of A, so it could never match.
---
 src/config/ParseKeySequence.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/ParseKeySequence.cpp b/src/config/ParseKeySequence.cpp
index 851789b..070b06c 100644
--- a/src/config/ParseKeySequence.cpp
+++ b/src/config/ParseKeySequence.cpp
@@ -18,7 +18,8 @@ namespace {
   bool is_pressed(const KeySequence& sequence, Key key) {
     const auto it = std::find_if(sequence.rbegin(), sequence.rend(), 
       [&](const KeyEvent& event) { return (event.key == key); });
-    return (it != sequence.rend() && it->state != KeyState::Up);
+    return (it != sequence.rend() &&
+      it->state != KeyState::Up && it->state != KeyState::Not);
   }
 
   bool has_virtual_key(const KeySequence& sequence) {
-- 
2.43.0


From 442971cbe152750fe74dfcdbf5658de6770063e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:19 +0000
Subject: [PATCH 07/43] fix: reject ContextActive after ?

ContextActive can only be used alone, "? ContextActive" was accepted and
resulted in an input sequence without any key.
---
 src/config/ParseKeySequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ParseKeySequence.cpp b/src/config/ParseKeySequence.cpp
index 070b06c..319cd32 100644
--- a/src/config/ParseKeySequence.cpp
+++ b/src/config/ParseKeySequence.cpp
@@ -275,7 +275,7 @@ void ParseKeySequence::check_ContextActive_usage() {
   if (it != m_sequence.end()) {
     if (!m_is_input)
       throw ParseError("ContextActive is only allowed in input");
-    if (m_sequence.size() != 2)
+    if (m_sequence.size() != 2 || it != m_sequence.begin())
       throw ParseError("ContextActive can only be used alone");
     m_sequence.pop_back();
   }
-- 
2.43.0


From 3ed2095a027da4fe5d55543309db5ccafa288fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:19 +0000
Subject: [PATCH 08/43] fix: reject closing a modifier group within an open
 together group

Expressions like "A{(B}C)" were accepted.
---
 src/config/ParseKeySequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ParseKeySequence.cpp b/src/config/ParseKeySequence.cpp
index 319cd32..4d25e2a 100644
--- a/src/config/ParseKeySequence.cpp
+++ b/src/config/ParseKeySequence.cpp
@@ -410,7 +410,7 @@ void ParseKeySequence::parse(It it, const It end) {
     }
     else if (skip(&it, end, "}")) {
       // end modified-group
-      if (!in_modified_group)
+      if (in_together_group || !in_modified_group)
         throw ParseError("Unexpected '}'");
 
       flush_key_buffer(true);
-- 
2.43.0


From 3af2f2f2fd77d9c64b182afc91d4c720a0b2d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:19 +0000
Subject: [PATCH 09/43] fix: saturate numbers which are too large

Reading a large number overflowed, so a timeout like 4294967396ms was
taken for 100ms.
---
 src/config/string_iteration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config/string_iteration.h b/src/config/string_iteration.h
index 6f1b321..864cd07 100644
--- a/src/config/string_iteration.h
+++ b/src/config/string_iteration.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <cctype>
+#include <limits>
 #include <optional>
 #include <stdexcept>
 
@@ -151,7 +152,8 @@ std::optional<int> try_read_number(ForwardIt* it, ForwardIt end) {
   const auto begin = *it;
   auto number = 0;
   for (; *it != end && **it >= '0' && **it <= '9'; ++*it)
-    number = number * 10 + (**it - '0');
+    number = (number < std::numeric_limits<int>::max() / 10 ?
+      number * 10 + (**it - '0') : std::numeric_limits<int>::max());
   return (*it != begin ? std::make_optional(number) : std::nullopt);
 }
 
-- 
2.43.0


From b0a6ecb4d17fe6ed93d7c040ac449dd9801353eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:19 +0000
Subject: [PATCH 10/43] fix: reject invalid names of virtual keys

Names like VirtualX or Virtual1x were accepted and denoted Virtual0
respectively Virtual1.
---
 src/config/get_key_name.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/config/get_key_name.cpp b/src/config/get_key_name.cpp
index be08d74..819ea5c 100644
--- a/src/config/get_key_name.cpp
+++ b/src/config/get_key_name.cpp
@@ -20,6 +20,19 @@ namespace {
     }
     return Key::none;
   }
+
+  Key parse_virtual_key_number(std::string_view number) {
+    const auto max = *Key::last_virtual - *Key::first_virtual;
+    auto n = 0;
+    for (auto c : number) {
+      if (c < '0' || c > '9')
+        return Key::none;
+      n = n * 10 + (c - '0');
+      if (n > max)
+        return Key::none;
+    }
+    return static_cast<Key>(*Key::first_virtual + n);
+  }
 } // namespace
 
 const char* get_key_name(const Key& key) {
@@ -243,9 +256,7 @@ Key get_key_by_name(std::string_view name) {
     return key;
 
   if (remove_prefix(name, "Virtual"))
-    if (const auto n = std::atoi(name.data()); n >= 0)
-      if (n <= *Key::last_virtual - *Key::first_virtual)
-        return static_cast<Key>(*Key::first_virtual + n);
+    return parse_virtual_key_number(name);
 
   // allow to omit Key and Digit prefixes
   if (remove_prefix(name, "Key")) {
-- 
2.43.0


From 195dc6e48f1ee920e2bbc90f78cf891ca758f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:25 +0000
Subject: [PATCH 11/43] fix: do not ignore last line when it ends with a
 backslash

---
 src/config/ParseConfig.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index b61487b..e3d064e 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -296,6 +296,9 @@ void ParseConfig::parse_file(std::istream& is, std::string filename) {
     }
     parse_line(line);
   }
+  // the last line may also end with '\\'
+  if (!prev_line.empty() && !m_parsing_done)
+    parse_line(prev_line);
 
   m_line_no = prev_line_no;
   m_filename = std::move(prev_filename);
-- 
2.43.0


From fccadf537d352f6a760410b14b06af584cd42044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:25 +0000
Subject: [PATCH 12/43] fix: prevent overflow in builtin arithmetic macros

---
 src/config/ParseConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index e3d064e..88488f4 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -781,8 +781,8 @@ std::string ParseConfig::apply_builtin_macro(const std::string& ident,
       ident == "max") {
     if (arguments.size() != 2)
       error("Invalid argument count");
-    const auto a = parse_int(arguments[0]);
-    const auto b = parse_int(arguments[1]);
+    const auto a = std::optional<int64_t>(parse_int(arguments[0]));
+    const auto b = std::optional<int64_t>(parse_int(arguments[1]));
     if (!a.has_value() || !b.has_value())
       error("Number expected");
     if (ident == "add") return std::to_string(*a + *b);
-- 
2.43.0


From 7732f85afe39d8bf8c45b6b9b316c58600540762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 13/43] fix: prevent overflow when counting arguments of apply

---
 src/config/ParseConfig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 88488f4..2f6c6b1 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -184,7 +184,8 @@ namespace {
     const auto end = expression.end();
     while (skip_until(&it, end, '$'))
       if (auto number = try_read_number(&it, end))
-        max = std::max(*number + 1, max);
+        max = std::max(max,
+          std::min(*number, std::numeric_limits<int>::max() - 1) + 1);
     return max;
   }
 } // namespace
-- 
2.43.0


From 419b9873f2825f88b859f7358fcc4932d19b9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/43] fix: reject more terminal commands than there are
 action keys

---
 src/config/ParseConfig.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 2f6c6b1..7d8cf1c 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -707,6 +707,9 @@ Key ParseConfig::get_key_by_name(std::string_view name) const {
 }
 
 Key ParseConfig::add_terminal_command_action(std::string_view command) {
+  if (m_config.actions.size() > *Key::last_action - *Key::first_action)
+    error("Too many terminal commands");
+
   const auto action_key_code =
     static_cast<Key>(*Key::first_action + m_config.actions.size());
   m_config.actions.push_back({ std::string(command) });
-- 
2.43.0


From f5a4521d0522aaa35465760fe4b35ee41a0c4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 15/43] fix: recognize string which directly follows another
 string

---
 src/config/string_iteration.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config/string_iteration.h b/src/config/string_iteration.h
index 864cd07..cf684d7 100644
--- a/src/config/string_iteration.h
+++ b/src/config/string_iteration.h
@@ -49,6 +49,7 @@ bool skip_until_not_in_string(ForwardIt* it, ForwardIt end, const char* str) {
     if (skip(it, end, '"') || skip(it, end, '\'')) {
       if (!skip_until(it, end, *std::prev(*it)))
         throw std::runtime_error("Unterminated string");
+      continue;
     }
     if (skip(it, end, str))
       return true;
-- 
2.43.0


From 633ee7badd1e7e414c2344e1311144d8d36f71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 16/43] fix: do not preprocess text after a parenthesis in
 terminal commands

---
 src/config/string_iteration.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/config/string_iteration.h b/src/config/string_iteration.h
index cf684d7..1abb0e1 100644
--- a/src/config/string_iteration.h
+++ b/src/config/string_iteration.h
@@ -230,8 +230,17 @@ bool skip_regular_expression(ForwardIt* it, ForwardIt end) {
 template<typename ForwardIt>
 bool skip_terminal_command(ForwardIt* it, ForwardIt end) {
   if (skip(it, end, "$(")) {
-    if (!skip_until_not_in_string(it, end, ")"))
-      throw std::runtime_error("Unterminated terminal command");
+    for (auto level = 1; level > 0; ) {
+      if (skip_string(it, end))
+        continue;
+      if (*it == end)
+        throw std::runtime_error("Unterminated terminal command");
+      if (**it == '(')
+        ++level;
+      else if (**it == ')')
+        --level;
+      ++*it;
+    }
     return true;
   }
   return false;
-- 
2.43.0


From fa00950d6fcf7a3ecaa3261d493a7c44443dd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 17/43] fix: allow to redefine logical keys

---
 src/config/ParseConfig.cpp | 27 +++++++++++++++------------
 src/config/ParseConfig.h   |  1 +
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 7d8cf1c..4a16509 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -558,9 +558,7 @@ std::vector<Key> ParseConfig::parse_forward_modifiers_list(It* it, const It end)
     if (name.empty())
       error("Key name expected");
 
-    const auto it2 = std::find_if(m_logical_keys.begin(), m_logical_keys.end(),
-      [&](const LogicalKey& key) { return key.name == name; });
-    if (it2 != m_logical_keys.end()) {
+    if (const auto it2 = find_logical_key(name)) {
       for (auto key : { it2->left, it2->right })
         if (!contains(modifiers, key))
           modifiers.push_back(key);
@@ -695,15 +693,17 @@ KeySequence ParseConfig::parse_input(It it, It end) {
 }
 
 Key ParseConfig::get_key_by_name(std::string_view name) const {
-  if (const auto key = ::get_key_by_name(name); key != Key::none)
-    return key;
-
-  const auto it = std::find_if(m_logical_keys.begin(), m_logical_keys.end(),
-    [&](const LogicalKey& key) { return key.name == name; });
-  if (it != m_logical_keys.end())
+  if (const auto it = find_logical_key(name))
     return it->both;
 
-  return { };
+  return ::get_key_by_name(name);
+}
+
+auto ParseConfig::find_logical_key(std::string_view name) const -> const LogicalKey* {
+  // the last definition counts
+  const auto it = std::find_if(m_logical_keys.rbegin(), m_logical_keys.rend(),
+    [&](const LogicalKey& key) { return key.name == name; });
+  return (it != m_logical_keys.rend() ? &*it : nullptr);
 }
 
 Key ParseConfig::add_terminal_command_action(std::string_view command) {
@@ -734,7 +734,8 @@ void ParseConfig::parse_macro(std::string name, It it, It end) {
 
 bool ParseConfig::parse_logical_key_definition(
     const std::string& logical_name, It it, const It end) {
-  if (*get_key_by_name(logical_name))
+  const auto redefined = (find_logical_key(logical_name) != nullptr);
+  if (!redefined && *get_key_by_name(logical_name))
     return false;
 
   auto left = get_key_by_name(preprocess(read_ident(&it, end)));
@@ -753,7 +754,9 @@ bool ParseConfig::parse_logical_key_definition(
       left = add_logical_key("$", left, right);
       continue;
     }
-    add_logical_key(logical_name, left, right);
+    // like macros do not redefine logical keys for other systems
+    if (m_system_filter_matched || !redefined)
+      add_logical_key(logical_name, left, right);
     skip_space(&it, end);
     if (it != end)
       error("Unexpected '" + std::string(it, end) + "'");
diff --git a/src/config/ParseConfig.h b/src/config/ParseConfig.h
index 50eac3e..038ce90 100644
--- a/src/config/ParseConfig.h
+++ b/src/config/ParseConfig.h
@@ -54,6 +54,7 @@ private:
   std::string apply_builtin_macro(const std::string& ident,
     const std::vector<std::string>& arguments) const;
   Key add_logical_key(std::string name, Key left, Key right);
+  const LogicalKey* find_logical_key(std::string_view name) const;
   void replace_logical_key(Key both, Key left, Key right);
   std::string read_filter_string(It* it, It end);
   Filter read_filter(It* it, It end, bool invert);
-- 
2.43.0


From 8c4849f603f32c297db6ab18ae5d8ee2b963b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:52 +0000
Subject: [PATCH 18/43] fix: forward physical keys of nested logical keys

---
 src/config/ParseConfig.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 4a16509..a64e80a 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -559,7 +559,16 @@ std::vector<Key> ParseConfig::parse_forward_modifiers_list(It* it, const It end)
       error("Key name expected");
 
     if (const auto it2 = find_logical_key(name)) {
-      for (auto key : { it2->left, it2->right })
+      // also resolve logical keys which consist of logical keys
+      auto keys = std::vector<Key>{ it2->both };
+      for (auto i = m_logical_keys.rbegin(); i != m_logical_keys.rend(); ++i) {
+        const auto pos = std::find(keys.begin(), keys.end(), i->both);
+        if (pos != keys.end()) {
+          *pos = i->right;
+          keys.insert(pos, i->left);
+        }
+      }
+      for (auto key : keys)
         if (!contains(modifiers, key))
           modifiers.push_back(key);
     }
-- 
2.43.0


From a3c20678d1755e673e473df43acab03838381cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:18 +0000
Subject: [PATCH 19/43] fix: inverted modifier filters with logical keys

---
 src/config/ParseConfig.cpp | 30 ++++++++++++++++++++++++++++++
 src/config/ParseConfig.h   |  1 +
 2 files changed, 31 insertions(+)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index a64e80a..073219e 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -234,6 +234,8 @@ Config ParseConfig::operator()(std::istream& is,
   // remove contexts of other systems or which are empty
   optimize_contexts();
 
+  resolve_inverted_modifier_filters();
+
   // replace logical keys (in reverse order of registration)
   for (auto it = m_logical_keys.rbegin(); it != m_logical_keys.rend(); ++it) {
     const auto& [name, both, left, right] = *it;
@@ -1084,6 +1086,34 @@ void ParseConfig::replace_logical_key(Key both, Key left, Key right) {
   }
 }
 
+void ParseConfig::resolve_inverted_modifier_filters() {
+  const auto is_logical = [&](const KeyEvent& event) {
+    return (event.key >= Key::first_logical && event.key <= Key::last_logical);
+  };
+  // a context which is active unless all modifiers match is active when any does not.
+  // insert one fallthrough context per modifier, when they contain a logical key
+  auto& contexts = m_config.contexts;
+  for (auto it = begin(contexts); it != end(contexts); ++it) {
+    const auto modifiers = it->modifier_filter;
+    if (!it->invert_modifier_filter ||
+        !std::any_of(modifiers.begin(), modifiers.end(), is_logical))
+      continue;
+    it->invert_modifier_filter = false;
+    for (auto i = size_t{ }; i < modifiers.size(); ++i) {
+      if (i > 0) {
+        it = contexts.insert(it, *it);
+        it->inputs.clear();
+        it->outputs.clear();
+        it->command_outputs.clear();
+        it->fallthrough = true;
+        ++it;
+      }
+      it->modifier_filter.assign({ KeyEvent(modifiers[i].key,
+        modifiers[i].state == KeyState::Not ? KeyState::Down : KeyState::Not) });
+    }
+  }
+}
+
 void ParseConfig::optimize_contexts() {
   auto& contexts = m_config.contexts;
   auto before_context = false;
diff --git a/src/config/ParseConfig.h b/src/config/ParseConfig.h
index 038ce90..86652c7 100644
--- a/src/config/ParseConfig.h
+++ b/src/config/ParseConfig.h
@@ -61,6 +61,7 @@ private:
   Key get_key_by_name(std::string_view name) const;
   Key add_terminal_command_action(std::string_view command);
   void optimize_contexts();
+  void resolve_inverted_modifier_filters();
   void prepend_forward_modifier_mappings();
   void suppress_forwarded_modifiers_in_outputs();
 
-- 
2.43.0


From 8e2ca8b47f4caa05b32b9c859767d79026e8b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:24 +0000
Subject: [PATCH 20/43] fix: do not include space before comments in values of
 aliases

An alias of a virtual key with a trailing comment was not recognized as such
and quotes of strings were not removed on substitution.
---
 src/config/ParseConfig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 073219e..886b1ce 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -738,7 +738,8 @@ KeySequence ParseConfig::parse_output(It it, It end) {
 }
 
 void ParseConfig::parse_macro(std::string name, It it, It end) {
-  auto preprocessed = preprocess(it, end, false);
+  // space before a comment is not part of the value
+  auto preprocessed = std::string(trim(preprocess(it, end, false)));
   if (m_system_filter_matched || !m_macros.count(name))
     m_macros[std::move(name)] = std::move(preprocessed);
 }
-- 
2.43.0


From ca57fa98f1707777bff33ab69407eb69397c0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:28 +0000
Subject: [PATCH 21/43] fix: reject definition of alias without a name

---
 src/config/ParseConfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 886b1ce..f1fac66 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -315,6 +315,8 @@ void ParseConfig::parse_line(std::string& line) {
   auto first_ident = read_ident(&it, end);
   skip_space(&it, end);
   if (skip(&it, end, "=")) {
+    if (first_ident.empty())
+      error("Identifier expected");
     skip_space(&it, end);
     if (!parse_logical_key_definition(first_ident, it, end))
       parse_macro(std::move(first_ident), it, end);
-- 
2.43.0


From a57b8ae328302eaa037d086a6a1ed41fbacee818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:28 +0000
Subject: [PATCH 22/43] fix: allow more than one space between options

---
 src/config/ParseConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index f1fac66..56808c0 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -488,7 +488,7 @@ void ParseConfig::parse_directive(It it, const It end) {
     };
     auto ss = std::istringstream(std::string(it, end));
     auto name = std::string();
-    while (std::getline(ss, name, ' '))
+    while (ss >> name)
       add_option(name);
     it = end;
   }
-- 
2.43.0


From bba865e3fe7919da5010e747c7a696d270361879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:49 +0000
Subject: [PATCH 23/43] fix: forward keys which are part of logical keys
 several times

---
 src/config/ParseConfig.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index 56808c0..c334322 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -566,10 +566,10 @@ std::vector<Key> ParseConfig::parse_forward_modifiers_list(It* it, const It end)
       // also resolve logical keys which consist of logical keys
       auto keys = std::vector<Key>{ it2->both };
       for (auto i = m_logical_keys.rbegin(); i != m_logical_keys.rend(); ++i) {
-        const auto pos = std::find(keys.begin(), keys.end(), i->both);
-        if (pos != keys.end()) {
+        auto pos = keys.begin();
+        while ((pos = std::find(pos, keys.end(), i->both)) != keys.end()) {
           *pos = i->right;
-          keys.insert(pos, i->left);
+          pos = keys.insert(pos, i->left);
         }
       }
       for (auto key : keys)
-- 
2.43.0


From 7eeb1ec8292ddfa461881d591ba2c436a2370fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 24/43] fix: do not lose messages received together with the
 end of the connection

---
 src/common/Connection.cpp | 9 +++++----
 src/common/Connection.h   | 5 ++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/Connection.cpp b/src/common/Connection.cpp
index 2470291..9578077 100644
--- a/src/common/Connection.cpp
+++ b/src/common/Connection.cpp
@@ -105,7 +105,7 @@ int Connection::recv(char* buffer, size_t length) {
       break;
 #endif
     if (result <= 0)
-      return -1;
+      return (read > 0 ? read : -1);
     length -= static_cast<size_t>(result);
     buffer += result;
     read += static_cast<int>(result);
@@ -116,16 +116,17 @@ int Connection::recv(char* buffer, size_t length) {
 bool Connection::recv(std::vector<char>& buffer) {
   const auto buffer_grow_size = 1024;
   auto pos = buffer.size();
+  auto connected = true;
   for (;;) {
     if (pos == buffer.size())
       buffer.resize(buffer.size() + buffer_grow_size);
     const auto result = recv(buffer.data() + pos, buffer.size() - pos);
     if (result < 0)
-      return false;
-    if (result == 0)
+      connected = false;
+    if (result <= 0)
       break;
     pos += static_cast<size_t>(result);
   }
   buffer.resize(pos);
-  return true;
+  return connected;
 }
diff --git a/src/common/Connection.h b/src/common/Connection.h
index 08bef07..b7d5df6 100644
--- a/src/common/Connection.h
+++ b/src/common/Connection.h
@@ -124,8 +124,7 @@ public:
 
     // read into buffer until it would block
     auto& buffer = m_deserializer.buffer;
-    if (!recv(buffer))
-      return false;
+    const auto connected = recv(buffer);
 
     // deserialize complete messages
     m_deserializer.it = buffer.begin();
@@ -141,7 +140,7 @@ public:
         return false;
     }
     buffer.erase(buffer.begin(), m_deserializer.it);
-    return true;
+    return connected;
   }
 
 private:
-- 
2.43.0


From 368b6613924f41bfdffad46182237feef556d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 25/43] fix: do not take "/i" for a regular expression

---
 src/common/parse_regex.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/parse_regex.h b/src/common/parse_regex.h
index b73911a..dd12788 100644
--- a/src/common/parse_regex.h
+++ b/src/common/parse_regex.h
@@ -5,9 +5,11 @@
 #include <cassert>
 
 inline bool is_regex(std::string_view string) {
+  if (!string.empty() && string.back() == 'i')
+    string.remove_suffix(1);
   return (string.size() >= 2 &&
           string.front() == '/' &&
-          string[string.size() - (string.back() == 'i' ? 2 : 1)] == '/');
+          string.back() == '/');
 }
 
 inline std::regex parse_regex(std::string_view string) {
-- 
2.43.0


From c7ce73eac3df00e8f7dc875adc91102fed4aed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 26/43] fix: report release of virtual keys when the
 configuration is reset

---
 src/server/ServerState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 91c99f3..47162c1 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -123,6 +123,9 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
     m_next_key_info_requested = false;
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
+  for (auto key : m_virtual_keys_down)
+    if (is_virtual_key(key))
+      m_client->send_virtual_key_state(key, KeyState::Up);
   m_virtual_keys_down.clear();
   m_flush_scheduled_at.reset();
   m_timeout_start_at.reset();
-- 
2.43.0


From fc5fa419cda593ec844d23b3294e84a5f3262c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 27/43] fix: store state of the last virtual key

---
 src/client/ControlPort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index 0540b02..84bf0a7 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -50,7 +50,7 @@ private:
   void disconnect_by_instance_id(const std::string& id);
 
   Host m_host;
-  std::array<bool, *Key::last_virtual - *Key::first_virtual> m_virtual_keys_down{ };
+  std::array<bool, *Key::last_virtual - *Key::first_virtual + 1> m_virtual_keys_down{ };
   std::vector<std::pair<std::string, Key>> m_virtual_key_aliases;
   std::map<Socket, Control> m_controls;
 };
-- 
2.43.0


From c6a9d14c4226a23b761481c8116ea99872517751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 28/43] fix: do not forward requests to set unknown virtual
 keys

---
 src/client/ControlPort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/ControlPort.cpp b/src/client/ControlPort.cpp
index af84034..4509b53 100644
--- a/src/client/ControlPort.cpp
+++ b/src/client/ControlPort.cpp
@@ -161,7 +161,8 @@ bool ControlPort::read_messages(Connection& connection,
         case MessageType::set_virtual_key_state: {
           const auto key = get_virtual_key(d.read_string());
           const auto state = d.read<KeyState>();
-          handler.on_set_virtual_key_state_message(key, state);
+          if (key != Key::none)
+            handler.on_set_virtual_key_state_message(key, state);
           send_virtual_key_state(connection, key);
           break;
         }
-- 
2.43.0


From bc8e630d095989e09505f1fabd969aea028f4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:44:27 +0000
Subject: [PATCH 29/43] fix: keep current configuration when switching to a
 recent one fails

---
 src/client/ClientState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index c526f80..362c392 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -116,7 +116,11 @@ bool ClientState::load_config(std::filesystem::path filename) {
   else {
     // swap with previously loaded file
     std::swap(*it, m_config_file);
-    return m_config_file.update(false);
+    if (m_config_file.update(false))
+      return true;
+    // keep current on failure
+    std::swap(*it, m_config_file);
+    return false;
   }
 }
 
-- 
2.43.0


From d6166a9550fb275427b7595c775ec6ca728759d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:28 +0000
Subject: [PATCH 30/43] fix: detect every modification of the configuration
 file and its includes

---
 src/client/ConfigFile.cpp | 75 +++++++++++++++------------------------
 src/client/ConfigFile.h   |  7 ++--
 src/config/ParseConfig.h  |  5 +++
 3 files changed, 38 insertions(+), 49 deletions(-)

diff --git a/src/client/ConfigFile.cpp b/src/client/ConfigFile.cpp
index 7a2da0c..a5ecfe3 100644
--- a/src/client/ConfigFile.cpp
+++ b/src/client/ConfigFile.cpp
@@ -6,68 +6,38 @@
 #include <fstream>
 #include <thread>
 
-#if defined(_WIN32)
-
-#include "common/windows/win.h"
-
 namespace {
-  std::time_t filetime_to_time_t(const FILETIME& ft) {
-    auto ull = ULARGE_INTEGER{ };
-    ull.LowPart = ft.dwLowDateTime;
-    ull.HighPart = ft.dwHighDateTime;
-    return ull.QuadPart / 10000000ULL - 11644473600ULL;
-  }
-
-  std::time_t get_modify_time(const std::filesystem::path& filename) {
-    auto file_attr_data = WIN32_FILE_ATTRIBUTE_DATA{ };
-    if (!GetFileAttributesExW(filename.c_str(),
-        GetFileExInfoStandard, &file_attr_data))
-      return { };
-    return filetime_to_time_t(file_attr_data.ftLastWriteTime);
-  }
-} // namespace
-
-#else // !defined(_WIN32)
+  using ModifyTime = std::filesystem::file_time_type;
 
-#include <sys/stat.h>
-
-namespace {
-  std::time_t get_modify_time(const std::string& filename) {
-    using stat_t = struct stat;
-    auto st = stat_t{ };
-    if (::stat(filename.c_str(), &st) == 0)
-      return st.st_mtime;
-    return { };
+  ModifyTime get_modify_time(const std::filesystem::path& filename) {
+    auto error = std::error_code{ };
+    const auto time = std::filesystem::last_write_time(filename, error);
+    return (error ? ModifyTime::min() : time);
   }
-} // namespace
-
-#endif // !defined(_WIN32)
 
-namespace {
-  std::time_t get_latest_modify_time(const std::filesystem::path& filename, 
+  std::vector<ModifyTime> get_modify_times(const std::filesystem::path& filename,
       const std::vector<std::filesystem::path>& include_filenames) {
-    auto time = get_modify_time(filename);
-    if (time)
-      for (const auto& include_filename : include_filenames)
-        if (const auto include_time = get_modify_time(include_filename))
-          time = std::max(time, include_time);
-    return time;
+    auto times = std::vector<ModifyTime>{ };
+    times.push_back(get_modify_time(filename));
+    for (const auto& include_filename : include_filenames)
+      times.push_back(get_modify_time(include_filename));
+    return times;
   }
 } // namespace
 
 bool ConfigFile::load(std::filesystem::path filename) {
   m_filename = std::move(filename);
-  m_modify_time = { -1 };
+  m_modify_times.clear();
   return update();
 }
 
 bool ConfigFile::update(bool check_modified) {
-  const auto modify_time = get_latest_modify_time(
-    m_filename, m_config.include_filenames);
+  auto modify_times = get_modify_times(m_filename, m_include_filenames);
   if (check_modified && 
-      modify_time == m_modify_time)
+      modify_times == m_modify_times)
     return false;
-  m_modify_time = modify_time;
+  m_modify_times = std::move(modify_times);
+  auto parse = ParseConfig();
   try {
     // do not reload too quickly after a modification was detected
     // at least saving with gedit resulted in reading and empty configuration
@@ -76,8 +46,8 @@ bool ConfigFile::update(bool check_modified) {
   
     auto is = std::ifstream(m_filename);
     if (is.good()) {
-      auto parse = ParseConfig();
       m_config = parse(is, m_filename.parent_path());
+      set_include_filenames(m_config.include_filenames);
       return true;
     }
     else {
@@ -86,6 +56,17 @@ bool ConfigFile::update(bool check_modified) {
   }
   catch (const std::exception& ex) {
     error("%s", ex.what());
+    set_include_filenames(parse.include_filenames());
   }
   return false;
 }
+
+void ConfigFile::set_include_filenames(
+    std::vector<std::filesystem::path> include_filenames) {
+  if (m_include_filenames == include_filenames)
+    return;
+  m_include_filenames = std::move(include_filenames);
+  const auto modify_time = m_modify_times.front();
+  m_modify_times = get_modify_times(m_filename, m_include_filenames);
+  m_modify_times.front() = modify_time;
+}
diff --git a/src/client/ConfigFile.h b/src/client/ConfigFile.h
index 5c70678..6094c73 100644
--- a/src/client/ConfigFile.h
+++ b/src/client/ConfigFile.h
@@ -1,8 +1,8 @@
 #pragma once
 
 #include "config/Config.h"
-#include <ctime>
 #include <string>
+#include <vector>
 #include <filesystem>
 
 class ConfigFile {
@@ -14,7 +14,10 @@ public:
   explicit operator bool() const { return !m_filename.empty(); }
 
 private:
+  void set_include_filenames(std::vector<std::filesystem::path> include_filenames);
+
   std::filesystem::path m_filename;
-  std::time_t m_modify_time{ -1 };
+  std::vector<std::filesystem::path> m_include_filenames;
+  std::vector<std::filesystem::file_time_type> m_modify_times;
   Config m_config;
 };
diff --git a/src/config/ParseConfig.h b/src/config/ParseConfig.h
index 86652c7..52f89cf 100644
--- a/src/config/ParseConfig.h
+++ b/src/config/ParseConfig.h
@@ -16,6 +16,11 @@ public:
   Config operator()(std::istream& is,
     const std::filesystem::path& base_path = { });
 
+  // also available when parsing failed
+  const std::vector<std::filesystem::path>& include_filenames() const {
+    return m_config.include_filenames;
+  }
+
 private:
   struct Command {
     std::string name;
-- 
2.43.0


From 9083466fc7fbe8add92a8a1ba15b76b6a1d8237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:28 +0000
Subject: [PATCH 31/43] fix: wait for the rest of a reply which arrives in
 pieces

---
 src/control/ClientPort.cpp | 26 ++++++++++++++++++++++++--
 src/control/ClientPort.h   |  3 +++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/control/ClientPort.cpp b/src/control/ClientPort.cpp
index 0f24428..2f56973 100644
--- a/src/control/ClientPort.cpp
+++ b/src/control/ClientPort.cpp
@@ -78,9 +78,31 @@ bool ClientPort::send_type_string(const std::string& string) {
   });
 }
 
+template<typename F> // void(Deserializer&)
+bool ClientPort::read_message(std::optional<Duration> timeout, F&& deserialize) {
+  // a message can arrive in several pieces
+  const auto begin = Clock::now();
+  auto remaining = timeout;
+  auto received = false;
+  for (;;) {
+    const auto connected = m_connection.read_messages(remaining,
+      [&](Deserializer& d) {
+        received = true;
+        deserialize(d);
+      });
+    if (received || !connected)
+      return received;
+    if (timeout) {
+      remaining = *timeout - (Clock::now() - begin);
+      if (*remaining <= Duration::zero())
+        return true;
+    }
+  }
+}
+
 bool ClientPort::read_virtual_key_state(std::optional<Duration> timeout, 
     std::optional<KeyState>* result) {
-  return m_connection.read_messages(timeout,
+  return read_message(timeout,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::virtual_key_state: {
@@ -97,7 +119,7 @@ bool ClientPort::read_virtual_key_state(std::optional<Duration> timeout,
 
 bool ClientPort::read_next_key_info(std::optional<Duration> timeout, 
     std::string* result) {
-  return m_connection.read_messages(timeout,
+  return read_message(timeout,
     [&](Deserializer& d) {
       switch (d.read<MessageType>()) {
         case MessageType::next_key_info: {
diff --git a/src/control/ClientPort.h b/src/control/ClientPort.h
index 991511f..1af8fef 100644
--- a/src/control/ClientPort.h
+++ b/src/control/ClientPort.h
@@ -24,6 +24,9 @@ public:
     std::string* result);
 
 private:
+  template<typename F> // void(Deserializer&)
+  bool read_message(std::optional<Duration> timeout, F&& deserialize);
+
   Host m_host;
   Connection m_connection;
 };
-- 
2.43.0


From e63562ab2d4deea4f7733aecfe2cd674b0da1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:20 +0000
Subject: [PATCH 32/43] fix: do not grab own forward devices of devices with
 long names

The name of a virtual device is limited to 79 characters. For a device with
a longer name the end of the forward device's name got cut off, which is how
the server recognizes its own devices. It grabbed the forward device, created
a forward device for that and so on.
---
 src/server/unix/VirtualDevicesLinux.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 72464aa..5974a14 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -14,7 +14,9 @@
 
 namespace {
   std::string get_forward_device_name(const std::string& device_name) {
-    return device_name + "; " + VirtualDevices::name;
+    // the end of the name has to remain, since it identifies virtual devices
+    const auto suffix = std::string("; ") + VirtualDevices::name;
+    return device_name.substr(0, UINPUT_MAX_NAME_SIZE - 1 - suffix.size()) + suffix;
   }
 
   int open_uinput_device() {
-- 
2.43.0


From 189a8aa42d115cee58dcf87cff2aaa4550ad714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:35 +0000
Subject: [PATCH 33/43] fix: recognize mice by both of their axes

The codes of the axes were used as bits, so a device with only a vertical
axis did not count as the mouse which was active last.
---
 src/server/unix/VirtualDevicesLinux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 5974a14..5754f32 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -161,7 +161,7 @@ namespace {
   }
 
   bool has_mouse_axes(const DeviceDescLinux& desc) {
-    return static_cast<bool>(desc.rel_axes & (REL_X | REL_Y));
+    return static_cast<bool>(desc.rel_axes & ((1ull << REL_X) | (1ull << REL_Y)));
   }
 
   class VirtualDevice {
-- 
2.43.0


From 89700faa3af7565d7aa161ea5ca56b3aea2ab728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:35 +0000
Subject: [PATCH 34/43] fix: release mouse buttons with the device which
 pressed them

Buttons and wheel events are sent with the mouse which was active last. When
that changed while a button was held, the release went to another virtual
device and the button remained pressed. Events which are not supported by
that mouse got lost, they are sent with the virtual keyboard now.
---
 src/server/unix/VirtualDevicesLinux.cpp | 44 ++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 5754f32..d41b4f6 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -168,6 +168,8 @@ namespace {
   private:
     const int m_uinput_fd{ -1 };
     const bool m_has_mouse_axes{ false };
+    const std::vector<uint16_t> m_keys;
+    const uint64_t m_rel_axes{ };
     std::vector<Key> m_down_keys;
     int m_highres_wheel_accumulators[2]{ };
 
@@ -178,7 +180,9 @@ namespace {
 
     VirtualDevice(int uinput_fd, const DeviceDescLinux& desc)
       : m_uinput_fd(uinput_fd),
-        m_has_mouse_axes(::has_mouse_axes(desc)) {
+        m_has_mouse_axes(::has_mouse_axes(desc)),
+        m_keys(desc.keys),
+        m_rel_axes(desc.rel_axes) {
     }
 
     ~VirtualDevice() {
@@ -189,6 +193,18 @@ namespace {
       return m_has_mouse_axes;
     }
 
+    bool has_key(Key key) const {
+      return (std::find(begin(m_keys), end(m_keys), *key) != end(m_keys));
+    }
+
+    bool has_rel_axis(int code) const {
+      return static_cast<bool>(m_rel_axes & (1ull << code));
+    }
+
+    bool is_key_down(Key key) const {
+      return (std::find(begin(m_down_keys), end(m_down_keys), key) != end(m_down_keys));
+    }
+
     int update_key_state(const KeyEvent& event) {
       const auto release = 0;
       const auto press = 1;
@@ -293,12 +309,30 @@ public:
     return device->send_event(type, code, value);
   }
 
+  // get device with which to send mouse buttons and wheel events
+  VirtualDevice* get_mouse(Key key) {
+    // buttons are released by the device which pressed them
+    if (m_keyboard->is_key_down(key))
+      return m_keyboard.get();
+    for (auto& [event_id, device] : m_forward_devices)
+      if (device.is_key_down(key))
+        return &device;
+
+    // otherwise use last active mouse when it has the button/wheel
+    if (auto mouse = m_last_active_mouse) {
+      const auto vertical = (key == Key::WheelUp || key == Key::WheelDown);
+      if (is_mouse_button(key) ? mouse->has_key(key) :
+          mouse->has_rel_axis(vertical ? REL_WHEEL : REL_HWHEEL) ||
+          mouse->has_rel_axis(vertical ? REL_WHEEL_HI_RES : REL_HWHEEL_HI_RES))
+        return mouse;
+    }
+    return m_keyboard.get();
+  }
+
   bool send_key_event(const KeyEvent& event) {
     auto device = m_keyboard.get();
-
-    // send mouse buttons and wheel events with last active mouse
-    if (m_last_active_mouse && (is_mouse_button(event.key) || is_mouse_wheel(event.key)))
-      device = m_last_active_mouse;
+    if (is_mouse_button(event.key) || is_mouse_wheel(event.key))
+      device = get_mouse(event.key);
 
     if (is_mouse_wheel(event.key)) {
       const auto vertical = (event.key == Key::WheelUp || event.key == Key::WheelDown);
-- 
2.43.0


From 076e1a479c5e5c1f5215f103024b58493b50cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:35 +0000
Subject: [PATCH 35/43] fix: pass on wheel events of mice with only one high
 resolution wheel

The low resolution events of the other wheel were ignored.
---
 src/server/unix/GrabbedDevicesLinux.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index b72c1f5..9766125 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -71,11 +71,11 @@ namespace {
        (abs_bits & (~common_abs_bits)) != 0);
   }
   
-  bool has_highres_wheel(int fd) {
-    const auto highres_wheel_bits = bit<REL_WHEEL_HI_RES> | bit<REL_HWHEEL_HI_RES>;
+  bool has_highres_wheel(int fd, bool vertical) {
+    const auto highres_wheel_bit = (vertical ? bit<REL_WHEEL_HI_RES> : bit<REL_HWHEEL_HI_RES>);
     auto rel_bits = uint64_t{ };
     return (::ioctl(fd, EVIOCGBIT(EV_REL, sizeof(rel_bits)), &rel_bits) >= 0 &&
-       (rel_bits & highres_wheel_bits) != 0);
+       (rel_bits & highres_wheel_bit) != 0);
   }
 
   bool is_supported_device(int fd) {
@@ -297,6 +297,7 @@ private:
     IntRange abs_range_volume;
     IntRange abs_range_misc;
     bool has_highres_wheel;
+    bool has_highres_hwheel;
     bool disappeared;
   };
 
@@ -404,7 +405,7 @@ public:
               ev.code = REL_WHEEL_HI_RES;
               ev.value *= 120;
             }
-            else if (ev.code == REL_HWHEEL && !device.has_highres_wheel) {
+            else if (ev.code == REL_HWHEEL && !device.has_highres_hwheel) {
               ev.code = REL_HWHEEL_HI_RES;
               ev.value *= 120;
             }
@@ -443,7 +444,8 @@ private:
       ::dup(fd),
       get_device_abs_axis_range(fd, ABS_VOLUME),
       get_device_abs_axis_range(fd, ABS_MISC),
-      has_highres_wheel(fd),
+      has_highres_wheel(fd, true),
+      has_highres_wheel(fd, false),
     });
     return true;
   }
-- 
2.43.0


From 3c01b105f913bfe679f19b9b3432186ccea0cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:35 +0000
Subject: [PATCH 36/43] fix: do not change axis values of devices which have a
 forward device

Values are mapped to the range of the virtual keyboard's axes, but a forward
device has the axes of the original device.
---
 src/server/unix/GrabbedDevicesLinux.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index 9766125..d89af28 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -71,6 +71,10 @@ namespace {
        (abs_bits & (~common_abs_bits)) != 0);
   }
   
+  bool needs_forward_device(int fd) {
+    return (has_mouse_axes(fd) || has_uncommon_abs_axes(fd));
+  }
+
   bool has_highres_wheel(int fd, bool vertical) {
     const auto highres_wheel_bit = (vertical ? bit<REL_WHEEL_HI_RES> : bit<REL_HWHEEL_HI_RES>);
     auto rel_bits = uint64_t{ };
@@ -296,6 +300,7 @@ private:
     int fd;
     IntRange abs_range_volume;
     IntRange abs_range_misc;
+    bool has_forward_device;
     bool has_highres_wheel;
     bool has_highres_hwheel;
     bool disappeared;
@@ -390,7 +395,7 @@ public:
                 reinterpret_cast<char*>(&ev), sizeof(input_event)))
             return { false, std::nullopt };
 
-          if (ev.type == EV_ABS) {
+          if (ev.type == EV_ABS && !device.has_forward_device) {
             // map from device range to default range
             if (ev.code == ABS_VOLUME) {
               ev.value = map_to_range(ev.value, device.abs_range_volume, default_abs_range);
@@ -444,6 +449,7 @@ private:
       ::dup(fd),
       get_device_abs_axis_range(fd, ABS_VOLUME),
       get_device_abs_axis_range(fd, ABS_MISC),
+      needs_forward_device(fd),
       has_highres_wheel(fd, true),
       has_highres_wheel(fd, false),
     });
@@ -526,8 +532,7 @@ private:
       });
 
       // obtain full descs of devices for which to create forward devices
-      if (has_mouse_axes(device.fd) ||
-          has_uncommon_abs_axes(device.fd)) {
+      if (device.has_forward_device) {
         auto ext = DeviceDescLinux{ };
         ext.event_id = device.event_id;
         const auto ids = get_device_ids(device.fd);
-- 
2.43.0


From e4a97871fef34412a8f76dab5305d8e4f6c98b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:22 +0000
Subject: [PATCH 37/43] fix: send output of initially active contexts without
 waiting for an event

When the active contexts arrived together with the configuration, the virtual
devices did not exist yet and the output was not sent before the next event.
---
 src/server/unix/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/unix/main.cpp b/src/server/unix/main.cpp
index 5c78b8a..67bbda8 100644
--- a/src/server/unix/main.cpp
+++ b/src/server/unix/main.cpp
@@ -87,6 +87,13 @@ namespace {
 
   bool main_loop() {
     auto& s = g_state;
+
+    // send output of contexts which became active before devices were created
+    if (!s.flush_scheduled_at() && !s.flush_send_buffer()) {
+      error("Sending input failed");
+      return true;
+    }
+
     for (;;) {
       // wait for next input event
       auto now = Clock::now();
-- 
2.43.0


From 80dc2415e7e73784a96c50168f0f15d5188bc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:57:55 +0000
Subject: [PATCH 38/43] fix: do not drop a connection because of changes
 received before it

When a client sent a configuration with other grab device filters and then
disconnected, the devices were to be grabbed again and the next connection
got closed with the first event.
---
 src/server/unix/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/unix/main.cpp b/src/server/unix/main.cpp
index 67bbda8..a70a839 100644
--- a/src/server/unix/main.cpp
+++ b/src/server/unix/main.cpp
@@ -76,6 +76,7 @@ namespace {
   }
 
   bool read_initial_config() {
+    g_grab_device_filters_changed = false;
     while (!g_state.has_configuration()) {
       if (!g_state.read_client_messages()) {
         error("Receiving configuration failed");
-- 
2.43.0


From 6a1b90462e841643a3de561ced2ff0fc3102283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:03:09 +0000
Subject: [PATCH 39/43] fix: do not drop wheel steps while output is delayed

Only keys are repeated. Successive identical wheel events were taken for
key repeats and ignored while a delayed output or a timeout was pending.
---
 src/server/ServerState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 47162c1..b9b5ec9 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -199,6 +199,7 @@ const DeviceDesc* ServerState::get_device_desc(int device_index) const {
 bool ServerState::translate_input(KeyEvent input, int device_index) {
   // ignore key repeat while a flush or a timeout is pending
   if (input == m_last_key_event && 
+        !is_mouse_wheel(input.key) &&
         (m_flush_scheduled_at || m_timeout_start_at)) {
     verbose_debug_io(input, { }, true);
     return true;
-- 
2.43.0


From 2a505b622e32b0e1e00cec432795b4bbce018d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:41 +0000
Subject: [PATCH 40/43] fix: do not block the client until running commands end

The handler of SIGCHLD waited for any child. After a notification was shown
there is a pending signal for a child which was already waited for, so the
handler waited for a command which is still running. Until that ended the
client did not react to anything.
---
 src/client/unix/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index ae5d7b4..a70ac6e 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -111,8 +111,9 @@ namespace {
   }
 
   void catch_child([[maybe_unused]] int sig_num) {
-    auto child_status = 0;
-    ::wait(&child_status);
+    // not waiting for children which are still running
+    while (::waitpid(-1, nullptr, WNOHANG) > 0)
+      ;
   }
 
   void main_loop() {
-- 
2.43.0


From 8696f6fb4951b760fdb24aba15a5e535c4f3b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:17:49 +0000
Subject: [PATCH 41/43] fix: do not let the shell interpret the text of
 notifications

The title of a window, which is part of a key info, was inserted in a shell
command. Substitutions in it were executed and after a backslash and a quote
the rest of the text was taken for further commands.
---
 src/client/unix/main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index a70ac6e..34cfe77 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -37,14 +37,19 @@ namespace {
   TrayIcon g_tray_icon;
 
   void show_notification(const char* message) {
+    // the text is unescaped by the notification program
     auto escaped = std::string(message);
-    replace_all<char>(escaped, "\\", "\\\\\\");
+    replace_all<char>(escaped, "\\", "\\\\");
+#if defined(__APPLE__)
     replace_all<char>(escaped, "\"", "\\\"");
+#endif
+    // prevent the shell from interpreting it
+    replace_all<char>(escaped, "'", "'\\''");
     auto ss = std::stringstream();
 #if defined(__APPLE__)
     ss << R"(osascript -e 'display notification ")" << escaped << R"(" with title "keymapper"')";
 #else
-    ss << R"(notify-send -a keymapper keymapper ")" << escaped << R"(")";
+    ss << R"(notify-send -a keymapper keymapper ')" << escaped << R"(')";
 #endif
     [[maybe_unused]] auto result = std::system(ss.str().c_str());
   }
-- 
2.43.0


From 8501d029adeeee5b26443a665e266829e61cb961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:28:31 +0000
Subject: [PATCH 42/43] fix: do not pass sockets on to executed commands

A command which is still running kept the socket for control connections and
the connection to the server open. So after a reconnect no control program
could connect and the server did not notice the end of the client.
---
 src/common/Host.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 5e1a7d2..63f0c85 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -52,6 +52,9 @@ void make_non_blocking(Socket socket_fd) {
   ::ioctlsocket(socket_fd, FIONBIO, &mode);
 }
 
+void make_close_on_exec(Socket) {
+}
+
 #else // !defined(_WIN32)
 
 #include <csignal>
@@ -96,6 +99,10 @@ void make_non_blocking(Socket socket_fd) {
   ::fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK);
 }
 
+void make_close_on_exec(Socket socket_fd) {
+  ::fcntl(socket_fd, F_SETFD, FD_CLOEXEC);
+}
+
 #endif // !defined(_WIN32)
 
 Host::~Host() {
@@ -106,6 +113,7 @@ bool Host::listen() {
   m_listen_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
   if (m_listen_fd == invalid_socket)
     return false;
+  make_close_on_exec(m_listen_fd);
 
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
@@ -143,6 +151,7 @@ Connection Host::accept(std::optional<Duration> timeout) {
   auto socket_fd = ::accept(m_listen_fd, nullptr, nullptr);
   if (socket_fd == invalid_socket)
     return { };
+  make_close_on_exec(socket_fd);
   auto connection = Connection(socket_fd);
 
   // check if client version matches own
@@ -167,6 +176,7 @@ Connection Host::connect(std::optional<Duration> timeout) {
   auto socket_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
   if (socket_fd == invalid_socket)
     return { };
+  make_close_on_exec(socket_fd);
    
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
-- 
2.43.0


From 14897d6b0562ee940ee3c84d8deff78534f8ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:32:28 +0000
Subject: [PATCH 43/43] fix: apply the options of a configuration set by the
 control program

They were only applied when the client was started or when the current file
was updated.
---
 src/client/unix/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 34cfe77..6d85f7b 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -25,6 +25,9 @@ namespace {
     void on_open_help() override;
     void on_open_about() override;
     void on_exit() override;
+
+  private:
+    bool on_set_config_file_message(std::string filename) override;
   };
   
   const auto system_config_path = std::filesystem::path("/etc/");
@@ -115,6 +118,13 @@ namespace {
     g_shutdown = true;
   }
 
+  bool ClientStateImpl::on_set_config_file_message(std::string filename) {
+    if (!ClientState::on_set_config_file_message(std::move(filename)))
+      return false;
+    update_options();
+    return true;
+  }
+
   void catch_child([[maybe_unused]] int sig_num) {
     // not waiting for children which are still running
     while (::waitpid(-1, nullptr, WNOHANG) > 0)
-- 
2.43.0


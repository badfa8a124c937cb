From b55bd7d616f757c186db043842f83d66a9d5d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/27] fix: keep the merged head when uniting two character
 classes

[a-d]|[c-f] lost [a,c): the tail was copied from the unmerged operand.
---
 src/core/CharClass.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..38f3b67 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -164,8 +164,17 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    //The head of the remainder may have been merged with ranges already consumed from the other class
+    if (i != m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(ri);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++i, m_ranges.cend());
+    }
+    if (j != cc.m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(rj);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++j, cc.m_ranges.cend());
+    }
 
     return new_class;
 }
-- 
2.43.0


From 6cad80109bab1cb7df2b09a66b55f4c41ac5636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 02/27] fix: insert a range into a character class at its
 sorted position

A range that touched no existing one was appended at the end, and later
unions then produced unsorted and overlapping lists.
---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..ef9d90a 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From 7362a491714c700d9a99405004b93ff4a43e583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/27] fix: keep the ranges sorted when a character class is
 built from a list

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index ef9d90a..6bd5f13 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
-- 
2.43.0


From f4ff5d48a011e996f80af11972c3497fb1d8f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/27] fix: complement a character class that contains NUL
 without an inverted range

---
 src/core/CharClass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 6bd5f13..0581e10 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -171,9 +171,9 @@ public:
 
 		if (i != m_ranges.cend())
 		{
-			if (i->start() == 1)
+			if (i->start() <= 1)
 			{
-				last_end = i->end();
+				last_end = std::max(last_end, i->end());
 				i++;
 			}
 		}
-- 
2.43.0


From e8a094cc56ec331a25d8e715f3d74d84f55ccfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 05/27] fix: merge adjacent ranges when uniting two character
 classes

[a-b]|[c-d] kept two touching ranges, and its complement then contained
an empty range that no longer counts as epsilon.
---
 src/core/CharClass.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index 38f3b67..bb61fc1 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -137,13 +137,13 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
     {
         if (ri < rj)
         {
-            new_class.m_ranges.push_back(ri);
+            new_class.append(ri);
             if (++i != m_ranges.cend())
                 ri = *i;
         }
         else if (ri > rj)
         {
-            new_class.m_ranges.push_back(rj);
+            new_class.append(rj);
             if (++j != cc.m_ranges.cend())
                 rj = *j;
         }
@@ -167,12 +167,12 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
     //The head of the remainder may have been merged with ranges already consumed from the other class
     if (i != m_ranges.cend())
     {
-        new_class.m_ranges.push_back(ri);
+        new_class.append(ri);
         new_class.m_ranges.insert(new_class.m_ranges.end(), ++i, m_ranges.cend());
     }
     if (j != cc.m_ranges.cend())
     {
-        new_class.m_ranges.push_back(rj);
+        new_class.append(rj);
         new_class.m_ranges.insert(new_class.m_ranges.end(), ++j, cc.m_ranges.cend());
     }
 
-- 
2.43.0


From 87bcc8b11111e3ae9f26ed6adc6610fb1493b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 06/27] fix: give an ATN node parsed without a local id the id
 -1

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..96ed98b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From 0c2221ff7e4d1848657fd7fc5d29c4b6d3c3a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 07/27] fix: drop the ATN transition constructor that leaves
 the tag indeterminate

---
 src/core/ATN.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 96ed98b..ecf2327 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -21,10 +21,6 @@ template<typename TCHAR> class ATNTransition
     ATNTransitionType m_type;
     int m_dest, m_tag;
 public:
-    ATNTransition(int dest)
-        : m_type(ATNTransitionType::Epsilon), m_dest(dest)
-    {
-    }
     ATNTransition(int dest, int tag = 0)
         : m_type(ATNTransitionType::Epsilon), m_dest(dest), m_tag(tag)
     {
-- 
2.43.0


From 49e70bcc95bd84b0d34cfc497b52cccb8fbc1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 08/27] fix: give the label of a fresh automaton state a value

---
 src/core/NFA.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..6fac56f 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -96,6 +96,7 @@ protected:
     TLABEL m_label;
 public:
     NFABaseState()
+        : m_label()
     {
     }
     NFABaseState(const TLABEL& label)
-- 
2.43.0


From 336f30be0b2304a48cd4556c422eec647973dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 09/27] fix: keep the tag of a transition when its destination
 is shifted

---
 src/core/NFA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 6fac56f..a2ee5a8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -58,7 +58,7 @@ public:
     }
     NFATransition<TCHAR> offset(int value) const
     {
-        return NFATransition<TCHAR>(m_label, m_dest + value, m_long);
+        return NFATransition<TCHAR>(m_label, m_dest + value, m_long, m_tag);
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From 72de166e4b42cbfbd87a27d8417c0e515ae58776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 10/27] fix: keep the label of a state when its transitions are
 shifted

---
 src/core/NFA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index a2ee5a8..e7f110b 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -136,7 +136,7 @@ public:
     }
     NFABaseState<TCHAR, TLABEL> offset(int value) const
     {
-        NFABaseState<TCHAR, TLABEL> new_state;
+        NFABaseState<TCHAR, TLABEL> new_state(m_label);
 
         for (const auto& transition : m_transitions)
         {
-- 
2.43.0


From f009ed89333a51fd0f9b61c0cc6933a94ad64a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 11/27] fix: move every attribute of a grammar

---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..0fa0aa9 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From a1648308a842c20e2e73b5ab8aee0391b361ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 12/27] fix: refuse more rules than a marker can number

---
 src/core/Grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..40f6fdc 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -56,8 +56,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From c3ca0a3ff5c3b5c238cb0c4ea6a69fcf6943a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 13/27] fix: number and list a rule only if it is registered

---
 src/core/Grammar.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 40f6fdc..368e2c6 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -111,14 +111,17 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
 
-            m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 4d773dac29acf43e7d14e47f0d5d4e832ed1afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 14/27] fix: a value reduced onto an empty tag stack read the
 tag before the first

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From b28418ebef945db668c2be428d2687f58376cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 15/27] fix: Stream::peek(n) looked past the end of the text
 when exactly n-1 characters remained

---
 src/core/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..80f4b3b 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -114,7 +114,7 @@ public:
     }
     wchar_t peek(int n)
     {
-        for (int i = 0; i < n - 1; i++)
+        for (int i = 0; i < n; i++)
         {
             if (m_cur + i == m_str.end())
                 return L'\0';
-- 
2.43.0


From 67a1a16a8c5320e421979e3916a31aa32f5341c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 16/27] fix: an include path without its closing quote was read
 past the end of the grammar forever

---
 src/core/Grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 368e2c6..78c7c9d 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From 7d185053f3e598567bc28fad53807bbaaf0efd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 17/27] fix: an options block was refused whatever it
 contained, its closing brace was never looked for

---
 src/core/Grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 78c7c9d..eb17bc3 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -162,7 +162,7 @@ void GrammarOptions::parse(Stream& stream)
         throw stream.unexpected(ch);
     stream.discard();
 
-    while (true)
+    while (stream.skip_whitespace() != L'}')
     {
         Identifier key(stream);
 
-- 
2.43.0


From 0a6d647c24db1fecac6a64f5ae342bc974625d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 18/27] fix: a CR LF line break was delivered as a carriage
 return, so a // comment in such a file never ended

---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 80f4b3b..dd3f850 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -94,6 +94,7 @@ public:
                     return L'\n';
                 if (*m_cur == L'\n')
                 {
+                    ch = L'\n';
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
-- 
2.43.0


From 90a1be2ac2e451c9b83115f4bc74e7ad93e7a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:38 +0000
Subject: [PATCH 19/27] fix: an optional group that can repeat must not be
 entered half-way

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index e7f110b..972be42 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -568,15 +568,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From ba00e3db1a30c5354c011471f96e9117d3ab3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:13 +0000
Subject: [PATCH 20/27] fix: states that differ in acceptance must not be
 merged

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..0112deb 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,7 +18,6 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
@@ -53,6 +52,10 @@ public:
 	{
 		return m_accept;
 	}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
 };
 
 template<typename TCHAR> class DFA : public NFABase<DFAState<TCHAR> >
-- 
2.43.0


From ba4109fc75ed1fe572086b9742f918cb141a85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:13 +0000
Subject: [PATCH 21/27] fix: an epsilon cycle must not be followed for ever

---
 src/core/NFA.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 972be42..90690f3 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -635,8 +635,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself; a state already included has been followed
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
-- 
2.43.0


From 70205f41487ff5f336df0c2564af33978c254167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 22/27] fix: optimising a rule must not lose the priority of an
 alternative

---
 src/core/ATN.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index ecf2327..3848e8c 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -373,9 +373,21 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+                    int priority = 0;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i) priority = t.tag();
+                    }
+                    bool decision = false;
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != 0) decision = true;
+                    }
+                    //The priorities of two decisions cannot be merged into one
+                    if (decision && origin.get_transitions().size() > 1) continue;
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(ATNTransition<TCHAR>(t.type(), t.dest(), decision ? t.tag() : priority));
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From 3ad7add46409765a7f70556257adc065ccb3fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 23/27] fix: what follows a terminal must not be joined to its
 loops

---
 src/core/CompositeATN.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..d9389e4 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,8 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        if (literal.empty())
+            return add_node(CharClass<TCHAR>(), origin, tag);
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
@@ -129,7 +131,7 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
-        return m_nodes.size() - 1;
+        return add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
     {
-- 
2.43.0


From d122567de0d98f14d3ade001807cf2123f5e532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:26 +0000
Subject: [PATCH 24/27] fix: attaching to the shared memory must not leak its
 descriptor

---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..dc4adcf 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -250,7 +250,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From 911239ebecc685cb4f1cdee233014b181876e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:26 +0000
Subject: [PATCH 25/27] fix: the second parse of a context must not collide
 with the first

---
 src/python/centaurus/context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..ddffe79 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -15,6 +15,7 @@ class Stage1Worker(object):
         self.runner = None
         self.core_affinity=core_affinity
     def parse(self, path):
+        self.stop()
         self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
         self.runner.start()
     def start(self):
-- 
2.43.0


From ee58f83f02bd28b1205c6fb566d6561b44b0dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:05 +0000
Subject: [PATCH 26/27] fix: what cannot be opened, mapped or started must be
 reported

---
 src/core/BaseRunner.hpp | 39 ++++++++++++++++++++++++++++++++++-----
 src/core/Exception.hpp  |  2 ++
 src/core/Grammar.cpp    |  3 +++
 src/core/Input.hpp      | 17 ++++++++++++++++-
 src/core/Util.cpp       |  8 ++++++++
 5 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index dc4adcf..1dbe8b9 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
+#include <errno.h>
 #include <stdio.h>
 #include <atomic>
 
 #include "BaseListener.hpp"
+#include "Exception.hpp"
 #include "Platform.hpp"
 
 #define ALIGN_NEXT(x, a) (((x) + (a) - 1) / (a) * (a))
@@ -143,14 +145,24 @@ public:
 #elif defined(CENTAURUS_BUILD_LINUX)
         int fd = open(filename, O_RDONLY);
 
+        if (fd == -1)
+            throw SimpleException(std::string("Failed to open ") + filename);
+
         struct stat sb;
-        fstat(fd, &sb);
+        if (fstat(fd, &sb) != 0)
+        {
+            close(fd);
+            throw SimpleException(std::string("Failed to stat ") + filename);
+        }
         m_input_size = sb.st_size;
 
         m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
 
         close(fd);
 
+        if (m_input_window == MAP_FAILED)
+            throw SimpleException(std::string("Failed to map ") + filename);
+
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
 		snprintf(m_slave_lock_name, sizeof(m_slave_lock_name), "/%s%s[%d]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, pid);
@@ -201,7 +213,8 @@ public:
 
         pthread_attr_setstacksize(&attr, STACK_SIZE);
 
-        pthread_create(&m_thread, &attr, BaseRunner::thread_runner<RunnerImpl>, this);
+        if (pthread_create(&m_thread, &attr, BaseRunner::thread_runner<RunnerImpl>, this) != 0)
+            throw SimpleException("Failed to start a thread");
 #endif
 
         clock_t end_time = clock();
@@ -247,10 +260,18 @@ protected:
     m_main_window = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, get_sub_window_size(), get_main_window_size());
 #elif defined(CENTAURUS_BUILD_LINUX)
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
-    ftruncate(fd, get_window_size());
-    m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
+    if (fd == -1)
+      throw SimpleException(std::string("Failed to open ") + m_memory_name);
+    m_sub_window = m_main_window = MAP_FAILED;
+    if (ftruncate(fd, get_window_size()) == 0) {
+      m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+      m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
+    }
     close(fd);
+    if (m_sub_window == MAP_FAILED || m_main_window == MAP_FAILED) {
+      release_memory(is_allocating);
+      throw SimpleException(std::string("Failed to map ") + m_memory_name);
+    }
 #endif
   }
   void release_memory(bool is_finalizing)
@@ -273,6 +294,10 @@ protected:
     m_slave_lock = CreateSemaphoreA(NULL, 0, m_bank_num, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
+    if (m_slave_lock == SEM_FAILED) {
+      release_memory(errno != EEXIST);
+      throw SimpleException(std::string("Failed to create ") + m_slave_lock_name);
+    }
 #endif
   }
   void open_semaphore()
@@ -281,6 +306,10 @@ protected:
     m_slave_lock = OpenSemaphoreA(SYNCHRONIZE, FALSE, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
     m_slave_lock = sem_open(m_slave_lock_name, 0);
+    if (m_slave_lock == SEM_FAILED) {
+      release_memory(false);
+      throw SimpleException(std::string("Failed to open ") + m_slave_lock_name);
+    }
 #endif
   }
   void release_semaphore() {
diff --git a/src/core/Exception.hpp b/src/core/Exception.hpp
index 3ab2ad9..ff06f9f 100644
--- a/src/core/Exception.hpp
+++ b/src/core/Exception.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <exception>
+#include <sstream>
+#include <string>
 
 namespace Centaurus
 {
diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index eb17bc3..bf2ad77 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -45,6 +45,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
     std::wifstream grammar_file(filename, std::ios::in);
 
+    if (!grammar_file.is_open())
+        throw SimpleException(std::string("Failed to open ") + filename);
+
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
 
     Stream stream(std::move(grammar_str));
diff --git a/src/core/Input.hpp b/src/core/Input.hpp
index 220a4ab..7474ae4 100644
--- a/src/core/Input.hpp
+++ b/src/core/Input.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "Exception.hpp"
+
 #if defined(CENTAURUS_BUILD_WINDOWS)
 #include <Windows.h>
 #elif defined(CENTAURUS_BUILD_LINUX)
@@ -68,13 +70,26 @@ public:
 #elif defined(CENTAURUS_BUILD_LINUX)
         fd = open(filename, O_RDONLY);
 
+        if (fd == -1)
+            throw SimpleException(std::string("Failed to open ") + filename);
+
         struct stat sb;
 
-        fstat(fd, &sb);
+        if (fstat(fd, &sb) != 0)
+        {
+            close(fd);
+            throw SimpleException(std::string("Failed to stat ") + filename);
+        }
 
         m_length = sb.st_size;
 
         m_buffer = mmap(NULL, m_length, PROT_READ, MAP_PRIVATE, fd, 0);
+
+        if (m_buffer == MAP_FAILED)
+        {
+            close(fd);
+            throw SimpleException(std::string("Failed to map ") + filename);
+        }
 #endif
     }
     virtual ~MappedFileInput()
diff --git a/src/core/Util.cpp b/src/core/Util.cpp
index a0c795a..0b0eeda 100644
--- a/src/core/Util.cpp
+++ b/src/core/Util.cpp
@@ -1,5 +1,7 @@
 #include "Util.hpp"
 
+#include "Exception.hpp"
+
 #include <fstream>
 #include <wctype.h>
 
@@ -48,12 +50,18 @@ std::string readmbsfromfile(const char *filename)
 {
 	std::ifstream ifs(filename);
 
+	if (!ifs.is_open())
+		throw SimpleException(std::string("Failed to open ") + filename);
+
 	return std::string(std::istreambuf_iterator<char>(ifs), {});
 }
 std::wstring readwcsfromfile(const char *filename)
 {
 	std::wifstream ifs(filename);
 
+	if (!ifs.is_open())
+		throw SimpleException(std::string("Failed to open ") + filename);
+
 	return std::wstring(std::istreambuf_iterator<wchar_t>(ifs), {});
 }
 void ATNPath::parse(Stream& stream)
-- 
2.43.0


From a6e5809c3d96c334181eb8294405ff7e6d669619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:13 +0000
Subject: [PATCH 27/27] fix: a Python handler could reach the values of other
 rules with a negative index

---
 src/python/centaurus/listener.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ddece13..e40595e 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -49,6 +49,10 @@ class BaseListenerAdapter(object):
     def __len__(self):
         return self.argc
     def __getitem__(self, index):
+        if index < 0:
+            index += self.argc
+        if not 0 <= index < self.argc:
+            raise IndexError('value index out of range')
         return self.values[len(self.values) - self.argc + index]
     def __iter__(self):
         return (self.values[i] for i in range(len(self.values) - self.argc, len(self.values)))
-- 
2.43.0


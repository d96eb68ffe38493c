From 7eee44a480e1ce2667f3b52c3af2a80298d00cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 01/21] fix: do not drop spacing in front of an escape when
 trimming

With trim_right and escape enabled, spacing directly followed by an escape
character lost its first character instead of the escape being removed
('a  \,b' was split into 'a \,b').
---
 include/ss/splitter.hpp | 7 ++++++-
 ssp.hpp                 | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..3b82bd0 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,8 +246,13 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
+            // only spacing was skipped, what follows is yet to be processed
+            if (end != begin) {
+                return {end - begin, false};
+            }
+
             shift_if_escaped(end);
-            return {1 + end - begin, false};
+            return {1, false};
         }
 
         end += delimiter_size(delim);
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..8aa8f72 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1301,8 +1301,13 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
+            // only spacing was skipped, what follows is yet to be processed
+            if (end != begin) {
+                return {end - begin, false};
+            }
+
             shift_if_escaped(end);
-            return {1 + end - begin, false};
+            return {1, false};
         }
 
         end += delimiter_size(delim);
-- 
2.43.0


From 688f86f47043de5340028360decb364c8a4b3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 02/21] fix: reject an escape after a closing quote

While looking for the delimiter after a closing quote an escape was
processed as if it was part of the column, so '"abc"\"def"' was accepted
as 'abc"def' instead of being reported as a mismatched quote.
---
 include/ss/splitter.hpp | 2 +-
 ssp.hpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 3b82bd0..ed8ea4a 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -251,7 +251,6 @@ private:
                 return {end - begin, false};
             }
 
-            shift_if_escaped(end);
             return {1, false};
         }
 
@@ -379,6 +378,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index 8aa8f72..e4aa6bb 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1306,7 +1306,6 @@ private:
                 return {end - begin, false};
             }
 
-            shift_if_escaped(end);
             return {1, false};
         }
 
@@ -1434,6 +1433,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From a78c0c4554c8152507b163d68a76c9e403be1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/21] fix: do not carry a quoting error over to a following
 empty line

Splitting an empty line left the error state of the previous split in
place, so an empty line read after a malformed record was reported with
that record's error (and with exceptions enabled, could be extended as
multiline).
---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..a9c1c91 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -191,6 +191,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
diff --git a/ssp.hpp b/ssp.hpp
index e4aa6bb..3a02a98 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1980,6 +1980,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
-- 
2.43.0


From 90db6729969bc94e4e5cc40d19a409567d1c5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 04/21] fix: do not convert the leftovers of a failed multiline
 record

After an unterminated or too long multiline record only the converter was
marked invalid, so or_else and or_object converted the incomplete split
data, or split data of an earlier record, and reported it as valid.
---
 include/ss/converter.hpp | 37 +++++++----------------------
 include/ss/splitter.hpp  | 14 +++++++++++
 ssp.hpp                  | 51 +++++++++++++++++-----------------------
 3 files changed, 44 insertions(+), 58 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index a9c1c91..1497e21 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -247,42 +247,21 @@ private:
         }
     }
 
+    // the splitter is also set to an invalid state, so that the incomplete
+    // line cannot be converted afterwards
     void handle_error_unterminated_escape() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_escape();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_escape();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_escape();
+        handle_error_bad_split();
     }
 
     void handle_error_unterminated_quote() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_quote();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_quote();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_quote();
+        handle_error_bad_split();
     }
 
     void handle_error_multiline_limit_reached() {
-        constexpr static auto error_msg = "multiline limit reached";
-        splitter_.unterminated_quote_ = false;
-
-        if constexpr (string_error) {
-            error_.clear();
-            error_.append(error_msg);
-        } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_multiline_limit_reached();
+        handle_error_bad_split();
     }
 
     void handle_error_invalid_conversion(const string_range msg, size_t pos) {
diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index ed8ea4a..b6d14df 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -181,6 +181,20 @@ private:
         }
     }
 
+    void handle_error_multiline_limit_reached() {
+        constexpr static auto error_msg = "multiline limit reached";
+        unterminated_quote_ = false;
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_invalid_resplit() {
         constexpr static auto error_msg =
             "invalid resplit, new line must be longer"
diff --git a/ssp.hpp b/ssp.hpp
index 3a02a98..b05de8e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1236,6 +1236,20 @@ private:
         }
     }
 
+    void handle_error_multiline_limit_reached() {
+        constexpr static auto error_msg = "multiline limit reached";
+        unterminated_quote_ = false;
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_invalid_resplit() {
         constexpr static auto error_msg =
             "invalid resplit, new line must be longer"
@@ -2036,42 +2050,21 @@ private:
         }
     }
 
+    // the splitter is also set to an invalid state, so that the incomplete
+    // line cannot be converted afterwards
     void handle_error_unterminated_escape() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_escape();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_escape();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_escape();
+        handle_error_bad_split();
     }
 
     void handle_error_unterminated_quote() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_quote();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_quote();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_quote();
+        handle_error_bad_split();
     }
 
     void handle_error_multiline_limit_reached() {
-        constexpr static auto error_msg = "multiline limit reached";
-        splitter_.unterminated_quote_ = false;
-
-        if constexpr (string_error) {
-            error_.clear();
-            error_.append(error_msg);
-        } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_multiline_limit_reached();
+        handle_error_bad_split();
     }
 
     void handle_error_invalid_conversion(const string_range msg, size_t pos) {
-- 
2.43.0


From 239378a575096c350e7e8f22610cac5476e757ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/21] fix: do not use earlier records when reading past the
 end of input

get_next on the end of the input still swapped the two converters, so
repeated reads reported errors of old records (and advanced the line
number), and or_else converted the split data of an earlier record.
---
 include/ss/converter.hpp |  7 +++++++
 include/ss/parser.hpp    | 28 ++++++++++++++--------------
 ssp.hpp                  | 35 +++++++++++++++++++++--------------
 3 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 1497e21..3705e6e 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -200,6 +200,13 @@ public:
     }
 
 private:
+    // forgets the last split line along with its errors
+    void reset() {
+        splitter_.clear_split_data();
+        splitter_.clear_error();
+        clear_error();
+    }
+
     ////////////////
     // resplit
     ////////////////
diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..b29a9ca 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -114,17 +114,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            // there is no line to be converted
+            reader_.converter_.reset();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -136,11 +141,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
diff --git a/ssp.hpp b/ssp.hpp
index b05de8e..0d6993f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2003,6 +2003,13 @@ public:
     }
 
 private:
+    // forgets the last split line along with its errors
+    void reset() {
+        splitter_.clear_split_data();
+        splitter_.clear_error();
+        clear_error();
+    }
+
     ////////////////
     // resplit
     ////////////////
@@ -2387,17 +2394,22 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            // there is no line to be converted
+            reader_.converter_.reset();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2409,11 +2421,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
-- 
2.43.0


From 2d3ed9e6eb54c76a97b8c81b4ac3a0e9e79e17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 06/21] fix: skip the header in use_fields when it follows
 ignored empty lines

With ignore_empty the header does not have to be on the first line, in
which case use_fields did not skip it and it was delivered as data.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b29a9ca..3a299c2 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -243,7 +245,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_next();
         }
     }
@@ -1058,6 +1060,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 0d6993f..5fc6c6a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2323,6 +2323,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -2340,6 +2341,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -2523,7 +2525,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_next();
         }
     }
@@ -3338,6 +3340,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 54613c890dae47c37dd56339c12509ada0cec76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 07/21] fix: report the line of the failing record when
 exceptions are enabled

The line number of the message was taken after reading ahead, which
counts the empty lines skipped because of ignore_empty.
---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3a299c2..fafb8ca 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -127,8 +127,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -149,8 +150,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -745,12 +747,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
diff --git a/ssp.hpp b/ssp.hpp
index 5fc6c6a..4f6fb19 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2407,8 +2407,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -2429,8 +2430,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -3025,12 +3027,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
-- 
2.43.0


From f767b859b30dadac6db1b3348315aa6508395198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 08/21] fix: do not return the columns converted before a
 failed one

A failed conversion returned the values of the columns in front of the
failing one, all other failures return default values only.
---
 include/ss/converter.hpp | 6 ++++++
 ssp.hpp                  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 3705e6e..cfc16c0 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -468,6 +468,12 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            // no partially converted values
+            return {};
+        }
+
         return ret;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index 4f6fb19..c78c72c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2271,6 +2271,12 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            // no partially converted values
+            return {};
+        }
+
         return ret;
     }
 
-- 
2.43.0


From 41e22becbc1da15df057a66d4ce1ac624934b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 09/21] fix: do not take an old errno for a failed allocation

errno was checked for ENOMEM on every end of input without being reset,
a value left by an earlier failure anywhere in the program made reading
throw std::bad_alloc.
---
 include/ss/common.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..c81c07f 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -131,6 +131,7 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
     } else {
@@ -139,7 +140,7 @@ using ssize_t = intptr_t;
     }
 
     if (ssize == -1) {
-        if (errno == ENOMEM) {
+        if (file && errno == ENOMEM) {
             throw std::bad_alloc{};
         }
         return {ssize, true};
diff --git a/ssp.hpp b/ssp.hpp
index c78c72c..01fc936 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -748,6 +748,7 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
     } else {
@@ -756,7 +757,7 @@ using ssize_t = intptr_t;
     }
 
     if (ssize == -1) {
-        if (errno == ENOMEM) {
+        if (file && errno == ENOMEM) {
             throw std::bad_alloc{};
         }
         return {ssize, true};
-- 
2.43.0


From edaa5716bba4e595c09e681a10416e6aa5efe6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 10/21] fix: do not move the position of a file backwards on
 end of file

The position was decremented each time the end of a file was reached.
---
 include/ss/common.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index c81c07f..565c5a8 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -133,7 +133,9 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index 01fc936..2f006c5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -750,7 +750,9 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From d8ba85bf2f63b058c3baa0ef88e6d18bc5625a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 11/21] fix: out of bounds write for floating point columns of
 64 characters

Without fast float, the terminator was written past the end of the
buffer.
---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index 2f006c5..d524273 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1604,7 +1604,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From 5c9b98235785c731581bbdfdd8bcd40874eebcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 12/21] fix: accept the same floating point columns without
 fast float

Without fast float an empty column converted to 0, and leading spacing,
a plus sign and hexadecimal numbers were accepted.
---
 include/ss/extract.hpp | 15 +++++++++++++++
 ssp.hpp                | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..54c305e 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -14,6 +14,7 @@
 #else
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstdlib>
 #endif
 
@@ -45,6 +46,20 @@ to_num(const char* const begin, const char* const end) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
+    // unlike fast float, strtof and strtod accept leading spacing, a plus
+    // sign, hexadecimal numbers, and report 0 for an empty string
+    const char* const digits = (begin != end && *begin == '-') ? begin + 1
+                                                               : begin;
+    if (digits == end || *begin == '+' ||
+        std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
+    if (end - digits > 1 && *digits == '0' &&
+        (digits[1] == 'x' || digits[1] == 'X')) {
+        return std::nullopt;
+    }
+
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
diff --git a/ssp.hpp b/ssp.hpp
index d524273..83975ca 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cerrno>
 #include <charconv>
 #include <cstdint>
@@ -1597,6 +1598,20 @@ to_num(const char* const begin, const char* const end) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
+    // unlike fast float, strtof and strtod accept leading spacing, a plus
+    // sign, hexadecimal numbers, and report 0 for an empty string
+    const char* const digits = (begin != end && *begin == '-') ? begin + 1
+                                                               : begin;
+    if (digits == end || *begin == '+' ||
+        std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
+    if (end - digits > 1 && *digits == '0' &&
+        (digits[1] == 'x' || digits[1] == 'X')) {
+        return std::nullopt;
+    }
+
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
-- 
2.43.0


From cc0144c9607c7789f1a7b8415df6c70a3444a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 13/21] fix: release the buffers and file replaced by a move
 assignment

Move assigning a parser leaked the buffers and the open file of the
parser assigned to.
---
 include/ss/parser.hpp | 13 +++++++++----
 ssp.hpp               | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index fafb8ca..9c8f86e 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -800,6 +800,7 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -829,6 +830,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -838,10 +847,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
diff --git a/ssp.hpp b/ssp.hpp
index 83975ca..af8380b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3104,6 +3104,7 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -3133,6 +3134,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -3142,10 +3151,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
-- 
2.43.0


From b6631968a9009010d0a81df42f2ddcff6592c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 14/21] fix: notice the end of input in ignore_next

eof was not updated, so after skipping the last line (or a header
without data) one more record made of old data was delivered.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 9c8f86e..c2b6da9 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -97,7 +97,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
diff --git a/ssp.hpp b/ssp.hpp
index af8380b..375f564 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2401,7 +2401,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
-- 
2.43.0


From c9a0f83e3b5b81712693038bc4eb84b0921280e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 15/21] fix: keep the buffer size if enlarging the buffer fails

The new size was stored even if the allocation failed, further reads
then wrote past the end of the buffer.
---
 include/ss/parser.hpp | 5 +++--
 ssp.hpp               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index c2b6da9..52c8575 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -999,11 +999,12 @@ private:
         void realloc_concat(char*& first, size_t& first_size,
                             size_t& buffer_size, const char* const second,
                             size_t second_size) {
-            buffer_size = first_size + second_size + 3;
+            const size_t new_size = first_size + second_size + 3;
             auto* new_first = static_cast<char*>(
-                strict_realloc(static_cast<void*>(first), buffer_size));
+                strict_realloc(static_cast<void*>(first), new_size));
 
             first = new_first;
+            buffer_size = new_size;
             std::copy_n(second, second_size + 1, first + first_size);
             first_size += second_size;
         }
diff --git a/ssp.hpp b/ssp.hpp
index 375f564..48494d4 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3303,11 +3303,12 @@ private:
         void realloc_concat(char*& first, size_t& first_size,
                             size_t& buffer_size, const char* const second,
                             size_t second_size) {
-            buffer_size = first_size + second_size + 3;
+            const size_t new_size = first_size + second_size + 3;
             auto* new_first = static_cast<char*>(
-                strict_realloc(static_cast<void*>(first), buffer_size));
+                strict_realloc(static_cast<void*>(first), new_size));
 
             first = new_first;
+            buffer_size = new_size;
             std::copy_n(second, second_size + 1, first + first_size);
             first_size += second_size;
         }
-- 
2.43.0


From 1bca58a513ea4fb6193d26b0b3319120e9f8f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 16/21] fix: do not use multiline for the header if options are
 in a setup

multiline was only removed from the options of the header when they were
listed directly, with a predefined setup (or a tuple) an unterminated
quote in the header was not reported.
---
 include/ss/parser.hpp | 17 +++++++++++++++--
 ssp.hpp               | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 52c8575..ffe7f97 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -31,8 +31,21 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    // options packed into a setup or a tuple need to be unpacked first
+    template <typename... Ts>
+    struct get_header_splitter {
+        using type = ss::splitter<
+            ss::filter_not_t<ss::is_instance_of_multiline, Ts...>>;
+    };
+
+    template <typename... Ts>
+    struct get_header_splitter<setup<Ts...>> : get_header_splitter<Ts...> {};
+
+    template <typename... Ts>
+    struct get_header_splitter<std::tuple<Ts...>>
+        : get_header_splitter<Ts...> {};
+
+    using header_splitter = typename get_header_splitter<Options...>::type;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
diff --git a/ssp.hpp b/ssp.hpp
index 48494d4..ddb08bf 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2335,8 +2335,21 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    // options packed into a setup or a tuple need to be unpacked first
+    template <typename... Ts>
+    struct get_header_splitter {
+        using type = ss::splitter<
+            ss::filter_not_t<ss::is_instance_of_multiline, Ts...>>;
+    };
+
+    template <typename... Ts>
+    struct get_header_splitter<setup<Ts...>> : get_header_splitter<Ts...> {};
+
+    template <typename... Ts>
+    struct get_header_splitter<std::tuple<Ts...>>
+        : get_header_splitter<Ts...> {};
+
+    using header_splitter = typename get_header_splitter<Options...>::type;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
-- 
2.43.0


From 99ab2ff1b34c09aa906271bd7eaa1515db6fb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 17/21] fix: forget a duplicated header before raising the
 error

---
 include/ss/parser.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index ffe7f97..fb31873 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -580,8 +580,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index ddb08bf..673fd0e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2884,8 +2884,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From 506321d569366bb041737a734febee53904fec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 18/21] fix: converter with throw_on_error forgets the columns
 of a line that failed to split

---
 include/ss/converter.hpp | 12 +++++++++++-
 ssp.hpp                  | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index cfc16c0..59d1b71 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -196,7 +196,17 @@ public:
             return splitter_.get_split_data();
         }
 
-        return splitter_.split(line, delim);
+        if constexpr (throw_on_error) {
+            try {
+                return splitter_.split(line, delim);
+            } catch (const ss::exception&) {
+                // so that the incomplete line cannot be converted afterwards
+                splitter_.clear_split_data();
+                throw;
+            }
+        } else {
+            return splitter_.split(line, delim);
+        }
     }
 
 private:
diff --git a/ssp.hpp b/ssp.hpp
index 673fd0e..198cc25 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2017,7 +2017,17 @@ public:
             return splitter_.get_split_data();
         }
 
-        return splitter_.split(line, delim);
+        if constexpr (throw_on_error) {
+            try {
+                return splitter_.split(line, delim);
+            } catch (const ss::exception&) {
+                // so that the incomplete line cannot be converted afterwards
+                splitter_.clear_split_data();
+                throw;
+            }
+        } else {
+            return splitter_.split(line, delim);
+        }
     }
 
 private:
-- 
2.43.0


From 5a48d8a2e5da354bef9cd656f9e05837637204de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 19/21] fix: a read interrupted by an exception is not repeated
 on leftover data

---
 include/ss/parser.hpp | 22 ++++++++++++++++++++++
 ssp.hpp               | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index fb31873..704c32e 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -139,6 +139,9 @@ public:
             return {};
         }
 
+        // if parsing gets interrupted there is no line to continue with
+        eof_ = true;
+
         if constexpr (throw_on_error) {
             try {
                 reader_.parse();
@@ -151,6 +154,23 @@ public:
             reader_.parse();
         }
 
+        eof_ = false;
+        const auto line_number = reader_.line_number_;
+
+        try {
+            return convert_line<T, Ts...>();
+        } catch (...) {
+            // the line is not to be converted again
+            if (reader_.line_number_ == line_number) {
+                read_line();
+            }
+            throw;
+        }
+    }
+
+private:
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_line() {
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -182,6 +202,7 @@ public:
         return value;
     }
 
+public:
     [[nodiscard]] std::string raw_header() const {
         assert_ignore_header_not_defined();
         return raw_header_;
@@ -778,6 +799,7 @@ private:
     ////////////////
 
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index 198cc25..c010cc9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2453,6 +2453,9 @@ public:
             return {};
         }
 
+        // if parsing gets interrupted there is no line to continue with
+        eof_ = true;
+
         if constexpr (throw_on_error) {
             try {
                 reader_.parse();
@@ -2465,6 +2468,23 @@ public:
             reader_.parse();
         }
 
+        eof_ = false;
+        const auto line_number = reader_.line_number_;
+
+        try {
+            return convert_line<T, Ts...>();
+        } catch (...) {
+            // the line is not to be converted again
+            if (reader_.line_number_ == line_number) {
+                read_line();
+            }
+            throw;
+        }
+    }
+
+private:
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_line() {
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -2496,6 +2516,7 @@ public:
         return value;
     }
 
+public:
     [[nodiscard]] std::string raw_header() const {
         assert_ignore_header_not_defined();
         return raw_header_;
@@ -3092,6 +3113,7 @@ private:
     ////////////////
 
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
-- 
2.43.0


From cf0e3dc921531c58bf1b54cb229a4d3ad772120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 20/21] fix: extract of a character read past the end of an
 empty range

---
 include/ss/extract.hpp | 6 +++++-
 ssp.hpp                | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 54c305e..322b8a4 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -258,8 +258,12 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
diff --git a/ssp.hpp b/ssp.hpp
index c010cc9..d37015a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1810,8 +1810,12 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
-- 
2.43.0


From 3d7c13c9ab83bce846e0f169d843d6535bf9be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:43 +0000
Subject: [PATCH 21/21] fix: line reader of non-unix platforms read out of
 bounds, lost lines and was quadratic

A line that starts with a null character made get_line_file read
lineptr[-1] and drop the line; null characters in a line cut it off.
Every chunk also called strlen on the whole line read so far.
---
 include/ss/common.hpp | 30 +++++++++++-------------------
 ssp.hpp               | 30 +++++++++++-------------------
 2 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 565c5a8..091577d 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -6,7 +6,6 @@
 #include <vector>
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -52,37 +51,30 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // the line may contain null characters, fgets cannot be used
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    int c = 0;
+    while ((c = std::fgetc(file)) != EOF) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
-    return (line_used != 0) ? line_used : -1;
+    lineptr[line_used] = '\0';
+    return (line_used != 0) ? static_cast<ssize_t>(line_used) : -1;
 }
 
 #endif
diff --git a/ssp.hpp b/ssp.hpp
index d37015a..75e3327 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -624,7 +624,6 @@ struct ne {
 } /* namespace ss */
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -670,37 +669,30 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // the line may contain null characters, fgets cannot be used
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    int c = 0;
+    while ((c = std::fgetc(file)) != EOF) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
-    return (line_used != 0) ? line_used : -1;
+    lineptr[line_used] = '\0';
+    return (line_used != 0) ? static_cast<ssize_t>(line_used) : -1;
 }
 
 #endif
-- 
2.43.0


From 51bc6182c345695740b380aa362839b1f463c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:24 +0000
Subject: [PATCH 01/74] fix: do not skip or emit a whole FITS record when
 already on a record boundary

fits_stream::find_unit_end() advanced by a full 2880 byte record when the
position was already a multiple of 2880. Files whose header or data fill
their last record exactly were misread (the following HDU was skipped), and
writers appended a spurious blank record that the reader then tried to parse
as a header (e.g. a primary HDU without data).
---
 include/boost/astronomy/io/fits_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..8aca724 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,8 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            // A position on a record boundary already is the end of a record
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From e976630baedb783daa108a14775829138053870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:36 +0000
Subject: [PATCH 02/74] fix: report the end of the file instead of inventing
 blank bytes

fits_stream::read() returned blanks for bytes that are not in the file. A file
truncated before the END card made header::read_header() append blank cards
for ever (until memory ran out), and truncated data was silently replaced with
blanks.
---
 include/boost/astronomy/io/fits_stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 8aca724..ba6a659 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -107,10 +107,14 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
+         * @throws file_reading_exception if the file ends before num_bytes could be read
         */
         std::string read(std::size_t num_bytes) {
             std::string data(num_bytes, ' ');
             this->file.read(&data[0], num_bytes);
+            if (static_cast<std::size_t>(this->file.gcount()) != num_bytes) {
+                throw file_reading_exception("Unexpected End Of File");
+            }
             return data;
         }
 
-- 
2.43.0


From bb5aabd18262e5b99847326c4a7f1928a4332b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 03/74] fix: header::naxis() read out of bounds for a dimension
 that does not exist

naxis() without an argument, and any n greater than NAXIS, indexed the vector
of dimensions out of bounds. Report std::out_of_range as the other lookups do.
---
 include/boost/astronomy/io/header.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..f81daaa 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -194,10 +194,11 @@ public:
     /**
      * @brief       Gets the number of elements for a perticular dimension in HDU data
      * @return      Returns a std::size_t containing the number of elements in a perticular dimension
+     * @throws      std::out_of_range If there is no such dimension
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
-- 
2.43.0


From 4e2873ad85a83d6b9d7e9a39205cf316e0fa2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 04/74] fix: header::read_header() appended to the cards of an
 earlier read

Reading a second header into the same object kept the cards, keywords and
dimensions of the first one, so card_count(), naxis() and data_size() described
a mixture of both.
---
 include/boost/astronomy/io/header.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index f81daaa..0a8ab69 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -71,6 +71,12 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        //forget what an earlier read has stored
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
+        hdu_name.clear();
+
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
-- 
2.43.0


From a8d1e8e876d597503e045aed7c9bf82d7b1f99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 05/74] fix: header equality depended on whether get_hdu_name()
 had been called

The name is a cache of the XTENSION card, filled by get_hdu_name(); two headers
with the same cards compared unequal after asking only one of them for its name.
---
 include/boost/astronomy/io/header.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 0a8ab69..7101a95 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -59,7 +59,6 @@ public:
    bool operator == (const header& other) {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
-- 
2.43.0


From 7f4dc48a36a6002119c1156f8291731b88d08954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 06/74] fix: card::value() returned the value of the card's
 earlier content

The value cache survived create_card() and create_commentary_card(), so a card
object that was reused kept answering with its old value. Asking a card for its
value as a second type threw boost::bad_get instead of converting it.
---
 include/boost/astronomy/io/card.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..1e64c08 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -122,6 +122,7 @@ public:
             std::string card_content = key + "  " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
+            card_cache = cache();
             return;
         }
 
@@ -151,8 +152,8 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
-            card_cache =value_imp(boost::type<ReturnType>());
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
+            card_cache = value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
     }
@@ -190,12 +191,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
@@ -211,6 +206,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            card_cache = cache();
             return;
         }
 
-- 
2.43.0


From ce317e345b963663a67a5f1338d68b20e46eb9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 07/74] fix: card::set_value() left a card image that is not a
 FITS card

The value indicator in columns 9-10 and the padding to 80 columns were missing,
so a header that contained the card could not be read back after writing it. A
value too long for the card was ignored silently; report invalid_card, as
create_card() does.
---
 include/boost/astronomy/io/card.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 1e64c08..9cbeea1 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -177,12 +177,11 @@ public:
         std::string serialized_value = this->serialize_to_fits_format(value);
 
         if (this->is_card_valid(this->keyword(), serialized_value, "")) { 
-            std::string key = this->keyword(true);
-            this->card_.clear();
-            this->card_.append(key);
-            this->card_.append(serialized_value);
-            card_cache = value;
+            create_card_impl(this->keyword(), serialized_value);
+            return;
         }
+
+        throw invalid_card();
     }
 
     /**
-- 
2.43.0


From 364d4897ed4309b584d06e0bbfd8817bc8a50a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 08/74] fix: commentary cards with a keyword shorter than seven
 characters were malformed

create_commentary_card() did not pad the keyword to its eight columns, so the
text of e.g. a blank card ran into the keyword field. A text that does not fit
raised std::length_error from inside std::string; report invalid_card.
---
 include/boost/astronomy/io/card.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 9cbeea1..f6d681a 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -118,8 +118,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        std::string card_content = this->is_key_valid(key) ? this->format_keyword(key) + " " + value : "";
+        if (!card_content.empty() && card_content.length() <= 80) {
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
             card_cache = cache();
-- 
2.43.0


From 5f93c03e5e4b92f5ce3c12e51e8983449324edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 09/74] fix: card validation threw std::out_of_range for
 strings shorter than eight characters

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..8c4f406 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -230,7 +230,7 @@ private:
      * @brief Checks whether the card follows the standard specification for cards with non reserved keywords
     */
     bool in_proper_format(const std::string& fits_card)const {
-        return fits_card.substr(8, 2) == "= ";
+        return fits_card.length() >= 10 && fits_card.compare(8, 2, "= ") == 0;
     }
 
     /**
-- 
2.43.0


From 54707ddf171034685afc03e37fafc758f009f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 10/74] fix: a slash inside a string value or a commentary text
 was taken for the comment

'm/s' was read as 'm, the text of COMMENT and HISTORY cards was cut at its first
slash, and the last character of a value directly followed by the slash was
dropped.
---
 include/boost/astronomy/io/default_card_policy.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 8c4f406..8040fc9 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -214,7 +214,19 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        // Commentary cards have no value indicator, and no comment part either
+        if (!in_proper_format(fits_card)) { return fits_card.substr(9); }
+
+        // The comment starts at the first slash that is not part of a quoted string
+        bool in_quotes = false;
+        for (std::size_t pos = 10; pos < fits_card.length(); pos++) {
+            if (fits_card[pos] == '\'') { in_quotes = !in_quotes; }
+            else if (fits_card[pos] == '/' && !in_quotes) {
+                std::size_t value_end = fits_card[pos - 1] == ' ' ? pos - 1 : pos;
+                return fits_card.substr(9, value_end - 9);
+            }
+        }
+        return fits_card.substr(9);
     }
 
 private:
-- 
2.43.0


From 23b3cb302257a83b24abb6c7c38c459c8e11c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 11/74] fix: quotes inside string values were neither doubled
 nor undoubled

FITS writes a quote inside a string value as two quotes. Creating a card from
"O'HARA" produced an unterminated string, and reading 'O''HARA' gave O''HARA.
A value that consists of a single quote constructed a string from an inverted
range, and a commentary text that starts with a quote lost its first and last
characters.
---
 include/boost/astronomy/io/card.hpp           | 20 +++++++++++++++++--
 .../astronomy/io/default_card_policy.hpp      |  5 ++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index f6d681a..54fa87a 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -224,14 +224,30 @@ private:
         return this->template parse_to<ReturnType>(val);
     }
 
+    /**
+     * @brief Returns the content of a quoted string value
+     * @param[in] value String value that starts with a quote
+    */
+    std::string remove_quotes(const std::string& value) const {
+        std::string content;
+        for (std::size_t pos = 1; pos < value.length(); pos++) {
+            if (value[pos] == '\'') {
+                if (pos + 1 >= value.length() || value[pos + 1] != '\'') { break; } // closing quote
+                pos++;
+            }
+            content += value[pos];
+        }
+        return content;
+    }
+
     /**
      * @brief   Returns the value associated with the card in string type
      * @return  string value
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val[0] == '\'') {
-            return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
+        if (val[0] == '\'' && this->card_.compare(8, 2, "= ") == 0) {
+            return boost::algorithm::trim_copy(remove_quotes(val));
         }
         else {
             return val;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 8040fc9..f738c75 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -160,7 +160,10 @@ public:
     std::string serialize_to_fits_format(const std::string& value) const {
         std::string generated_string="";
         generated_string += '\'';
-        generated_string += value;
+        for (char character : value) {
+            generated_string += character;
+            if (character == '\'') { generated_string += '\''; } // a quote is written as two quotes
+        }
         generated_string += '\'';
         return generated_string;
     }
-- 
2.43.0


From 9e42e055cfcead17b23ba34cdf698d559f9d7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:15 +0000
Subject: [PATCH 12/74] fix: floating point card values lost all but six
 significant digits

serialize_to_fits_format() used the default stream precision. Write the digits
that are needed to read the same value back (values that need no more than six
digits look as before). A text of more than 20 characters made the padding
length wrap around; longer values are now written in free format.
---
 .../astronomy/io/default_card_policy.hpp      | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index f738c75..e10c4f2 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -14,6 +14,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <algorithm>
 #include <sstream>
 #include <complex>
+#include <limits>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/astronomy/io/string_conversion_utility.hpp>
@@ -143,13 +145,9 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(T value) const {
-        std::string val;
+        std::string val = to_text(value, std::is_floating_point<T>());
 
-        std::stringstream value_stream;
-        value_stream << value;
-        val = value_stream.str();
-
-        val.insert(0, 20 - val.length(), ' ');
+        if (val.length() < 20) { val.insert(0, 20 - val.length(), ' '); }
         return val;
     }
 
@@ -234,6 +232,34 @@ public:
 
 private:
 
+    /**
+     * @brief Returns the text form of a value
+    */
+    template<typename T>
+    std::string to_text(const T& value, std::false_type) const {
+        std::stringstream value_stream;
+        value_stream << value;
+        return value_stream.str();
+    }
+
+    /**
+     * @brief Returns the shortest text form of a floating point value that is read back as the same value
+    */
+    template<typename T>
+    std::string to_text(const T& value, std::true_type) const {
+        std::string val;
+        for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; digits++) {
+            std::stringstream value_stream;
+            value_stream.precision(digits);
+            value_stream << value;
+            val = value_stream.str();
+
+            T parsed;
+            if (boost::conversion::try_lexical_convert(val, parsed) && parsed == value) { break; }
+        }
+        return val;
+    }
+
     /**
      * @brief Checks whether the keyword is in list of reserved keywords
     */
-- 
2.43.0


From b2bf4a3d25f6fb697d1bc9d54a5210008813746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:15 +0000
Subject: [PATCH 13/74] fix: complex card values could not be read back

The two parts are right justified in 20 columns each, but the parser accepted a
single separating blank only. Parts that fill their 20 columns were written
without any separator.
---
 include/boost/astronomy/io/default_card_policy.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index e10c4f2..a83a0da 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -132,7 +132,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
@@ -191,7 +191,9 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(std::complex<T> value)const {
-        return serialize_to_fits_format(value.real())+ serialize_to_fits_format(value.imag());        
+        std::string real_part = serialize_to_fits_format(value.real());
+        std::string imag_part = serialize_to_fits_format(value.imag());
+        return real_part + (imag_part[0] == ' ' ? "" : " ") + imag_part;
     }
 
     /**
-- 
2.43.0


From f13b029be6bbb5dc13d602d993e92b488fefd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:15 +0000
Subject: [PATCH 14/74] fix: string literals were written to cards without
 quotes

create_card("AUTHOR", "Acker") chose the template for numbers and produced an
unquoted value, which is not a FITS string.
---
 include/boost/astronomy/io/default_card_policy.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index a83a0da..f0dcb8d 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -166,6 +166,13 @@ public:
         return generated_string;
     }
 
+    /**
+     * @brief Overloaded case for string literals
+    */
+    std::string serialize_to_fits_format(const char* value) const {
+        return serialize_to_fits_format(std::string(value));
+    }
+
     /**
      * @brief Serializes a boolean to string and pads it according to requirements in FITS standard
      * @param[in] value Boolean value to serialize to
-- 
2.43.0


From 1e559fe1e6738881557266771a6a89ffec3843d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:15 +0000
Subject: [PATCH 15/74] fix: floating point numbers with a D exponent could not
 be read

The FITS standard allows 1.5D+10 in header cards and in ASCII table fields
(it is the usual form in Dw.d columns); they were rejected with invalid_cast.
---
 .../astronomy/io/string_conversion_utility.hpp    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..6f487a0 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -8,8 +8,11 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 #define BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 
+#include <algorithm>
 #include <sstream>
+#include <string>
 #include <limits>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -34,7 +37,7 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
-                return boost::lexical_cast<T>(convert_str);
+                return boost::lexical_cast<T>(with_known_exponent(convert_str, std::is_floating_point<T>()));
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
@@ -60,6 +63,16 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+    private:
+        /**
+         * @brief FITS allows the exponent of a floating point number to be written with a D
+        */
+        static std::string with_known_exponent(std::string number, std::true_type) {
+            std::replace(number.begin(), number.end(), 'D', 'E');
+            return number;
+        }
+
+        static const std::string& with_known_exponent(const std::string& text, std::false_type) { return text; }
     };
 
 
-- 
2.43.0


From ea79dfe1da3ff7f173ad7a3494a5a9c944882e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 16/74] fix: binary table fields were trimmed like text

set_table_data() removed leading and trailing bytes that are white space
characters (0x20, 0x09-0x0d) from every field. Numbers that contain such bytes
were decoded from a too short string (reading behind its end), and write_to()
wrote shifted rows. A row narrower than its columns, or TFIELDS = 0, made the
loop read outside of the data buffer or divide by zero; report the invalid
format instead.
---
 include/boost/astronomy/io/binary_table.hpp | 27 ++++++++-------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..2ab3ae1 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -328,24 +328,17 @@ private:
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-        auto current_row = 0;
-        auto current_column = 0;
-
-
-        auto starting_offset = data_buffer.begin();
-        auto ending_offset = starting_offset;
-
-        while (current_row<total_rows) {
-
-            starting_offset = ending_offset;
-            ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
-
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+        // Fields are raw bytes: a byte that happens to be a white space character belongs to the data
+        for (std::size_t row = 0; row < total_rows; row++) {
+            for (std::size_t col = 0; col < total_fields; col++) {
+                std::size_t starting_offset = row * total_characters_per_row + this->col_metadata_[col].TBCOL();
+                std::size_t field_size = column_size(this->col_metadata_[col].TFORM());
+
+                if (starting_offset > data_buffer.size() || field_size > data_buffer.size() - starting_offset) {
+                    throw invalid_table_colum_format();
+                }
+                this->tb_data[row][col] = data_buffer.substr(starting_offset, field_size);
             }
-
         }
     }
 };
-- 
2.43.0


From 474a07f6278d5aed19d5ea47f58d91b230dbe95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 17/74] fix: consecutive array descriptors of a binary table
 field were read overlapping

Pair i of a vector of pairs consists of the integers 2i and 2i+1, not i and i+1.
---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 225e96b6ba60b9f378a0522a492cb54a59f871a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 18/74] fix: constant and temporary complex numbers could not
 be serialized

serialize(std::complex<T>&) binds to non-const lvalues only, everything else
chose the generic overload, which does not compile for complex numbers.
---
 include/boost/astronomy/io/binary_data_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index d2829ae..afd43a9 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -229,7 +229,7 @@ namespace boost{namespace astronomy{namespace io{
          * @brief Overloaded case for Complex Numbers
         */
         template<typename T>
-        static std::string serialize(std::complex<T>&data) {
+        static std::string serialize(const std::complex<T>& data) {
             T real_part = data.real();
             T imag_part = data.imag();
             return serialize(real_part) + serialize(imag_part);
-- 
2.43.0


From 86e26a685da9c0f998c967535dc3e1aeff272dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 19/74] fix: 8 bit images were read as all zeros

The pixel type of BITPIX = 8 was int8_t, for which the converter has no
deserialization, so its default (zero) was used for every pixel. FITS defines
8 bit pixels as unsigned, and the converter supports uint8_t.
---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..beb2c95 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type; // 8 bit FITS data is unsigned
  };
 
  template<>
-- 
2.43.0


From 6c9ab3863c245770068904835ce106176a90a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 20/74] fix: bit array columns of binary tables were given
 eight times their size

An rX field has r bits, packed into (r + 7) / 8 bytes. Taking r bytes shifted
every following field of the table.
---
 include/boost/astronomy/io/binary_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 2ab3ae1..1437ebc 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -158,6 +158,7 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
+        if (get_type(form) == 'X') { return (no_of_elements + 7) / 8; } // bits, padded to whole bytes
         auto size_type = type_size(get_type(form));
         return no_of_elements * size_type;
     }
@@ -299,7 +300,12 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(element_count(this->col_metadata_[i].TFORM()));
+            // Bit arrays are accessed as the bytes they are packed into
+            this->col_metadata_[i].total_elements(
+                get_type(this->col_metadata_[i].TFORM()) == 'X' ?
+                column_size(this->col_metadata_[i].TFORM()) :
+                element_count(this->col_metadata_[i].TFORM())
+            );
         }
     }
 
-- 
2.43.0


From 31aaaa49e6ab7c32d7f14c8b04a7c498dd9f8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 21/74] fix: ASCII tables were written without the gaps between
 their columns

write_to() concatenated the fields of a row, ignoring the column positions
(TBCOL) and the row length (NAXIS1), so that a table with separating blanks
between its columns came back shifted. A value wider than its field made the
padding length wrap around; report column_exception.
---
 include/boost/astronomy/io/ascii_table.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..9ee197b 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,15 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
-                std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
-                std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                const std::string& field = this->tb_data[row][col];
+                std::size_t field_size = this->column_size(this->col_metadata_[col].TFORM());
+                if (field.length() > field_size) { throw column_exception(); }
+
+                // The field occupies field_size characters from TBCOL on, its value is right justified
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1 + field_size - field.length(), field.length(), field);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From e5a4e8f003a0b811861a373229d0807f14ad8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 22/74] fix: ASCII table columns outside of their row were read
 out of bounds

A TBCOL/TFORM pair that does not lie within NAXIS1 (or TBCOL = 0, or
TFIELDS = 0) made set_table_data() read outside of the data buffer or divide by
zero. Report the invalid column format.
---
 include/boost/astronomy/io/ascii_table.hpp | 25 +++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 9ee197b..a36d8cb 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -249,20 +249,19 @@ private:
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-        auto current_row = 0;
-        auto current_column = 0;
-
-        while(current_row< total_rows) {
-            auto starting_offset = data_buffer.begin()+ current_row * total_characters_per_row + this->col_metadata_[current_column].TBCOL() - 1;
-            auto ending_offset = starting_offset + this->column_size(this->col_metadata_[current_column].TFORM());
-
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
-
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+        for (std::size_t row = 0; row < total_rows; row++) {
+            for (std::size_t col = 0; col < total_fields; col++) {
+                std::size_t column_start = this->col_metadata_[col].TBCOL();
+                std::size_t field_size = this->column_size(this->col_metadata_[col].TFORM());
+                std::size_t starting_offset = row * total_characters_per_row + column_start - 1;
+
+                if (column_start < 1 || column_start > total_characters_per_row ||
+                    field_size > total_characters_per_row - (column_start - 1) ||
+                    field_size > data_buffer.size() || starting_offset > data_buffer.size() - field_size) {
+                    throw invalid_table_colum_format();
+                }
+                this->tb_data[row][col] = boost::algorithm::trim_copy(data_buffer.substr(starting_offset, field_size));
             }
-
         }
     }
 };
-- 
2.43.0


From c4d38eeb5aee21e2071404c87fd29623406cdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 23/74] fix: pixel access of images read from a file used an
 uninitialized width

image_buffer::operator() computes the position of a pixel from the image width,
which read_image() never set.
---
 include/boost/astronomy/io/image.hpp           | 14 +++++++++-----
 include/boost/astronomy/io/image_extension.hpp |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp     |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..ed52d56 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -50,7 +50,7 @@ public:
     /**
      * @brief       Constructs an standalone object of image_buffer
     */
-    image_buffer() {}
+    image_buffer() : width_(0), height_(0) {}
 
     /**
      * @brief       Constructs an image_buffer object by allocating width*height space for buffer
@@ -164,10 +164,12 @@ struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    std::size_t width; //! number of pixels in a row of the image
+
+    read_image_visitor(const std::string& data_buf, std::size_t row_width = 0) :data_buffer(data_buf), width(row_width) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) { type.read_image(data_buffer, width); }
 };
 
 /**
@@ -194,8 +196,9 @@ public:
     /**
      * @brief Reads an image from the data buffer
      * @param[in] data_buffer Data associated with image HDU or primary HDU
+     * @param[in] width Number of pixels in a row of the image (NAXIS1)
     */
-    void read_image(const std::string& data_buffer) {
+    void read_image(const std::string& data_buffer, std::size_t width = 0) {
 
         if (data_buffer.empty()) { return; }
 
@@ -203,7 +206,8 @@ public:
         std::string::const_iterator raw_data_iter=data_buffer.begin();
 
         this->data_.resize(data_buffer.size() / element_size);
-
+        this->width_ = width;
+        this->height_ = width == 0 ? 0 : this->data_.size() / width;
 
         for (auto& element : this->data_) {
             std::string data(raw_data_iter, raw_data_iter + element_size);
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..d39b8ca 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.total_dimensions() == 0 ? 0 : this->hdu_header.naxis(1));
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..a73351a 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.total_dimensions() == 0 ? 0 : hdu_header.naxis(1));
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 36a3aae0502681e8586177669e0d9562066c1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 24/74] fix: the last record of image and binary table data was
 filled with blanks

FITS requires zero fill for everything but headers and ASCII tables.
---
 include/boost/astronomy/io/binary_table.hpp    | 2 +-
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 1437ebc..b96b0b3 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -134,7 +134,7 @@ public:
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
     /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index d39b8ca..a641372 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -85,7 +85,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 private:
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index a73351a..d297ff8 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -94,7 +94,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 
-- 
2.43.0


From 2baefe92de45df996ad02a83de54c25bf3b26bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 25/74] fix: column views returned values the table no longer
 held

A view kept every value it had decoded, so it did not see later changes made by
set_data(), through get_data() or through another view of the same column.
---
 include/boost/astronomy/io/column_data.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f14f387..bfb8852 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -46,7 +46,7 @@ public:
     operator DataType () const  { return value; }
 
     /**
-     * @brief Updates the value of field both in cache and main table structure
+     * @brief Updates the value of field in the main table structure
      * @param[in] value Replacement value for the old value
     */
     DataType operator = (DataType value)  {
@@ -64,7 +64,6 @@ template<typename DataType,typename Converter>
 struct column_view:column{
 private:
     std::vector<std::vector<std::string>>* table_ref;
-    std::unordered_map<int, DataType> cached_index;
 public:
     /**
      * @brief Default constructor for storage
@@ -145,7 +144,6 @@ public:
      * @brief Updates the element at perticular row of the associated column in HDU table
     */
     void update_value(int row, DataType new_value){
-        cached_index[row] = new_value;
         (*table_ref)[row][this->index()-1] = Converter::serialize(new_value);
     }
 
@@ -155,15 +153,10 @@ public:
    */
     Proxy<DataType,Converter> operator [](int row_number) {
 
-        auto cached_iter = cached_index.find(row_number);
-        
-        if (cached_iter != cached_index.end()) {
-            return Proxy<DataType,Converter>(cached_iter->second, this,row_number);
-        }
-
-        auto raw_data_str = (*table_ref)[row_number][this->index()-1];
-        cached_index.emplace(row_number, Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()));
-        return Proxy<DataType,Converter>(cached_index.find(row_number)->second, this,row_number);
+        // The table may have been changed by set_data(), get_data() or another view: always ask it
+        const auto& raw_data_str = (*table_ref)[row_number][this->index()-1];
+        return Proxy<DataType,Converter>(
+            Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()), this,row_number);
     }
 
 };
-- 
2.43.0


From 6b42fc98db5d86c0ea9bfa6476ae85482ba363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 26/74] fix: columns of a copied table referred to the table it
 was copied from

The cached column views hold a pointer to the data of their table. Copying a
table (get_hdu_list(), assigning an HDU) copied the views along, so reads and
edits of the copy went to the original, or to freed memory once the original
was gone.
---
 include/boost/astronomy/io/ascii_table.hpp  | 11 +++++++++++
 include/boost/astronomy/io/binary_table.hpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index a36d8cb..bffa843 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,17 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief       Copies the table. The cached views refer to the other table, they are not copied
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_ascii_table& operator = (basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b96b0b3..0bd917c 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -79,6 +79,17 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief       Copies the table. The cached views refer to the other table, they are not copied
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+
+    basic_binary_table_extension& operator = (basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
-- 
2.43.0


From 0fd8ce0b7658ecb3a252fcd5d693b8fd5f5248df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 27/74] fix: fits_io::initialize() kept the HDUs of the
 previous file

After opening a second file with the same object, positions and names referred
to a list that still started with the HDUs of the first file.
---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..896b419 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -80,6 +80,7 @@ namespace boost { namespace astronomy { namespace io {
         */
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
+            hdu_list.clear();
             hdus_control_block.clear();
             hdus_control_block.filepath = filepath;
         }
-- 
2.43.0


From 7c642c149679486d0b556546aa1e143b82357317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 28/74] fix: files without the optional EXTEND and EXTNAME
 cards could not be opened

Both keywords are optional in FITS; reading such a file failed with
std::out_of_range.
---
 include/boost/astronomy/io/extension_hdu.hpp | 6 +++++-
 include/boost/astronomy/io/primary_hdu.hpp   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..a984da7 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,11 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+
+        // EXTNAME is optional
+        if (hdu_header.contains_keyword("EXTNAME")) {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index d297ff8..a7fffe2 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -125,7 +125,8 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        // EXTEND is optional
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From 6f88ddaecb4f1eb643315bd254f128b7531ca189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:00 +0000
Subject: [PATCH 29/74] fix: TSCAL and TZERO of columns that do not define them
 were uninitialized

Use the values FITS defines as their defaults.
---
 include/boost/astronomy/io/column.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..6b1efb1 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,7 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column() : index_(-1), start(-1), scale(1), zero(0), total_elem_field(0) {}
 
     /**
      * @details     Constructs a column object and sets the value for
-- 
2.43.0


From aa39bee6742bd884c46bdbb85e135e5c1e066a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 30/74] fix: text columns of ASCII tables could not be written

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 6f487a0..5aef1cc 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -14,6 +14,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <limits>
 #include <type_traits>
 #include <boost/lexical_cast.hpp>
+#include <boost/hana/bool.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 
@@ -52,8 +53,8 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static std::string serialize(T value) {
             return
-                boost::hana::eval_if(std::numeric_limits<T>::is_integer,
-                    [&value] {return std::to_string(value); },
+                boost::hana::eval_if(boost::hana::bool_c<std::numeric_limits<T>::is_integer>,
+                    [&value](auto _) {return std::to_string(_(value)); },
                     [&value](auto _) {
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
-- 
2.43.0


From cf557154edf2ac7d9ac3983b63f425f729eb68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 31/74] fix: the first character of commentary text in column 9
 was lost

---
 include/boost/astronomy/io/card.hpp                | 2 +-
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 54fa87a..c19ef3d 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -164,7 +164,7 @@ public:
     */
     std::string value_with_comment() const
     {
-        return boost::algorithm::trim_copy(this->card_.substr(10));
+        return boost::algorithm::trim_copy(this->card_.substr(this->card_.compare(8, 2, "= ") == 0 ? 10 : 8));
     }
 
     /**
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index f0dcb8d..4269261 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -225,7 +225,7 @@ public:
     */
     std::string extract_value(const std::string& fits_card) const {
         // Commentary cards have no value indicator, and no comment part either
-        if (!in_proper_format(fits_card)) { return fits_card.substr(9); }
+        if (!in_proper_format(fits_card)) { return fits_card.substr(8); }
 
         // The comment starts at the first slash that is not part of a quoted string
         bool in_quotes = false;
-- 
2.43.0


From 7d20e2a34b02bf69cd0ad0a1d22f96ac093276ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 32/74] fix: missing BITPIX, NAXIS and NAXISn cards were
 replaced by the first card of the header

---
 include/boost/astronomy/io/header.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 7101a95..cc3b8fc 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -97,7 +97,7 @@ public:
         }
         //finding and storing bitpix value
 
-        switch (cards[key_index["BITPIX"]]. template value<int>())
+        switch (cards[key_index.at("BITPIX")]. template value<int>())
         {
         case 8:
             this->bitpix_value = io::bitpix::B8;
@@ -120,13 +120,13 @@ public:
         }
 
         //setting naxis values
-        std::size_t total_dimensions = cards[key_index["NAXIS"]].template value<std::size_t>();
+        std::size_t total_dimensions = cards[key_index.at("NAXIS")].template value<std::size_t>();
         naxis_.reserve(total_dimensions);
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-            naxis_.emplace_back(cards[key_index["NAXIS" +
-                boost::lexical_cast<std::string>(i)]].template value<std::size_t>());
+            naxis_.emplace_back(cards[key_index.at("NAXIS" +
+                boost::lexical_cast<std::string>(i))].template value<std::size_t>());
         }
 
     }
-- 
2.43.0


From 4f1241e3069c44b65a5fae814a2f45245c26c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 33/74] fix: testing a stream for its end twice made it
 unusable

---
 include/boost/astronomy/io/fits_stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index ba6a659..06da53c 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -123,7 +123,10 @@ namespace boost {namespace astronomy {namespace io {
         */
         bool at_end() {
 
-            return (this->file.peek(), this->file.eof());
+            bool ended = (this->file.peek(), this->file.eof());
+            //The test itself should not make the stream unusable
+            if (ended && !this->file.fail()) { this->file.clear(); }
+            return ended;
         }
 
         /**
-- 
2.43.0


From f3b8414c627907949f56f524144161e8bb90b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:02 +0000
Subject: [PATCH 34/74] fix: a stream could not be repositioned after a read
 beyond its end

---
 include/boost/astronomy/io/fits_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 06da53c..ca1c0e1 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -62,6 +62,7 @@ namespace boost {namespace astronomy {namespace io {
          * @param[in] position The position to be set for reading
         */
         void set_reading_pos(std::size_t position) {
+            this->file.clear();
             this->file.seekg(position);
         }
 
-- 
2.43.0


From 8812ff09f3d814ec08fc3f23b4c834dbdb940519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:02 +0000
Subject: [PATCH 35/74] fix: an empty TFORM of a binary table was read out of
 bounds

---
 include/boost/astronomy/io/binary_table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 0bd917c..a235303 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -202,6 +202,7 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
+        if (form.empty()) { throw invalid_table_colum_format(); }
         return form[form.length() - 1];
     }
 
-- 
2.43.0


From 59f3bc4c3472e3be79ca7c5da5f0e08f08b5dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 36/74] fix: the last days of the Julian calendar were counted
 as Gregorian

The reform took effect on 1582 October 15; 2 to 4 October 1582 are dates of
the Julian calendar, and their Julian date was ten days off.
---
 include/boost/astronomy/time/time_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..07f1fb9 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -56,8 +56,8 @@ double julian_date(boost::posix_time::ptime t)
 
     //Calculate B, check if the date is later than 1582 October 15
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
-    if ( dt > dt1 )
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 15);
+    if ( dt >= dt1 )
     {
         double A = floor(yprime / 100);
         B = 2 - A + floor(A / 4);
-- 
2.43.0


From bd3b150a5627d450ff7122c4d0e450fc1a4b431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 37/74] fix: sidereal time ignored fractions of a second

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 07f1fb9..d628bb6 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From 8cc9e1115beffb3ddb13f4cabe3c1cd2cb1fffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 38/74] fix: a decimal hour made of hours, minutes and seconds
 reported none of them

---
 include/boost/astronomy/time/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..18b63f9 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -38,6 +38,10 @@ public:
 
     decimal_hour(double const& h,double const& m,double const& s){
       dh = h + m/60 + s/(60*60);
+
+      hours = (long int)h;
+      minutes = (long int)m;
+      seconds = s;
     }
 
     double get() const{
-- 
2.43.0


From cd2e924f4b35a60a63ec3f88c1357b9e9550a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 39/74] fix: the galactic to equatorial matrix was not the
 inverse of its counterpart

The inverse of a rotation is its transpose.
---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From 7c907051ab184576d0010c098128b1a3b61e92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 40/74] fix: coordinates extracted at a pole could be NaN

Rounding can carry the third component of a unit vector beyond one, where asin
is not defined.
---
 include/boost/astronomy/coordinate/utility/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 4b6454f..0df8d38 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -11,6 +11,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <iostream>
 #include <utility>
 #include <cmath>
+#include <algorithm>
 
 #include <boost/numeric/ublas/io.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
@@ -296,7 +297,7 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    phi = asin(std::max(-1.0, std::min(1.0, p)));
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0


From 7803ae8613c08f2ee4890b272f3972e7905b1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 41/74] fix: proper motion was returned in radians labelled
 with the requested unit

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..e398e1e 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,12 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            static_cast<typename Differential::quantity1>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<0>(motion.get_differential()))),
+            static_cast<typename Differential::quantity2>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<1>(motion.get_differential())))
         );
     }
 
-- 
2.43.0


From 4f5ff3853dab8e946d74d352b865e4adeaae07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 42/74] fix: the observation time of a CIRS frame could not be
 read or set

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From 039daf5cfe34dcc8fceb98ddd143340a04522208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 43/74] fix: the azimuth of an alt-az frame could not be set

set_az took a distance.
---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
-- 
2.43.0


From 3513efea7b80b2b23e0c1b597d02d776262defe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 44/74] fix: the supergalactic longitude could not be set

---
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From b693c3b0acc9ebdac85c2cb69998cc124dd1bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 45/74] fix: coordinate factories swapped the units of their
 two angles

The return types named the quantities in the wrong order, so that angles of
two different units were not accepted.
---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From ac0f90b31d61f8c4cf6b774be2eb4e96f1493653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 46/74] fix: the angular separation took latitudes for
 longitudes

The separation went through the polar representation, whose first angle is an
azimuth and whose second one is counted from the pole, while the frames keep
(latitude, longitude): (dec, ra) = (0, 0) and (45, 0) degrees were reported as
the same direction. It was also NaN for directions whose cosine rounds to more
than one, and for points at distance zero.
---
 .../coordinate/ref_frame/base_frame.hpp       | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index e398e1e..cbc9d4a 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -109,9 +109,26 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
+        auto const radians = [](bu::quantity<bu::si::plane_angle> const& angle)
+        {
+            return angle.value();
+        };
+
+        auto const point = other.get_data();
+        double const lat1 = radians(bu::quantity<bu::si::plane_angle>(this->data.get_lat()));
+        double const lat2 = radians(bu::quantity<bu::si::plane_angle>(point.get_lat()));
+        double const dlon = radians(bu::quantity<bu::si::plane_angle>(point.get_lon())) -
+            radians(bu::quantity<bu::si::plane_angle>(this->data.get_lon()));
+
+        //components of the second direction along, and across, the first one
+        double const north = std::cos(lat1) * std::sin(lat2) -
+            std::sin(lat1) * std::cos(lat2) * std::cos(dlon);
+        double const east = std::cos(lat2) * std::sin(dlon);
+        double const along = std::sin(lat1) * std::sin(lat2) +
+            std::cos(lat1) * std::cos(lat2) * std::cos(dlon);
+
         return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
+            std::atan2(std::sqrt(north * north + east * east), along)
         );
     }
 
-- 
2.43.0


From cdf9dab4b6aeb13327564ee35b2e6b3c6fc36956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:58 +0000
Subject: [PATCH 47/74] fix: arithmetic on cos(lat) differentials mixed
 longitudes with and without cos(lat)

The sum took its left operand without dividing by cos(lat), and the conversions
normalised dlon*cos(lat) as if it were an angle of its own, which turned motions
with a negative cos(lat) around.
---
 .../diff/spherical_coslat_differential.hpp    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..9c2c950 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
@@ -268,8 +267,7 @@ public:
     auto operator *(OtherQuantity const& dt) const
     {
 
-        spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+        auto const& temp = *this;
 
         spherical_coslat_differential
         <
@@ -449,16 +447,21 @@ auto make_spherical_coslat_differential
     auto temp = make_spherical_differential(other);
     typedef decltype(temp) spherical_type;
 
-    temp.set_dlon(temp.get_dlon() * cos(static_cast<bu::quantity
-        <bu::si::plane_angle, typename spherical_type::type>>(temp.get_dlat()).value()));
+    typedef bu::quantity<bu::si::plane_angle, typename spherical_type::type> angle;
 
     return spherical_coslat_differential
         <
             typename spherical_type::type,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
+            angle,
+            angle,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<angle>(temp.get_dlat()),
+            static_cast<angle>(temp.get_dlon()) *
+                cos(static_cast<angle>(temp.get_dlat()).value()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 93f9d827d383ca2802a1472eff5d50b4adb2d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 48/74] fix: converting the origin left an angle uninitialised

The transform to spherical coordinates does not set the polar angle of the
zero vector, so the representation or differential kept whatever was in memory,
which may be NaN.
---
 include/boost/astronomy/coordinate/diff/base_differential.hpp  | 2 +-
 include/boost/astronomy/coordinate/rep/base_representation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/base_differential.hpp b/include/boost/astronomy/coordinate/diff/base_differential.hpp
index eccb035..eeb619c 100644
--- a/include/boost/astronomy/coordinate/diff/base_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/base_differential.hpp
@@ -40,7 +40,7 @@ struct base_differential
         "DimensionCount is expected to be 2 or 3");
     ///@endcond
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff{};
 
 public:
 
diff --git a/include/boost/astronomy/coordinate/rep/base_representation.hpp b/include/boost/astronomy/coordinate/rep/base_representation.hpp
index 5b522f4..12f3c87 100644
--- a/include/boost/astronomy/coordinate/rep/base_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/base_representation.hpp
@@ -42,7 +42,7 @@ struct base_representation
     ///@endcond
 
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point{};
 
 public:
 
-- 
2.43.0


From 8b377a26b6c95808f5209031e77a6d068d18b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 49/74] fix: an oversized data announcement led header-only
 reading back to an earlier HDU

The product of the NAXISn values and the position behind the data wrapped
around, so reading only the headers of such a file could go on forever.
---
 include/boost/astronomy/io/fits_reader.hpp | 10 +++++++++-
 include/boost/astronomy/io/header.hpp      | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 896b419..4eafea5 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -10,10 +10,13 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #define BOOST_ASTRONOMY_IO_FITS_READER_HPP
 
 #include <deque>
+#include <ios>
+#include <limits>
 #include <string>
 #include <map>
 
 #include <boost/astronomy/io/header.hpp>
+#include <boost/astronomy/exception/fits_exception.hpp>
 
 namespace boost { namespace astronomy { namespace io {
     /**
@@ -104,7 +107,12 @@ namespace boost { namespace astronomy { namespace io {
 
                     auto total_elements = hdu_header.data_size();
                     auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                    file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
+                    auto data_position = file_reader.get_current_pos();
+                    // A size beyond any file must not wrap around and lead back to an earlier header
+                    if (total_elements > (static_cast<std::size_t>(std::numeric_limits<std::streamoff>::max()) - data_position) / element_size) {
+                        throw file_reading_exception("Unexpected End Of File");
+                    }
+                    file_reader.set_reading_pos(data_position + (total_elements*element_size));
                     file_reader.set_unit_end();
                 }
             }
diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index cc3b8fc..468244b 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -12,6 +12,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <vector>
 #include <cstddef>
+#include <algorithm>
+#include <limits>
+#include <stdexcept>
 #include <unordered_map>
 #include <memory>
 #include <fstream>
@@ -217,7 +220,13 @@ public:
     */
     std::size_t data_size() {
         if (naxis_.empty()) { return 0; }
-        return std::accumulate(naxis_.begin(), naxis_.end(), static_cast<std::size_t > (1), std::multiplies<std::size_t>());
+        if (std::find(naxis_.begin(), naxis_.end(), static_cast<std::size_t>(0)) != naxis_.end()) { return 0; }
+        std::size_t total = 1;
+        for (auto axis : naxis_) {
+            if (axis > std::numeric_limits<std::size_t>::max() / total) { throw std::overflow_error("Data size of the HDU is out of range"); }
+            total *= axis;
+        }
+        return total;
     }
 
     /**
-- 
2.43.0


From 43c73671774300c975e61a2966be6599f4b36d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:53 +0000
Subject: [PATCH 50/74] fix: reading allocated whatever a damaged header
 announced

A file of a few records could ask for any amount of memory, as the buffer was
allocated and filled before the end of the file was noticed.
---
 include/boost/astronomy/io/fits_stream.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index ca1c0e1..60a057e 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -8,7 +8,10 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 #define BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 
+#include<algorithm>
+#include<cstddef>
 #include<fstream>
+#include<string>
 #include<boost/astronomy/exception/fits_exception.hpp>
 
 namespace boost {namespace astronomy {namespace io {
@@ -111,10 +114,17 @@ namespace boost {namespace astronomy {namespace io {
          * @throws file_reading_exception if the file ends before num_bytes could be read
         */
         std::string read(std::size_t num_bytes) {
-            std::string data(num_bytes, ' ');
-            this->file.read(&data[0], num_bytes);
-            if (static_cast<std::size_t>(this->file.gcount()) != num_bytes) {
-                throw file_reading_exception("Unexpected End Of File");
+            // Grows with the bytes found, as the number asked for may be far more than the file holds
+            const std::size_t max_chunk = std::size_t(1) << 24;
+            std::string data;
+            while (data.size() < num_bytes) {
+                std::size_t begin = data.size();
+                std::size_t chunk = std::min(num_bytes - begin, max_chunk);
+                data.resize(begin + chunk, ' ');
+                this->file.read(&data[begin], chunk);
+                if (static_cast<std::size_t>(this->file.gcount()) != chunk) {
+                    throw file_reading_exception("Unexpected End Of File");
+                }
             }
             return data;
         }
-- 
2.43.0


From 97573e185d5b1cbfaa5c23682d30b9066a927d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 51/74] fix: TFIELDS of a damaged header decided how much
 memory is allocated

---
 include/boost/astronomy/io/table_extension.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/table_extension.hpp b/include/boost/astronomy/io/table_extension.hpp
index e184c9a..ef55a9a 100644
--- a/include/boost/astronomy/io/table_extension.hpp
+++ b/include/boost/astronomy/io/table_extension.hpp
@@ -100,6 +100,8 @@ public:
     */
     void set_table_extension_info() {
         this->tfields_ = this->hdu_header.template value_of<std::size_t>("TFIELDS");
+        // Every field is described by a card of its own
+        if (this->tfields_ > this->hdu_header.card_count()) { throw invalid_table_colum_format(); }
         this->col_metadata_.resize(this->tfields_);
     }
 
-- 
2.43.0


From 75e02398cb594eb16d3967c8dd35aff2821e61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 52/74] fix: NAXIS of a damaged header decided how much memory
 is reserved

---
 include/boost/astronomy/io/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 468244b..d486f16 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -124,7 +124,7 @@ public:
 
         //setting naxis values
         std::size_t total_dimensions = cards[key_index.at("NAXIS")].template value<std::size_t>();
-        naxis_.reserve(total_dimensions);
+        naxis_.reserve(std::min(total_dimensions, cards.size()));
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-- 
2.43.0


From 124ba41609ba65d073b13216f571979129ace004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 53/74] fix: the heap of a binary table was taken for the next
 HDU and not written

The data of an extension is PCOUNT elements longer than its axes say. Reading
ignored them, so that every HDU after a table with variable length arrays was
looked for at the wrong place, and writing lost them.
---
 include/boost/astronomy/io/binary_table.hpp | 12 ++++++++++-
 include/boost/astronomy/io/fits_reader.hpp  | 24 +++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index a235303..4ee9fac 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -72,6 +72,8 @@ struct basic_binary_table_extension : table_extension<CardPolicy>
          >
     > cached_columns;
 
+    std::string heap; //! variable length arrays that follow the rows of the table
+
 public:
 
     /**
@@ -82,10 +84,11 @@ public:
     /**
      * @brief       Copies the table. The cached views refer to the other table, they are not copied
     */
-    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other), heap(other.heap) {}
 
     basic_binary_table_extension& operator = (basic_binary_table_extension const& other) {
         table_extension<CardPolicy>::operator=(other);
+        this->heap = other.heap;
         this->cached_columns.clear();
         return *this;
     }
@@ -142,6 +145,7 @@ public:
 
             file_writer.write(row_temp_buffer);
         }
+        file_writer.write(this->heap);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
@@ -358,6 +362,12 @@ private:
                 this->tb_data[row][col] = data_buffer.substr(starting_offset, field_size);
             }
         }
+
+        // The rows are followed by the heap of the table's variable length arrays
+        std::size_t table_size = total_rows * total_characters_per_row;
+        if (data_buffer.size() > table_size) {
+            this->heap = data_buffer.substr(table_size, this->pcount);
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 4eafea5..2f6ebdd 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -103,9 +103,9 @@ namespace boost { namespace astronomy { namespace io {
 
                 hdu_list.push_back(hdu_instance);
 
-                if (hdu_header.data_size() != 0) {
+                auto total_elements = elements_in_file(hdu_header);
+                if (total_elements != 0) {
 
-                    auto total_elements = hdu_header.data_size();
                     auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                     auto data_position = file_reader.get_current_pos();
                     // A size beyond any file must not wrap around and lead back to an earlier header
@@ -193,16 +193,32 @@ namespace boost { namespace astronomy { namespace io {
             return hdu_header;
         }
 
+        /**
+         * @brief   Gets the number of elements an HDU occupies in the file, including the heap that follows a table
+         * @param[in] hdu_header Header of the HDU
+        */
+        std::size_t elements_in_file(typename ExtensionsSupported::header_type& hdu_header) {
+            std::size_t total_elements = hdu_header.data_size();
+            if (hdu_header.total_dimensions() != 0 && hdu_header.contains_keyword("XTENSION") && hdu_header.contains_keyword("PCOUNT")) {
+                std::size_t heap_size = hdu_header.template value_of<std::size_t>("PCOUNT");
+                if (heap_size > std::numeric_limits<std::size_t>::max() - total_elements) {
+                    throw file_reading_exception("Unexpected End Of File");
+                }
+                total_elements += heap_size;
+            }
+            return total_elements;
+        }
+
         /**
          * @brief Extracts the data associated with a perticular HDU from the FITS file
          * @param[in] hdu_header Header information related to the current HDU
         */
         std::string extract_data_buffer(typename ExtensionsSupported::header_type& hdu_header) {
-            if (hdu_header.data_size() == 0) {
+            auto total_elements = elements_in_file(hdu_header);
+            if (total_elements == 0) {
                 return "";
             }
             else {
-                auto total_elements = hdu_header.data_size();
                 auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                 std::string data_buffer = file_reader.read(total_elements * element_size);
                 file_reader.set_unit_end();
-- 
2.43.0


From 1c94d612f25bd9dfb9091607d2d00671dbedd887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 54/74] fix: columns of variable length arrays could not be
 read

Their format is followed by the type and the number of the elements, as in
1PE(20), but the last character of the format was taken for its type.
---
 include/boost/astronomy/io/binary_table.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 4ee9fac..b3582fa 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -190,8 +190,10 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        return form.length() > 1 ?
-            boost::lexical_cast<std::size_t>(form.substr(0, form.length() - 1)) :
+        // The type may be followed by further characters: 1PE(20), 60A12
+        std::size_t type_pos = std::min(form.find_first_not_of("0123456789"), form.length());
+        return type_pos > 0 ?
+            boost::lexical_cast<std::size_t>(form.substr(0, type_pos)) :
             static_cast<std::size_t>(1);
     }
 
@@ -206,8 +208,9 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        if (form.empty()) { throw invalid_table_colum_format(); }
-        return form[form.length() - 1];
+        std::size_t type_pos = form.find_first_not_of("0123456789");
+        if (type_pos == std::string::npos) { throw invalid_table_colum_format(); }
+        return form[type_pos];
     }
 
     /**
-- 
2.43.0


From 0cd0c993269471ea49a77df10e6f01c679b35632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:02 +0000
Subject: [PATCH 55/74] fix: writing to a path that cannot be created or a full
 device was not reported

---
 include/boost/astronomy/exception/fits_exception.hpp | 9 +++++++++
 include/boost/astronomy/io/fits_reader.hpp           | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/exception/fits_exception.hpp b/include/boost/astronomy/exception/fits_exception.hpp
index e799c9c..3abe0db 100644
--- a/include/boost/astronomy/exception/fits_exception.hpp
+++ b/include/boost/astronomy/exception/fits_exception.hpp
@@ -108,6 +108,15 @@ namespace boost
                 return message.c_str();
             }
 
+        };
+        class file_writing_exception : public fits_exception {
+            std::string message;
+        public:
+            file_writing_exception(const std::string& error_message):message(error_message) {}
+            const char* what() const noexcept override {
+                return message.c_str();
+            }
+
         };
         class column_not_found_exception : public fits_exception {
             std::string message;
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 2f6ebdd..2442abf 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -142,12 +142,18 @@ namespace boost { namespace astronomy { namespace io {
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_writing_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
             boost::apply_visitor(writer_visitor, hdu);
             }
+
+            if (!file_writer.get_internal_stream().flush()) {
+                throw file_writing_exception("Cannot Write File");
+            }
         }
 
 
-- 
2.43.0


From 305fb1b43b04606980c07c7151a4eda91c6cabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 56/74] fix: a data size beyond the range of a machine word
 wrapped around and the data was skipped

---
 include/boost/astronomy/io/fits_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 2442abf..f99104d 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -226,6 +226,10 @@ namespace boost { namespace astronomy { namespace io {
             }
             else {
                 auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
+                // A size beyond any file must not wrap around to a small one
+                if (total_elements > static_cast<std::size_t>(std::numeric_limits<std::streamoff>::max()) / element_size) {
+                    throw file_reading_exception("Unexpected End Of File");
+                }
                 std::string data_buffer = file_reader.read(total_elements * element_size);
                 file_reader.set_unit_end();
                 return data_buffer;
-- 
2.43.0


From f0cb2872530eccf115810d1954a4ace8371bdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:19 +0000
Subject: [PATCH 57/74] fix: a negative number was read as a huge unsigned one

---
 .../astronomy/io/string_conversion_utility.hpp    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 5aef1cc..0a40c1a 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -38,7 +38,9 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
-                return boost::lexical_cast<T>(with_known_exponent(convert_str, std::is_floating_point<T>()));
+                T value = boost::lexical_cast<T>(with_known_exponent(convert_str, std::is_floating_point<T>()));
+                if (is_wrapped(convert_str, value, std::is_unsigned<T>())) { throw bad_lexical_cast(); }
+                return value;
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
@@ -74,6 +76,17 @@ namespace boost{namespace astronomy{namespace io{
         }
 
         static const std::string& with_known_exponent(const std::string& text, std::false_type) { return text; }
+
+        /**
+         * @brief lexical_cast turns a negative number into a huge unsigned one instead of refusing it
+        */
+        template<typename T>
+        static bool is_wrapped(const std::string& number, const T& value, std::true_type) {
+            return sizeof(T) > 1 && value != 0 && number[0] == '-';
+        }
+
+        template<typename T>
+        static bool is_wrapped(const std::string&, const T&, std::false_type) { return false; }
     };
 
 
-- 
2.43.0


From 2b87e07a54b6c74cb470ab1baf6c85841bad664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:40 +0000
Subject: [PATCH 58/74] fix: a column that had been viewed as one type could
 not be viewed as another

---
 include/boost/astronomy/io/ascii_table.hpp  | 11 +++++++----
 include/boost/astronomy/io/binary_table.hpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index bffa843..f12952b 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -11,6 +11,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #define BOOST_ASTRONOMY_IO_ASCII_TABLE_HPP
 
 #include <cstddef>
+#include <typeinfo>
 #include <algorithm>
 #include <iterator>
 #include <cstdint>
@@ -96,14 +97,16 @@ public:
     template<typename ColDataType>
     column_view<ColDataType,Converter>& get_column(const std::string& column_name) const {
 
-        auto cache_entry = this->cached_columns.find(column_name);
+        // A column may be viewed as several types
+        const std::string cache_key = column_name + ' ' + typeid(ColDataType).name();
+        auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
+            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[cache_key]);
         }
         else {
-            this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType,Converter>(column_name));
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
+            this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType,Converter>(column_name));
+            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[cache_key]);
         }
     }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b3582fa..57c2fee 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -10,6 +10,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #define BOOST_ASTRONOMY_IO_BINARY_TABLE_HPP
 
 #include <stdexcept>
+#include <typeinfo>
 #include <iterator>
 #include <algorithm>
 #include <complex>
@@ -114,14 +115,16 @@ public:
     */
     template<typename ColDataType>
     column_view<ColDataType, Converter>& get_column(const std::string& column_name) {
-        auto cache_entry = this->cached_columns.find(column_name);
+        // A column may be viewed as several types
+        const std::string cache_key = column_name + ' ' + typeid(ColDataType).name();
+        auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
+            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[cache_key]);
         }
         else {
-                this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType, Converter>(column_name));
-                return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
+                this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType, Converter>(column_name));
+                return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[cache_key]);
         }
     }
 
-- 
2.43.0


From 3df27482895709aeaf0e137270ac6cbf0571107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:35 +0000
Subject: [PATCH 59/74] fix: columns of a binary table that reach beyond their
 row were read from the next row or the heap

---
 include/boost/astronomy/io/binary_table.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 57c2fee..80dc442 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -359,10 +359,12 @@ private:
         // Fields are raw bytes: a byte that happens to be a white space character belongs to the data
         for (std::size_t row = 0; row < total_rows; row++) {
             for (std::size_t col = 0; col < total_fields; col++) {
-                std::size_t starting_offset = row * total_characters_per_row + this->col_metadata_[col].TBCOL();
+                std::size_t column_start = this->col_metadata_[col].TBCOL();
+                std::size_t starting_offset = row * total_characters_per_row + column_start;
                 std::size_t field_size = column_size(this->col_metadata_[col].TFORM());
 
-                if (starting_offset > data_buffer.size() || field_size > data_buffer.size() - starting_offset) {
+                if (column_start > total_characters_per_row || field_size > total_characters_per_row - column_start ||
+                    starting_offset > data_buffer.size() || field_size > data_buffer.size() - starting_offset) {
                     throw invalid_table_colum_format();
                 }
                 this->tb_data[row][col] = data_buffer.substr(starting_offset, field_size);
-- 
2.43.0


From 09fd146b6b7b803d5ad4dfbf067d3497717b6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:48 +0000
Subject: [PATCH 60/74] fix: a binary field of another size than its column was
 written and shifted the rows behind it

---
 include/boost/astronomy/io/binary_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 80dc442..5fe5ac6 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -143,6 +143,8 @@ public:
             std::string row_temp_buffer = "";
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
+                // A field of any other size would shift everything that follows it
+                if (this->tb_data[row][col].size() != column_size(this->col_metadata_[col].TFORM())) { throw column_exception(); }
                 row_temp_buffer += this->tb_data[row][col];
             }
 
-- 
2.43.0


From 408610c7a7371942ee7b38138539a5cae11b4b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:12 +0000
Subject: [PATCH 61/74] fix: reading a binary column as a wider type than its
 fields hold read beyond them

---
 .../astronomy/io/binary_data_converter.hpp    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index afd43a9..070a3dc 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -19,6 +19,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include<boost/cstdfloat.hpp>
 #include<boost/endian/conversion.hpp>
 #include<boost/astronomy/io/column.hpp>
+#include<boost/astronomy/exception/fits_exception.hpp>
 #include<boost/lexical_cast.hpp>
 #include<type_traits>
 
@@ -55,6 +56,18 @@ namespace boost{namespace astronomy{namespace io{
  */
     struct binary_data_converter {
 
+        /**
+         * @brief  Ensures that the binary data holds the elements which are to be read from it
+         * @param[in] data         Data with representation in binary form
+         * @param[in] element_size Size of an element in bytes
+         * @param[in] no_elements  Number of elements to be read
+         * @throws invalid_cast if the data is too short
+        */
+        static void require_elements(const std::string& data, std::size_t element_size, std::size_t no_elements = 1) {
+            if (data.size() / element_size < no_elements) {
+                throw invalid_cast("Cannot convert from Binary Data to the required Type");
+            }
+        }
     
         /**
          * @brief  Deserializes single element in binary form to its original type
@@ -64,6 +77,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename NumericType, typename AssumeType = NumericType>
         static NumericType element_to_numeric(const std::string& element) {
+            require_elements(element, sizeof(NumericType));
             AssumeType temp = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -82,6 +96,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename NumericType, typename AssumeType = NumericType>
         static std::vector<NumericType> elements_to_numeric_collection(
             const std::string& elements, std::size_t no_elements) {
+            require_elements(elements, sizeof(NumericType), no_elements);
             std::vector<NumericType> values;
             values.resize(no_elements);
 
@@ -110,6 +125,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename ComplexType, typename AssumeType = ComplexType>
         static std::complex<ComplexType> element_to_complex(const std::string& element) {
+            require_elements(element, sizeof(ComplexType) * 2);
             AssumeType temp_real = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -135,6 +151,7 @@ namespace boost{namespace astronomy{namespace io{
         static std::vector<std::complex<ComplexType>> elements_to_complex_collection(
             const std::string& elements, std::size_t no_elements) {
 
+            require_elements(elements, sizeof(ComplexType) * 2, no_elements);
             std::vector<std::complex<ComplexType>> values;
             values.reserve(no_elements);
 
@@ -170,6 +187,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename ByteType>
         static std::vector<ByteType> elements_to_byte_collection(const std::string& elements,
             std::size_t no_elements) {
+            require_elements(elements, 1, no_elements);
             return std::vector<ByteType>(elements.begin(),
                 elements.begin() + no_elements);
         }
@@ -312,6 +330,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+        require_elements(element, sizeof(boost::int32_t) * 2);
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -320,6 +339,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+        require_elements(elements, sizeof(boost::int32_t) * 2, num_elements);
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
-- 
2.43.0


From 74b97dd5bc16f08dc759b2c82f0ba9beb7f91985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:33 +0000
Subject: [PATCH 62/74] fix: asking for the pixels of an image as another type
 than its BITPIX crashed

---
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index a641372..50ef9e5 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -66,7 +66,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
 
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index a7fffe2..4aeeab6 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -78,7 +78,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
     /**
      * @brief Writes the entire HDU ( header, image_data ) into the file
-- 
2.43.0


From 09f557ea48d6e0b31dacc6fbfeb4f88497bc4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 63/74] fix: PCOUNT of 2 GB and more (tables with a large heap
 could not be opened)

---
 include/boost/astronomy/io/extension_hdu.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a984da7..6def26e 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -29,7 +29,7 @@ struct extension_hdu
 protected:
     std::string extname;
     int gcount = 1;
-    int pcount = 0;
+    long long pcount = 0;
     header<CardPolicy> hdu_header;
 
 public:
@@ -57,7 +57,7 @@ private:
     */
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
-        pcount = hdu_header.template value_of<int>("PCOUNT");
+        pcount = hdu_header.template value_of<long long>("PCOUNT");
 
         // EXTNAME is optional
         if (hdu_header.contains_keyword("EXTNAME")) {
-- 
2.43.0


From 661e8d4d3b34514e1974f4e878ef2e2bec78a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 64/74] fix: assigning one field of a column view to another
 wrote nothing

---
 include/boost/astronomy/io/column_data.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index bfb8852..d69f9dd 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -53,6 +53,16 @@ public:
         this->callback_ptr->update_value(index, value);
         return value;
     }
+
+    Proxy(Proxy const&) = default;
+
+    /**
+     * @brief Updates the field with the value of another field (and not this object with the other object)
+     * @param[in] other Proxy of the field which holds the replacement value
+    */
+    DataType operator = (Proxy const& other)  {
+        return *this = other.value;
+    }
 };
 
 
-- 
2.43.0


From e80dc429c610d3fe5ba1ff707064962675d38432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 65/74] fix: a field of a column view kept its old value after
 it was written

---
 include/boost/astronomy/io/column_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index d69f9dd..b3ae89b 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -51,6 +51,7 @@ public:
     */
     DataType operator = (DataType value)  {
         this->callback_ptr->update_value(index, value);
+        this->value = value;
         return value;
     }
 
-- 
2.43.0


From d6278d7320f2f6b06d81726b36340a237b451caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:19 +0000
Subject: [PATCH 66/74] fix: reading an image without pixels kept the pixels of
 the image before

---
 include/boost/astronomy/io/image.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index ed52d56..046d8b4 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -200,7 +200,12 @@ public:
     */
     void read_image(const std::string& data_buffer, std::size_t width = 0) {
 
-        if (data_buffer.empty()) { return; }
+        if (data_buffer.empty()) {
+            // No pixels, also if an earlier image had some
+            this->data_.resize(0);
+            this->width_ = this->height_ = 0;
+            return;
+        }
 
         auto element_size = get_element_size_from_bitpix(bitpix_val);
         std::string::const_iterator raw_data_iter=data_buffer.begin();
-- 
2.43.0


From d91e2fc8313920b7d3e61d9913bef0bbe6e9384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:33 +0000
Subject: [PATCH 67/74] fix: a table whose rows or fields were added or removed
 was written as an invalid file

---
 include/boost/astronomy/io/ascii_table.hpp     |  1 +
 include/boost/astronomy/io/binary_table.hpp    |  1 +
 include/boost/astronomy/io/table_extension.hpp | 14 ++++++++++++++
 3 files changed, 16 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index f12952b..42999ab 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -157,6 +157,7 @@ public:
     template<typename FileWriter>
     void write_to(FileWriter& file_writer) {
 
+        this->check_table_shape();
         this->hdu_header.write_header(file_writer);
 
         for (int row = 0; row < this->tb_data.size(); row++) {
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 5fe5ac6..46ee461 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -136,6 +136,7 @@ public:
     template<typename FileWriter>
     void write_to(FileWriter& file_writer) {
 
+        this->check_table_shape();
         this->hdu_header.write_header(file_writer);
 
         for (int row = 0; row < this->tb_data.size(); row++) {
diff --git a/include/boost/astronomy/io/table_extension.hpp b/include/boost/astronomy/io/table_extension.hpp
index ef55a9a..23b6621 100644
--- a/include/boost/astronomy/io/table_extension.hpp
+++ b/include/boost/astronomy/io/table_extension.hpp
@@ -93,6 +93,20 @@ public:
     */
     table_data& get_data() { return this->tb_data; }
 
+    protected:
+
+    /**
+     * @brief Checks that the table has the rows and fields which its header announces, nothing else can be written
+     * @throws column_exception
+    */
+    void check_table_shape() {
+        if (this->tb_data.empty() && this->hdu_header.data_size() == 0) { return; }
+        if (this->tb_data.size() != this->hdu_header.naxis(2)) { throw column_exception(); }
+        for (const auto& row : this->tb_data) {
+            if (row.size() != this->tfields_) { throw column_exception(); }
+        }
+    }
+
     private:
 
     /**
-- 
2.43.0


From 000be513c92e0dc5c977ebf51a08349dfb796a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:41 +0000
Subject: [PATCH 68/74] fix: a file of which only the headers were read was
 written without its data

---
 include/boost/astronomy/io/binary_table.hpp    | 2 ++
 include/boost/astronomy/io/image_extension.hpp | 7 ++++++-
 include/boost/astronomy/io/primary_hdu.hpp     | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 46ee461..49d9073 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -137,6 +137,8 @@ public:
     void write_to(FileWriter& file_writer) {
 
         this->check_table_shape();
+        // The heap may not have been read (reading_options::read_only_headers)
+        if (this->heap.size() != static_cast<std::size_t>(this->pcount)) { throw column_exception(); }
         this->hdu_header.write_header(file_writer);
 
         for (int row = 0; row < this->tb_data.size(); row++) {
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 50ef9e5..5e32b52 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -17,6 +17,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <boost/astronomy/io/header.hpp>
 #include <boost/astronomy/io/extension_hdu.hpp>
 #include <boost/astronomy/io/image.hpp>
+#include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/variant.hpp>
 
 
@@ -79,9 +80,13 @@ public:
     template<typename FileWriter>
     void write_to(FileWriter& file_writer) {
 
-        this->hdu_header.write_header(file_writer);
         write_image_visitor write_image_visit;
         auto image_data = boost::apply_visitor(write_image_visit, data);
+        // The pixels may not have been read (reading_options::read_only_headers)
+        if (image_data.size() != this->hdu_header.data_size() * get_element_size_from_bitpix(this->hdu_header.bitpix())) {
+            throw file_writing_exception("HDU Has Not The Data Its Header Announces");
+        }
+        this->hdu_header.write_header(file_writer);
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 4aeeab6..550ab43 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -15,6 +15,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <boost/astronomy/io/header.hpp>
 #include <boost/astronomy/io/image.hpp>
+#include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/variant.hpp>
 #include <boost/gil.hpp>
 
@@ -88,9 +89,13 @@ public:
     template<typename FileWriter>
     void write_to(FileWriter& file_writer) {
         
-        this->hdu_header.write_header(file_writer);
         write_image_visitor write_image_visit;
         auto image_data = boost::apply_visitor(write_image_visit, data);
+        // The pixels may not have been read (reading_options::read_only_headers)
+        if (image_data.size() != this->hdu_header.data_size() * get_element_size_from_bitpix(this->hdu_header.bitpix())) {
+            throw file_writing_exception("HDU Has Not The Data Its Header Announces");
+        }
+        this->hdu_header.write_header(file_writer);
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-- 
2.43.0


From 63eebb64688b3e5c8f2228ebaf4bc2b89d539081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:59 +0000
Subject: [PATCH 69/74] fix: the text of a card with nothing behind its keyword
 could not be read

---
 include/boost/astronomy/io/card.hpp                | 1 +
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index c19ef3d..02d483b 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -164,6 +164,7 @@ public:
     */
     std::string value_with_comment() const
     {
+        if (this->card_.length() <= 8) { return ""; } // nothing behind the keyword
         return boost::algorithm::trim_copy(this->card_.substr(this->card_.compare(8, 2, "= ") == 0 ? 10 : 8));
     }
 
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 4269261..f3b4597 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -225,7 +225,7 @@ public:
     */
     std::string extract_value(const std::string& fits_card) const {
         // Commentary cards have no value indicator, and no comment part either
-        if (!in_proper_format(fits_card)) { return fits_card.substr(8); }
+        if (!in_proper_format(fits_card)) { return fits_card.length() > 8 ? fits_card.substr(8) : ""; }
 
         // The comment starts at the first slash that is not part of a quoted string
         bool in_quotes = false;
-- 
2.43.0


From afa4be6f768153839b6b8ae1f10fa621ec72ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:33 +0000
Subject: [PATCH 70/74] fix: a binary table with unused bytes in its rows was
 written as an invalid file

---
 include/boost/astronomy/io/binary_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 49d9073..e42d853 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -151,6 +151,8 @@ public:
                 row_temp_buffer += this->tb_data[row][col];
             }
 
+            // Rows may have bytes that belong to no field, they are not kept
+            if (row_temp_buffer.size() != this->hdu_header.naxis(1)) { throw column_exception(); }
             file_writer.write(row_temp_buffer);
         }
         file_writer.write(this->heap);
-- 
2.43.0


From 765d58685057a678954b1b742e38f74d33064f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 71/74] fix: overlapping fields of an ASCII table were written
 with the text of each other

---
 include/boost/astronomy/io/ascii_table.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 42999ab..18e9416 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -172,6 +172,12 @@ public:
                 // The field occupies field_size characters from TBCOL on, its value is right justified
                 row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1 + field_size - field.length(), field.length(), field);
             }
+            // Fields may overlap, a field that another one has changed cannot be written
+            for (int col = 0; col < this->tb_data[row].size(); col++) {
+                std::size_t field_size = this->column_size(this->col_metadata_[col].TFORM());
+                if (boost::algorithm::trim_copy(row_temp_buffer.substr(this->col_metadata_[col].TBCOL() - 1, field_size)) !=
+                    boost::algorithm::trim_copy(this->tb_data[row][col])) { throw column_exception(); }
+            }
             file_writer.write(row_temp_buffer);
         }
         auto current_write_pos = file_writer.get_current_pos();
-- 
2.43.0


From 629122625e1b86d8d645e4d51219f476ee133b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:59 +0000
Subject: [PATCH 72/74] fix: logicals were read from data that has too few, and
 more of them than asked for

---
 include/boost/astronomy/io/binary_data_converter.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 070a3dc..cf3bb95 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -278,13 +278,15 @@ namespace boost{namespace astronomy{namespace io{
 
     template<>
     bool binary_data_converter::deserialize_to(const std::string& element, int) {
+        require_elements(element, 1);
         return element[0] == 'T';
     }
     template<>
-    std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int) {
+    std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int num_elements) {
+        require_elements(elements, 1, num_elements);
         std::vector<bool> values;
-        for (auto element : elements) {
-            values.emplace_back(element == 'T');
+        for (int i = 0; i < num_elements; i++) {
+            values.emplace_back(elements[i] == 'T');
         }
         return values;
     }
-- 
2.43.0


From d9055d8967136558d4bf406abdeafddf97a95b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:50 +0000
Subject: [PATCH 73/74] fix: views of a table were destroyed when a table was
 assigned to it

---
 include/boost/astronomy/io/ascii_table.hpp  | 6 ++++--
 include/boost/astronomy/io/binary_table.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 18e9416..f76ca3c 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -65,7 +65,6 @@ public:
 
     basic_ascii_table& operator = (basic_ascii_table const& other) {
         table_extension<CardPolicy>::operator=(other);
-        this->cached_columns.clear();
         return *this;
     }
 
@@ -102,7 +101,10 @@ public:
         auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[cache_key]);
+            // The view stays where it is, the table may have become one with other columns
+            auto& view = boost::get<column_view<ColDataType, Converter>>(cache_entry->second);
+            view = this->template make_column_view<ColDataType, Converter>(column_name);
+            return view;
         }
         else {
             this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType,Converter>(column_name));
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index e42d853..a2465ab 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -90,7 +90,6 @@ public:
     basic_binary_table_extension& operator = (basic_binary_table_extension const& other) {
         table_extension<CardPolicy>::operator=(other);
         this->heap = other.heap;
-        this->cached_columns.clear();
         return *this;
     }
 
@@ -120,7 +119,10 @@ public:
         auto cache_entry = this->cached_columns.find(cache_key);
 
         if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[cache_key]);
+            // The view stays where it is, the table may have become one with other columns
+            auto& view = boost::get<column_view<ColDataType, Converter>>(cache_entry->second);
+            view = this->template make_column_view<ColDataType, Converter>(column_name);
+            return view;
         }
         else {
                 this->cached_columns.emplace(cache_key, this->template make_column_view<ColDataType, Converter>(column_name));
-- 
2.43.0


From 0027defa1e48025fb3c76d9ae9a05b93c98d39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 74/74] fix: a table that announces rows which are not in the
 file used memory without bound

---
 include/boost/astronomy/io/ascii_table.hpp  | 3 +++
 include/boost/astronomy/io/binary_table.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index f76ca3c..0ab0a1f 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -268,6 +268,9 @@ private:
         auto total_rows = this->hdu_header.naxis(2);
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
+        // The number of rows announced may be far more than there are in the data, and rows without any bytes are none
+        if (total_characters_per_row == 0) { total_rows = 0; }
+        else if (total_rows > 0 && total_rows - 1 > data_buffer.size() / total_characters_per_row) { throw invalid_table_colum_format(); }
 
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index a2465ab..cd226d0 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -361,6 +361,9 @@ private:
         auto total_rows = this->hdu_header.naxis(2);
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
+        // The number of rows announced may be far more than there are in the data, and rows without any bytes are none
+        if (total_characters_per_row == 0) { total_rows = 0; }
+        else if (total_rows > 0 && total_rows - 1 > data_buffer.size() / total_characters_per_row) { throw invalid_table_colum_format(); }
 
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
-- 
2.43.0


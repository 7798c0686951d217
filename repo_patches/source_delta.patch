From 03864d5e0b69d00f5232e4afba9a60ffc40072b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 01/44] fix: read long lines from a FILE in one piece

---
 src/util.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..1f8a78c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,21 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
-	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	/* There's no limit to the length of a line, and it may contain any byte */
+	string line;
+	int c;
+	while ((c = getc (f)) != EOF) {
+		line += static_cast<char> (c);
+		if (c == '\n') {
+			return line;
+		}
+	}
+
+	if (line.empty ()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From 1562a97f6ac9b106aa67a08f854392238ce2c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 02/44] fix: strip U+202B from the whole of a SubRip line

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..2b3dbcb 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -228,6 +228,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 	vector<Colour> colours;
 	colours.push_back (Colour (1, 1, 1));
 
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (t, "\xe2\x80\xab", "");
+
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -319,11 +324,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
-- 
2.43.0


From b6d20ca57d79a82f1126d3ddd061eb70d570c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 03/44] fix: SSA-style tags in SubRip only affect the text
 after them

---
 src/subrip_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 2b3dbcb..cb1947b 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -317,6 +317,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 				++i;
 			}
 			++i;
+			maybe_content (p);
 			SSAReader::parse_tag(p, ssa, SSAReader::Context{288, 288, Colour(1, 1, 1)});
 		} else {
 			p.text += t[i];
-- 
2.43.0


From e903bfa1c0fc83e565d30c8894e2f5efbc2b287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 04/44] fix: handle unmatched </font> and <font> spanning lines
 in SubRip

---
 src/subrip_reader.cc | 16 +++++++---------
 src/subrip_reader.h  |  2 ++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index cb1947b..5a972e6 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours.clear();
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
 	   as a missing character.  This may be a hack.
 	*/
@@ -278,10 +276,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -298,7 +296,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
+					_colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -306,10 +304,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
-				colours.pop_back();
-				p.colour = colours.back();
+			if (!_colours.empty()) {
+				_colours.pop_back();
 			}
+			p.colour = _colours.empty() ? Colour(1, 1, 1) : _colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..3426c32 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -56,6 +56,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** colours from the <font> tags that are open in the current subtitle */
+	std::vector<Colour> _colours;
 };
 
 }
-- 
2.43.0


From 405f223e487e6c10e07dc032f1f8e63f5e9d75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 05/44] fix: default SSA style colour is white

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..7459043 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From 61a9063b0ca29c4b5d7283a229051dfa99a05e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 06/44] fix: do not mistake other SSA tags for \fs and \c

---
 src/ssa_reader.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 7459043..723e052 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -25,6 +25,7 @@
 #include "compose.hpp"
 #include <boost/algorithm/string.hpp>
 #include <boost/bind/bind.hpp>
+#include <cctype>
 #include <cstdlib>
 #include <iostream>
 #include <vector>
@@ -283,18 +284,13 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
-		SUB_ASSERT (tag.length() > 3);
+	} else if (boost::starts_with(tag, "\\fs") && tag.length() > 3 && isdigit(static_cast<unsigned char>(tag[3]))) {
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (tag == "\\c") {
+		sub.colour = context.primary_colour;
+	} else if (boost::starts_with(tag, "\\c&")) {
 		/* \c&Hbbggrr& */
-		if (tag.length() > 2) {
-			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
-		} else if (tag.length() == 2) {
-			sub.colour = context.primary_colour;
-		} else {
-			throw SSAError(String::compose("Badly formatted colour tag %1", tag));
-		}
+		sub.colour = h_colour(tag.substr(2));
 	}
 }
 
-- 
2.43.0


From 86117fad7afddfffc1151423541ec628d72dfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 07/44] fix: skip unknown sections in SSA files

---
 src/ssa_reader.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 723e052..db5aaf1 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -426,7 +426,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -456,10 +457,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			/* Something like [Fonts], whose contents are not for us and need not be type: body */
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
@@ -568,6 +576,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 					}
 				}
 			}
+			break;
+		case OTHER:
+			break;
 		}
 
 	}
-- 
2.43.0


From 5c822c3ee0083a31051622f60976ed3a5ee30d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 08/44] fix: only treat NOTE as a WebVTT comment if it is a
 whole word

---
 src/web_vtt_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..1a82bb8 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From 0c2bca2d8835edc083d5d3645257e8598b83813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 09/44] fix: compare times with different frame rates by
 instant

---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From 802f4c1de00cb5571198165fbd5c5b454a1b93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 10/44] fix: round the sum of two times to the nearest frame

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..560aa5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -181,7 +181,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From b1a08fbd72b4f88d47a9ae16b6aa8a4f675650ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 11/44] fix: carry into the next second when scaling a time

---
 src/sub_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 560aa5b..95a9750 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -194,4 +194,8 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+	if (_frames >= _rate->integer_fraction()) {
+		_frames -= _rate->integer_fraction();
+		++_seconds;
+	}
 }
-- 
2.43.0


From 1da473267ae7adad2d055167f3929b53248d72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 12/44] fix: SSA margins of 0000 do not override the style

---
 src/ssa_reader.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index db5aaf1..a571219 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -556,17 +556,18 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						auto const margin = raw_convert<float>(event[i]);
+						if (margin != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
-							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
+							sub.vertical_position.proportional = margin / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
-							left_margin = raw_convert<int>(event[i]);
+						if (auto const margin = raw_convert<int>(event[i])) {
+							left_margin = margin;
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
-							right_margin = raw_convert<int>(event[i]);
+						if (auto const margin = raw_convert<int>(event[i])) {
+							right_margin = margin;
 						}
 					} else if (event_format[i] == "Text") {
 						auto context = Context(play_res_x, play_res_y, style ? style->primary_colour : Colour(1, 1, 1), left_margin, right_margin);
-- 
2.43.0


From 9894796662ceb262f259de3b52ade0ae026815e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 13/44] fix: SSA margins override the style wherever they are
 in the event's format

---
 src/ssa_reader.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index a571219..06aa8a7 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -516,8 +516,10 @@ SSAReader::read (function<optional<string> ()> get_line)
 
 				RawSubtitle sub;
 				optional<Style> style;
-				int left_margin = 0;
-				int right_margin = 0;
+				/* Margins from the event, if they are non-zero */
+				optional<float> vertical_margin;
+				optional<int> left_margin;
+				optional<int> right_margin;
 
 				for (size_t i = 0; i < event.size(); ++i) {
 					trim (event[i]);
@@ -553,13 +555,10 @@ SSAReader::read (function<optional<string> ()> get_line)
 						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						}
-						left_margin = style->left_margin;
-						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
 						auto const margin = raw_convert<float>(event[i]);
-						if (margin != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							/* Override the style if its non-zero */
-							sub.vertical_position.proportional = margin / play_res_y;
+						if (margin != 0) {
+							vertical_margin = margin;
 						}
 					} else if (event_format[i] == "MarginL") {
 						if (auto const margin = raw_convert<int>(event[i])) {
@@ -570,7 +569,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 							right_margin = margin;
 						}
 					} else if (event_format[i] == "Text") {
-						auto context = Context(play_res_x, play_res_y, style ? style->primary_colour : Colour(1, 1, 1), left_margin, right_margin);
+						if (vertical_margin && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+							/* Override the style */
+							sub.vertical_position.proportional = *vertical_margin / play_res_y;
+						}
+						auto context = Context(
+							play_res_x,
+							play_res_y,
+							style ? style->primary_colour : Colour(1, 1, 1),
+							left_margin.get_value_or(style ? style->left_margin : 0),
+							right_margin.get_value_or(style ? style->right_margin : 0)
+							);
 						for (auto j: parse_line(sub, event[i], context)) {
 							_subs.push_back (j);
 						}
-- 
2.43.0


From 132136d5dd38c356adef2c32275b157b9f9aec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 14/44] fix: only count the line breaks that SSA lines really
 have

---
 src/ssa_reader.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 06aa8a7..2d2222d 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -332,15 +332,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
+	/* Number of line breaks so far */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -379,6 +372,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					subs.push_back (current);
 					current.text = "";
 				}
+				++line_breaks;
 				/* Move down one line (1.2 times the font size) */
 				if (current.vertical_position.reference.get() == BOTTOM_OF_SCREEN) {
 					current.vertical_position.proportional = current.vertical_position.proportional.get() - line_size;
-- 
2.43.0


From 6bd09783baef24bcfb394b7958ba1e33854fa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 15/44] fix: read the last line of a text STL file when it has
 no newline

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..7354e72 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -47,7 +47,7 @@ STLTextReader::STLTextReader (istream& in)
 	while (in.good ()) {
 		string line;
 		getline (in, line);
-		if (!in.good ()) {
+		if (in.fail ()) {
 			return;
 		}
 
-- 
2.43.0


From 8649f4680048b3c429fcfdf0eb588b8e8beb73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 16/44] fix: don't lose the last digit of a text STL start time
 with no space before the comma

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 7354e72..0748e66 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -84,7 +84,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From 0bda07ca1072357e9441d41e39a18d2dae0456e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:59 +0000
Subject: [PATCH 17/44] fix: number rows throughout a text STL subtitle

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 0748e66..f9df1be 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -99,6 +99,7 @@ STLTextReader::STLTextReader (istream& in)
 
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
+			_subtitle.vertical_position.line = 0;
 
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
@@ -167,6 +168,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From d99c0833b0bea72de12e3b4992f855ca0b1e5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 18/44] fix: skip text STL lines with malformed numbers instead
 of throwing bad_lexical_cast

---
 src/stl_text_reader.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f9df1be..2a0b143 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -34,6 +34,7 @@ using boost::algorithm::starts_with;
 using boost::is_any_of;
 using boost::optional;
 using boost::lexical_cast;
+using boost::bad_lexical_cast;
 using namespace sub;
 
 STLTextReader::STLTextReader (istream& in)
@@ -143,7 +144,12 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	try {
+		return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	} catch (bad_lexical_cast &) {
+		warn (String::compose ("Unrecognised time %1", t));
+		return optional<Time> ();
+	}
 }
 
 void
@@ -158,7 +164,11 @@ STLTextReader::set (string name, string value)
 	} else if (name == "$Underlined") {
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
-		_subtitle.font_size.set_points (lexical_cast<int> (value));
+		try {
+			_subtitle.font_size.set_points (lexical_cast<int> (value));
+		} catch (bad_lexical_cast &) {
+			warn (String::compose ("Unrecognised font size %1", value));
+		}
 	}
 }
 
-- 
2.43.0


From 3e6cce6de88f162832e8139795f2bd522ee6d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:28 +0000
Subject: [PATCH 19/44] fix: skip unassigned ISO 6937 codes instead of
 dereferencing null or giving U+0000

---
 src/iso6937.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..03da33f 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,6 +33,17 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** @return Character with a given code, if there is one */
+static optional<wchar_t>
+lookup (map<char, wchar_t> const & m, unsigned char c)
+{
+	map<char, wchar_t>::const_iterator i = m.find (c);
+	if (i == m.end ()) {
+		return optional<wchar_t> ();
+	}
+	return i->second;
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
@@ -50,10 +61,19 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			map<char, map<char, wchar_t> *>::const_iterator d = iso6937::diacriticals.find (diacritical.get());
+			if (d != iso6937::diacriticals.end()) {
+				optional<wchar_t> c = lookup (*d->second, u);
+				if (c) {
+					o += c.get ();
+				}
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			optional<wchar_t> c = lookup (iso6937::main, u);
+			if (c) {
+				o += c.get ();
+			}
 		}
 
 		++i;
-- 
2.43.0


From fe8ab227d442f8480a50c8d58427c066057fbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 20/44] fix: make the ISO 6937 tables once, even when several
 threads need them

---
 src/iso6937.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 03da33f..d6e6018 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,6 +33,14 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Make the tables if they have not been made; any number of threads can call this at once */
+static void
+ensure_tables ()
+{
+	static bool const made = (make_iso6937_tables(), true);
+	(void) made;
+}
+
 /** @return Character with a given code, if there is one */
 static optional<wchar_t>
 lookup (map<char, wchar_t> const & m, unsigned char c)
@@ -47,9 +55,7 @@ lookup (map<char, wchar_t> const & m, unsigned char c)
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	wstring o;
 
@@ -97,9 +103,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From e47c90cb1cf95f7aa48f7d6c8fc5f2fa9dbeccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:45 +0000
Subject: [PATCH 21/44] fix: don't let combining diacritics alter the next
 character in ISO 6937

---
 src/iso6937.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index d6e6018..5229b3b 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -110,7 +110,11 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		if (c && iso6937::diacriticals.find(c.get()) != iso6937::diacriticals.end()) {
+			/* A combining diacritic on its own; in ISO6937 this would apply to the next
+			   character rather than the previous one, so we have to drop it.
+			*/
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
-- 
2.43.0


From b96fbf5c74dfa6b952c2461e804273287177e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:49 +0000
Subject: [PATCH 22/44] fix: STL language group U8 is UTF-8

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 8bd489f2170449f8934a23dca0eba7a12c0fcd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 23/44] fix: close .srt files which cannot be read

---
 src/reader_factory.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..f6bdfef 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -53,9 +53,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
-		fclose (f);
-		return r;
+		/* Close the file even if SubripReader throws */
+		shared_ptr<FILE> closer (f, fclose);
+		return shared_ptr<Reader> (new SubripReader(f));
 	}
 
 	return shared_ptr<Reader> ();
-- 
2.43.0


From bce2b85eac7c39bb9966cafb0d0a324fcf13b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 24/44] fix: report failure to write a binary STL file

---
 src/stl_binary_writer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..2ce63b9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -24,6 +24,7 @@
 #include "stl_binary_writer.h"
 #include "subtitle.h"
 #include "iso6937.h"
+#include "exceptions.h"
 #include "stl_util.h"
 #include "compose.hpp"
 #include "sub_assert.h"
@@ -390,4 +391,9 @@ sub::write_stl_binary (
 		output.write (i, 128);
 		delete[] i;
 	}
+
+	output.close ();
+	if (!output.good ()) {
+		throw STLError (String::compose ("Could not write binary STL file %1", file_name.string()));
+	}
 }
-- 
2.43.0


From 5e3f6ea2d6b8d076ae58c08e09a55adcece97b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 25/44] fix: count characters, up to 99, for the longest row of
 a binary STL file

---
 src/stl_binary_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 2ce63b9..b27ad3a 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -332,7 +332,7 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t>(k.text).size ();
 			}
 			longest = std::max (longest, t);
 		}
@@ -367,7 +367,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min (longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 922da685f52e2bc142d6e7dc849805316cadcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:22 +0000
Subject: [PATCH 26/44] fix: keep the frames of binary STL time codes below the
 frame rate

---
 src/stl_binary_writer.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index b27ad3a..3837e40 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -108,6 +108,23 @@ put_int_as_int (char* p, int v, unsigned int n)
 	}
 }
 
+static void
+put_timecode (char* p, sub::Time const& t, float frames_per_second)
+{
+	int seconds = t.hours() * 3600 + t.minutes() * 60 + t.seconds();
+	int frames = t.frames_at (sub::Rational(frames_per_second * 1000, 1000));
+	if (frames >= frames_per_second) {
+		/* Rounded up to the start of the next second */
+		++seconds;
+		frames = 0;
+	}
+
+	put_int_as_int (p, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 static int
 vertical_position (sub::Line const & line)
 {
@@ -231,15 +248,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, frames_per_second);
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, frames_per_second);
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From cbc6872314263488a7273b05e94881f28ca22972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:47 +0000
Subject: [PATCH 27/44] fix: round rows of binary STL subtitles to the nearest
 rather than towards the top

---
 src/stl_binary_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 3837e40..002f071 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -144,16 +144,16 @@ vertical_position (sub::Line const & line)
 			break;
 		}
 	} else if (line.vertical_position.line) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+		double const prop = double (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From 4f540afd6e7586d6a36b897a56097718802ff386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:51 +0000
Subject: [PATCH 28/44] fix: never run two lines of a binary STL subtitle
 together

---
 src/stl_binary_writer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 002f071..f90cfe5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -191,8 +191,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			/* CR/LF down to this line, which must at least be below the last one */
+			int vp = vertical_position (j);
+			if (last_vp) {
+				vp = max (vp, last_vp.get() + 1);
+			}
 
 			if (last_vp) {
 				for (int k = last_vp.get(); k < vp; ++k) {
-- 
2.43.0


From 45fb2a28b2bb990a13d1f4392f8caf1d662cda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 29/44] fix: write subtitles whose vertical position has no
 number of lines to binary STL

---
 src/stl_binary_writer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index f90cfe5..639a899 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -143,6 +143,9 @@ vertical_position (sub::Line const & line)
 		default:
 			break;
 		}
+	} else if (line.vertical_position.line && !line.vertical_position.lines) {
+		/* We don't know how many lines there are on the screen, so use ours */
+		vp = line.vertical_position.line.get ();
 	} else if (line.vertical_position.line) {
 		double const prop = double (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
-- 
2.43.0


From 7582a1732dc5bd473d5e37b46a9a54f4b1352fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 30/44] fix: VerticalPosition with a line but no number of
 lines has no fraction of the screen

---
 src/vertical_position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..0baf453 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,7 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && (!line || !lines))) {
 		return 0;
 	}
 
-- 
2.43.0


From 0063f80b8e662f426f572174ac89511958e612c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 31/44] fix: read the timecodes of 23.976fps binary STL files
 at that rate, not 23

---
 src/stl_binary_reader.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..7210742 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -77,9 +77,9 @@ public:
 		return v;
 	}
 
-	Time get_timecode (int offset, int frame_rate) const
+	Time get_timecode (int offset, Rational frame_rate) const
 	{
-		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], Rational (frame_rate, 1));
+		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], frame_rate);
 	}
 
 protected:
@@ -146,7 +146,10 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	reader->read (1024, "GSI");
 
 	code_page_number = atoi (reader->get_string(0, 3).c_str());
-	frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	float const dfc_frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	frame_rate = dfc_frame_rate;
+	/* The only rate that isn't an integer is 23.976 */
+	Rational const timecode_rate = frame_rate == dfc_frame_rate ? Rational (frame_rate, 1) : Rational (24000, 1001);
 	display_standard = _tables.display_standard_file_to_enum (reader->get_string(11, 1));
 	language_group = _tables.language_group_file_to_enum (reader->get_string(12, 2));
 	language = _tables.language_file_to_enum (reader->get_string(14, 2));
@@ -210,8 +213,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
+			sub.from = reader->get_timecode(5, timecode_rate);
+			sub.to = reader->get_timecode(9, timecode_rate);
 			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
 			 * is wrong if the EBN of this TTI block is not 255 (I think).
 			 */
-- 
2.43.0


From 5002c5114ac1f6c3f44b191f304d0416bd9eb717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:53 +0000
Subject: [PATCH 32/44] fix: join the text of binary STL extension blocks

---
 src/stl_binary_reader.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7210742..9d0c9d4 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -191,6 +191,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_contact_details = reader->get_string(341, 32);
 
 	int highest_line = 0;
+	/* Text of the current subtitle, which may be spread over several TTI blocks */
+	string whole;
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -199,11 +201,18 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
-		string const whole = reader->get_string(16, 112);
+		whole += reader->get_string(16, 112);
+
+		if (reader->get_int(3, 1) < 0xf0 && i < (tti_blocks - 1)) {
+			/* The text carries on in the next (extension) block; any unused space here does not count */
+			boost::algorithm::trim_right_if (whole, is_any_of("\x8f"));
+			continue;
+		}
 
 		/* Split the text up into lines (8Ah is a new line) */
 		vector<string> lines;
 		split (lines, whole, is_any_of ("\x8a"));
+		whole.clear ();
 
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
@@ -215,9 +224,6 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			RawSubtitle sub;
 			sub.from = reader->get_timecode(5, timecode_rate);
 			sub.to = reader->get_timecode(9, timecode_rate);
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
 			sub.vertical_position.line = reader->get_int(13, 1) + j;
 			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
-- 
2.43.0


From 3e4cde2f4feea276ba78a14b76be6053827e1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 33/44] fix: leave newlines out of lines read from files, as
 with lines from strings

The context of an error had lines with newlines in when reading from a file.
---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 1f8a78c..294c451 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -77,10 +77,11 @@ sub::get_line_file (FILE* f)
 	string line;
 	int c;
 	while ((c = getc (f)) != EOF) {
-		line += static_cast<char> (c);
 		if (c == '\n') {
+			/* As with get_line_string(), the newline isn't part of the line */
 			return line;
 		}
+		line += static_cast<char> (c);
 	}
 
 	if (line.empty ()) {
-- 
2.43.0


From a80ad8ef9d01a514465bb637c032858135093fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 34/44] fix: do not take the locale's decimal mark for one in
 raw numbers

---
 src/raw_convert.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raw_convert.cc b/src/raw_convert.cc
index 141453f..f3f9f53 100644
--- a/src/raw_convert.cc
+++ b/src/raw_convert.cc
@@ -28,7 +28,12 @@ string
 make_local (string v)
 {
 	struct lconv* lc = localeconv ();
-	boost::algorithm::replace_all (v, ".", lc->decimal_point);
+	string const point = lc->decimal_point;
+	if (point != ".") {
+		/* The locale's decimal point means nothing in a raw number, so it marks the end */
+		v = v.substr (0, v.find (point));
+		boost::algorithm::replace_all (v, ".", point);
+	}
 	/* We hope it's ok not to add in thousands separators here */
 	return v;
 }
-- 
2.43.0


From e9e20e323ad3b2de2247cdffa48a0850ec81e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 35/44] fix: round font sizes converted to points

---
 src/font_size.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/font_size.cc b/src/font_size.cc
index 00a74cf..58710df 100644
--- a/src/font_size.cc
+++ b/src/font_size.cc
@@ -18,6 +18,7 @@
 */
 
 #include "font_size.h"
+#include <cmath>
 
 using namespace sub;
 
@@ -38,7 +39,7 @@ FontSize::points (int screen_height_in_points) const
 		return _points.get ();
 	}
 
-	return _proportional.get() * screen_height_in_points;
+	return lrint (_proportional.get() * screen_height_in_points);
 }
 
 FontSize
-- 
2.43.0


From 69de145c3b25b21ab2c03be6134316233d58834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 36/44] fix: report malformed SSA files with SSAError rather
 than ProgrammingError

---
 src/ssa_reader.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 2d2222d..a9ff7d2 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -108,7 +108,9 @@ public:
 
 		SUB_ASSERT (!keys.empty());
 		SUB_ASSERT (!style.empty());
-		SUB_ASSERT (keys.size() == style.size());
+		if (keys.size() != style.size()) {
+			throw SSAError(String::compose("Style %1 does not match its format", style_line));
+		}
 
 		for (size_t i = 0; i < style.size(); ++i) {
 			trim (keys[i]);
@@ -215,7 +217,9 @@ SSAReader::parse_time (string t) const
 {
 	vector<string> bits;
 	split (bits, t, is_any_of (":."));
-	SUB_ASSERT (bits.size() == 4);
+	if (bits.size() != 4) {
+		throw SSAError(String::compose("Badly formatted time %1", t));
+	}
 	return Time::from_hms (
 		raw_convert<int> (bits[0]),
 		raw_convert<int> (bits[1]),
@@ -279,7 +283,9 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 	} else if (boost::starts_with(tag, "\\pos")) {
 		vector<string> bits;
 		boost::algorithm::split (bits, tag, boost::is_any_of("(,"));
-		SUB_ASSERT (bits.size() == 3);
+		if (bits.size() != 3) {
+			throw SSAError(String::compose("Badly formatted position tag %1", tag));
+		}
 		sub.horizontal_position.reference = sub::LEFT_OF_SCREEN;
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
@@ -463,7 +469,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 		}
 
 		size_t const colon = line->find (":");
-		SUB_ASSERT (colon != string::npos);
+		if (colon == string::npos) {
+			throw SSAError(String::compose("Unrecognised line %1", *line));
+		}
 		string const type = line->substr (0, colon);
 		string body = line->substr (colon + 1);
 		trim (body);
@@ -480,7 +488,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 			if (type == "Format") {
 				style_format_line = body;
 			} else if (type == "Style") {
-				SUB_ASSERT (!style_format_line.empty ());
+				if (style_format_line.empty()) {
+					throw SSAError("Style given before its format");
+				}
 				Style s (style_format_line, body);
 				styles[s.name] = s;
 			}
@@ -492,7 +502,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 					trim (i);
 				}
 			} else if (type == "Dialogue") {
-				SUB_ASSERT (!event_format.empty ());
+				if (event_format.empty()) {
+					throw SSAError("Dialogue given before its format");
+				}
 				vector<string> event;
 				split (event, body, is_any_of (","));
 
@@ -506,7 +518,9 @@ SSAReader::read (function<optional<string> ()> get_line)
 				}
 
 				SUB_ASSERT (!event.empty());
-				SUB_ASSERT (event_format.size() == event.size());
+				if (event_format.size() != event.size()) {
+					throw SSAError(String::compose("Dialogue %1 does not match its format", body));
+				}
 
 				RawSubtitle sub;
 				optional<Style> style;
-- 
2.43.0


From 629b7638ebaec1b09f92dc647f9e542f2edaa4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 37/44] fix: do not copy the whole SubRip line to look for each
 tag at each character

---
 src/subrip_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 5a972e6..9e91d8d 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -231,7 +231,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 	*/
 	replace_all (t, "\xe2\x80\xab", "");
 
-	auto has_next = [](string line, size_t& index, string s) {
+	auto has_next = [](string const& line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
 		boost::to_lower(next);
-- 
2.43.0


From 1eaa773576b21e042c5ca18c5f3bc9e8f995edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:25 +0000
Subject: [PATCH 38/44] fix: ignore SSA resolutions which are not positive
 rather than dividing by them

---
 src/ssa_reader.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index a9ff7d2..f2041b1 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -478,10 +478,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 
 		switch (part) {
 		case INFO:
+			/* A resolution which is not positive means nothing */
 			if (type == "PlayResX") {
-				play_res_x = raw_convert<int> (body);
+				auto const x = raw_convert<int> (body);
+				if (x > 0) {
+					play_res_x = x;
+				}
 			} else if (type == "PlayResY") {
-				play_res_y = raw_convert<int> (body);
+				auto const y = raw_convert<int> (body);
+				if (y > 0) {
+					play_res_y = y;
+				}
 			}
 			break;
 		case STYLES:
-- 
2.43.0


From 331d96094a15786e5d8c9f3d9cfdb2b0a2532e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:17 +0000
Subject: [PATCH 39/44] fix: throw rather than writing binary STL files with
 more blocks than the format can number

---
 src/stl_binary_writer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 639a899..af88187 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -279,6 +279,15 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		/* Now make as many blocks as are needed to add all the text */
 		size_t const block_size = 112;
+		/* Extension block numbers go from 0 to 0xef, and then there is the last block */
+		size_t const max_blocks = 0xf0 + 1;
+		if (text.length() > max_blocks * block_size) {
+			for (auto j: tti) {
+				delete[] j;
+			}
+			throw STLError ("Subtitle is too long for a binary STL file");
+		}
+
 		size_t offset = 0;
 		int block_number = 0;
 		while (offset < text.length()) {
@@ -357,6 +366,14 @@ sub::write_stl_binary (
 
 	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 
+	/* There are only 5 digits for this number (and for the number of subtitles) in the header */
+	if (tti_blocks.size() > 99999) {
+		for (auto i: tti_blocks) {
+			delete[] i;
+		}
+		throw STLError ("Too many subtitles for a binary STL file");
+	}
+
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
 	/* Disk format code */
-- 
2.43.0


From af556991266ab0149a5dd7f98524165b315cdbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:47 +0000
Subject: [PATCH 40/44] fix: report failure to read a text format's source
 rather than taking it for the end

---
 src/stl_text_reader.cc | 4 ++++
 src/util.cc            | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 2a0b143..b974e15 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -21,6 +21,7 @@
 #include "compose.hpp"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
+#include <stdexcept>
 #include <vector>
 #include <iostream>
 
@@ -48,6 +49,9 @@ STLTextReader::STLTextReader (istream& in)
 	while (in.good ()) {
 		string line;
 		getline (in, line);
+		if (in.bad ()) {
+			throw std::runtime_error ("Could not read text STL file");
+		}
 		if (in.fail ()) {
 			return;
 		}
diff --git a/src/util.cc b/src/util.cc
index 294c451..a953814 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -22,6 +22,7 @@
 #include "subtitle.h"
 #include "collect.h"
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <cstdio>
@@ -84,6 +85,10 @@ sub::get_line_file (FILE* f)
 		line += static_cast<char> (c);
 	}
 
+	if (ferror (f)) {
+		throw std::runtime_error ("Could not read file");
+	}
+
 	if (line.empty ()) {
 		return optional<string> ();
 	}
-- 
2.43.0


From f777ef93b2bab4c57e67ca544c700a34c38ef66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:49 +0000
Subject: [PATCH 41/44] fix: report .stl files which cannot be opened or read
 rather than giving no subtitles

---
 src/reader_factory.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index f6bdfef..42d671d 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -24,6 +24,7 @@
 #include "sub_assert.h"
 #include <boost/algorithm/string.hpp>
 #include <fstream>
+#include <stdexcept>
 
 using std::string;
 using std::ifstream;
@@ -42,6 +43,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 		ifstream f (file_name.string().c_str ());
 		char buffer[11];
 		f.read (buffer, 11);
+		if (!f.is_open() || f.bad()) {
+			throw std::runtime_error ("Could not read " + file_name.string());
+		}
 		f.seekg (0);
 		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
-- 
2.43.0


From 608005aefa020503c478853f254e0dc291427edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:29 +0000
Subject: [PATCH 42/44] fix: read the colour of a SubRip font tag whatever the
 case of its attribute

<FONT COLOR="#ff0000"> was refused, although tags are recognised in any letter case.
---
 src/subrip_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 9e91d8d..89f7508 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -265,7 +265,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			p.underline = false;
 		} else if (has_next(t, i, "<font") || has_next(t, i, "<Font")) {
 			maybe_content (p);
-			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?");
+			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?", boost::regex::icase);
 			boost::smatch match;
 			string tag;
 			while (i < t.size() && t[i] != '>') {
@@ -290,7 +290,8 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*"
-					"\\)\""
+					"\\)\"",
+					boost::regex::icase
 					);
 				if (boost::regex_search (tag, match, re) && match.size() == 5) {
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
-- 
2.43.0


From c72566e3013eeb25f848b13602d72b67fe5ca242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:29 +0000
Subject: [PATCH 43/44] fix: keep the margin of SSA lines that override a
 vertically centred style

parse_line() ignores the margin of what ends up centred, so it must not be dropped
because of what the style says; {\an2} in a style with alignment 5 lost its margin.
---
 src/ssa_reader.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index f2041b1..ed2b70c 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -567,9 +567,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 					} else if (event_format[i] == "MarginV") {
 						auto const margin = raw_convert<float>(event[i]);
 						if (margin != 0) {
@@ -584,7 +582,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 							right_margin = margin;
 						}
 					} else if (event_format[i] == "Text") {
-						if (vertical_margin && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (vertical_margin) {
 							/* Override the style */
 							sub.vertical_position.proportional = *vertical_margin / play_res_y;
 						}
-- 
2.43.0


From 221760af804e3829047e1fbeddba3dbe102fb941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:29 +0000
Subject: [PATCH 44/44] fix: apply all the fields of an SSA event to its text,
 whatever their order

Fields that came after Text in the event format were ignored.
---
 src/ssa_reader.cc | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ed2b70c..c996101 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -535,6 +535,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 				optional<float> vertical_margin;
 				optional<int> left_margin;
 				optional<int> right_margin;
+				optional<string> text;
 
 				for (size_t i = 0; i < event.size(); ++i) {
 					trim (event[i]);
@@ -582,20 +583,25 @@ SSAReader::read (function<optional<string> ()> get_line)
 							right_margin = margin;
 						}
 					} else if (event_format[i] == "Text") {
-						if (vertical_margin) {
-							/* Override the style */
-							sub.vertical_position.proportional = *vertical_margin / play_res_y;
-						}
-						auto context = Context(
-							play_res_x,
-							play_res_y,
-							style ? style->primary_colour : Colour(1, 1, 1),
-							left_margin.get_value_or(style ? style->left_margin : 0),
-							right_margin.get_value_or(style ? style->right_margin : 0)
-							);
-						for (auto j: parse_line(sub, event[i], context)) {
-							_subs.push_back (j);
-						}
+						text = event[i];
+					}
+				}
+
+				/* Now we have seen everything that the text can depend on, whatever the order of the format */
+				if (text) {
+					if (vertical_margin) {
+						/* Override the style */
+						sub.vertical_position.proportional = *vertical_margin / play_res_y;
+					}
+					auto context = Context(
+						play_res_x,
+						play_res_y,
+						style ? style->primary_colour : Colour(1, 1, 1),
+						left_margin.get_value_or(style ? style->left_margin : 0),
+						right_margin.get_value_or(style ? style->right_margin : 0)
+						);
+					for (auto j: parse_line(sub, *text, context)) {
+						_subs.push_back (j);
 					}
 				}
 			}
-- 
2.43.0


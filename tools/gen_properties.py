#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Collecting raw fragments loses, invents and reorders nothing",
  "Collecting raw subtitle fragments yields subtitles in non-decreasing start time whose blocks, read in order, are exactly the input fragments stably ordered by start time, each with its text and all its style attributes unchanged. Neighbouring fragments share a subtitle exactly when start, end and both fades agree, and share a line of it exactly when their vertical positions also agree; a line carries the positions of its first fragment, and no empty subtitle or line appears. This holds for any result container.",
  ["inputs", "histories"], "every finite sequence of fragments, in every arrival order, with ties in start time and any mix of frame rates",
  "The only tests that collect use one hand-made file each; ties, interleavings and multi-line grouping are never permuted.",
  ["src/collect.h", "src/subtitle.cc", "src/raw_subtitle.cc", "src/vertical_position.cc"],
  [("stable sort by start then single grouping pass", "src/collect.h collect()"), ("metadata equality", "src/subtitle.cc same_metadata()")],
  [("current", "the subtitle being extended", "src/collect.h")], ["result of collect()"])

p("C02", "Time comparison is a consistent total order by instant",
  "For times that both have a frame rate (the same or different) and frames below it, exactly one of less, equal and greater holds, it agrees with comparing the exact instants in seconds, and inequality is the negation of equality; the order is therefore transitive across rates. Times without a rate compare by seconds then frames, and an order or equality that would need an unknown rate is refused with an error rather than guessed (ordering by whole seconds alone is still answered).",
  ["inputs"], "every pair and triple of times with non-negative seconds and frames below the rate, for every pair of frame rates including fractional ones",
  "The operator test uses a handful of same-rate pairs; cross-rate pairs and transitivity need all combinations.",
  ["src/sub_time.cc", "src/rational.cc"], [("cross multiplication by rates", "src/sub_time.cc operator<,>,==,!=")])

p("C03", "Time arithmetic and accessors keep the instant and stay normalised",
  "Hours, minutes and seconds decompose a time exactly, conversion of its frames to another rate is the nearest integer (milliseconds are that at 1000), and building a time from a frame count at an integer rate gives back that count. Adding two times gives the exact sum (to half a frame of the higher of the two rates, which must be an integer, after reading each operand to the millisecond) and scaling a time at an integer rate gives the scaled instant to the nearest frame (after reading it to the millisecond); both results are normalised (frames below the rate).",
  ["inputs"], "every time, integer rate and scale factor in range; every pair of rates for addition",
  "Tests check about twenty sums and four scalings; carries at second, minute and hour boundaries and rounding at every millisecond are not sampled.",
  ["src/sub_time.cc", "src/rational.cc", "src/rational.h"],
  [("from_frames / add / scale / frames_at", "src/sub_time.cc")])

p("C04", "SubRip: every cue becomes rows with its times, in file order",
  "Reading a SubRip file yields, for each cue in order, its text rows with the start and end time written on the cue's timing line, and with row numbers that start again at 0 in each cue and increase by one per text line or Unicode line separator. Line endings, blank lines between cues, a byte order mark, trailing spaces and coordinates on the timing line, and the absence of a final newline change nothing; no row leaks between cues and style never carries from one cue to the next.",
  ["inputs", "histories"], "every sequence of lines (blank, counter, timing, text, separators) of every length",
  "Six sample files exercise a few shapes; the reader is a state machine whose behaviour over all line sequences is not enumerated.",
  ["src/subrip_reader.cc", "src/util.cc"], [("COUNTER/METADATA/CONTENT state machine", "src/subrip_reader.cc read()"), ("time parsing", "src/subrip_reader.cc convert_time()")],
  [("state", "which kind of line is expected", "src/subrip_reader.cc read()")], ["Reader::subtitles()"])

p("C05", "SubRip: inline markup changes style only, never the text",
  "Within a SubRip cue the emitted fragments, concatenated, are exactly the text with recognised markup and U+202B removed; every character carries the bold, italic, underline, colour and screen-alignment state set by the tags before it in the same cue, in either bracket style and any letter case. A closing font tag restores the colour of the enclosing font tag (white if there is none), surplus or missing closing tags are harmless, unrecognised tags stay as text, and no empty fragment is emitted.",
  ["inputs"], "every string over text and tags, nested, repeated, unclosed, unmatched, adjacent or spanning lines",
  "One test feeds a few dozen fixed lines; nesting, unmatched closers and state carried over lines are combinatorial.",
  ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/colour.cc"], [("tag scanner and colour stack", "src/subrip_reader.cc convert_line()"), ("brace override tags", "src/ssa_reader.cc parse_tag()")])

p("C06", "Malformed SubRip/WebVTT is reported at the right place, never half-read",
  "If a SubRip timing line, time or font colour (or a WebVTT timing line or time) cannot be understood, reading fails with the format's error, which quotes the offending text and what was expected, carries up to the last five lines read (plus up to two following ones for a bad timing line) as context and, for SubRip, the number of the offending line; a WebVTT file whose first line does not announce the format is refused. An input without such a fault is never refused, and no input makes the reader crash, hang or fail in any other way.",
  ["inputs", "histories"], "every line sequence, with the fault at every position, from string and file sources",
  "Two tests look at one line number and one message; the error location depends on the whole history of lines.",
  ["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/exceptions.cc"], [("context queue and line counter", "src/subrip_reader.cc read(), src/web_vtt_reader.cc read()"), ("expected-value reporting", "src/subrip_reader.cc convert_time()")])

p("C07", "WebVTT: cues are read, notes and metadata are skipped",
  "Reading a WebVTT file yields for each cue, in order, its text lines verbatim with the cue's times and with row numbers starting at 0 in each cue. Header text, cue identifiers, NOTE blocks (up to the next blank line) and other lines outside cues contribute nothing and never swallow or alter a cue; line endings, byte order mark and a missing final newline change nothing.",
  ["inputs", "histories"], "every sequence of header, note, identifier, timing, text and blank lines",
  "One fixed file is tested.",
  ["src/web_vtt_reader.cc", "src/subrip_reader.cc"], [("HEADER/DATA/SUBTITLE/NOTE state machine", "src/web_vtt_reader.cc read()")])

p("C08", "SSA/ASS: sections, formats and styles resolve to the right event values",
  "Each Dialogue line becomes fragments carrying its start and end times and the font, size, colours, weight, slant, underline and effect of the style it names (leading asterisks ignored, falling back to Default, or to plain white text if neither exists), with fields assigned by the Format line whatever its column order and with commas inside the text preserved. Comment lines, other event kinds, unknown sections, unknown keys and whitespace around fields have no effect, and each style or event line sees the definitions that precede it.",
  ["inputs", "histories"], "every sequence of section, format, style and event lines, every column order with the text last and the style before it",
  "Three sample files; interactions between format order, style lookup and sections are not enumerated.",
  ["src/ssa_reader.cc"], [("section/format/style state", "src/ssa_reader.cc read(), Style::Style()")])

p("C09", "SSA/ASS: override tags split text and affect only what follows",
  "Within an event's text the fragments, concatenated, are exactly the text with override blocks and backslash escapes (line breaks and any other escaped character) removed; each fragment carries the style with the overrides that precede it in that event applied (bold, italic, underline, colour, colour reset to the style's colour, font size, alignment, position). Tags that are not understood, including ones whose name merely begins like a known one, change nothing, no empty fragment is emitted, and nothing carries over to the next event.",
  ["inputs"], "every sequence of text, override tags (one or several per block) and line breaks",
  "About thirty fixed lines are tested; combinations and unknown tags with known prefixes are not.",
  ["src/ssa_reader.cc"], [("TEXT/TAG/BACKSLASH scanner", "src/ssa_reader.cc parse_line()"), ("tag interpretation", "src/ssa_reader.cc parse_tag()")])

p("C10", "SSA/ASS: screen positions follow alignment, margins and line breaks",
  "Every fragment's horizontal reference and offset follow the alignment in force and the left/right margins as fractions of the script's resolution, with a non-zero event margin overriding the style's. Its vertical offset starts from the margin (ignored when vertically centred), moves by 1.2 font sizes per line break (up or down as the alignment is there), counts back from the bottom for bottom alignment so that the last line sits on the margin, is centred for middle alignment, and an explicit position replaces both offsets, measured from the top left of the screen (a vertical margin is still added). Alignment is numbered as on a numeric keypad, and resolutions that are not positive are ignored.",
  ["inputs", "configurations"], "every alignment, margin pair, script resolution, font size, number of breaks, and every override in between",
  "Tests sample some margins and one position at one resolution.",
  ["src/ssa_reader.cc"], [("update_horizontal_position, vertical fix-up pass", "src/ssa_reader.cc")])

p("C11", "Text STL: every normal line becomes styled rows; junk is skipped",
  "Reading a text STL file yields for every well-formed subtitle line its text between the style toggles and row separators, with the line's times, with bold, italic and underline equal to the state toggled so far, with row numbers counting the separators from 0 in each line, and with the font name and size last set. Comment lines and lines that cannot be understood (including malformed numbers) are skipped without affecting any other line, the last line counts even without a newline, and spacing around the times does not matter.",
  ["inputs", "histories"], "every sequence of comment, variable, subtitle and malformed lines and every interleaving of toggles and separators",
  "One sample file; toggles combined with row separators never occur in it.",
  ["src/stl_text_reader.cc"], [("line dispatch and toggle scanner", "src/stl_text_reader.cc")],
  [("_subtitle", "style carried from line to line", "src/stl_text_reader.h")])

p("C12", "Binary STL reading: every block yields its text, times, style and position",
  "Reading a binary STL file yields, for every text block not marked as a comment and in order, the decoded text up to the end mark of each row (text continued in extension blocks being one text), with the block's in and out times, justification and row positions, and with the colour, italic and underline codes applied to the text that follows them (colour until the row ends, italic and underline until the block ends). The header fields are reported exactly as stored and described by their code tables, and positions are shifted by one common amount when rows would leave the screen.",
  ["inputs"], "every header field value and every block content over the control codes, row breaks, end marks and characters",
  "The one reading test loads a private file (not available here) and the writer test covers a single file; control-code sequences are unbounded.",
  ["src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/stl_util.cc"], [("block loop", "src/stl_binary_reader.cc read()"), ("metadata report", "src/stl_binary_reader.cc metadata()")])

p("C13", "Binary STL writing: the file is well formed and counts itself correctly",
  "For every list of subtitles, the written file is a 1024-byte header followed by exactly as many 128-byte blocks as the header announces, with every fixed-width header field holding its value padded to width, the number of subtitles and the longest row (in characters, capped at 99) counted correctly. Every subtitle occupies consecutive blocks numbered from 0 with 255 on the last, each repeating its valid time codes (frames below the rate), top row, justification and comment flag; the text is terminated and padded with end marks, styles are switched off before the end, and the same input always gives the same bytes. Subtitles for which the format has no room (more than 241 blocks in one subtitle, 99999 in all) are refused with an error instead.",
  ["inputs", "configurations"], "every subtitle list (at least one line per subtitle, rows on screen, hours below 24), up to and beyond the numbers of blocks that the format can count, and every title/credit string within its width",
  "One reference file is compared byte for byte; lengths around block boundaries, carries in time codes and counts over 99 are not sampled.",
  ["src/stl_binary_writer.cc", "src/stl_util.cc", "src/stl_binary_tables.cc"], [("header and block layout", "src/stl_binary_writer.cc write_stl_binary(), make_tti_blocks()")])

p("C14", "Binary STL round trip: what is written is what is read back",
  "Writing subtitles to a binary STL file and reading it back gives the same characters, italic and underline per character, row order and row spacing, times to the frame and justification, for all text made of characters the format can carry; and the descriptive header fields come back as they were given. Reading, collecting and writing a subtitle file of another format preserves these in the same way.",
  ["inputs"], "every subtitle list with encodable text, at each supported frame rate, with times within 24 hours and lines on distinct on-screen rows in top-down order",
  "The writer test never reads its file back.",
  ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/iso6937.cc"], [("block writer / reader agreement", "src/stl_binary_writer.cc, src/stl_binary_reader.cc")])

p("C15", "ISO 6937 conversion is exact, total and history independent",
  "Decoding maps every ISO 6937 code and accent-plus-letter pair assigned in the EBU STL table to the Unicode character it stands for (a NUL ends the text), and encoding is its right inverse: every character so reachable encodes to bytes that decode to it again, dashes, hyphens, prime and low quote get their documented substitutes, and any other character is dropped. No byte string or character string crashes either direction or yields a NUL, a result never depends on earlier conversions, and conversion distributes over concatenation at character boundaries.",
  ["inputs", "histories"], "every byte string and every Unicode string, in every order of calls",
  "Two tests convert a few strings; the table has over 300 entries and unassigned codes behave specially.",
  ["src/iso6937.cc", "src/iso6937_tables.cc"], [("tables and accent state", "src/iso6937.cc, src/iso6937_tables.cc")])

p("C16", "The source of the bytes does not matter; files are dispatched by content",
  "The same bytes give the same subtitles (or the same error) whether read from memory, from a file or through the file-name based entry point, whatever the length of lines and presence of a final newline. The entry point picks the reader by extension in any letter case (.srt or .stl) and, for .stl, by whether a complete disk format code says it is binary; it answers with no reader for other extensions, and leaves no file open, even on error.",
  ["inputs", "configurations"], "every input and every split of it into lines of any length; every file name",
  "Tests read each sample from one source; no sample has a line near an internal buffer size.",
  ["src/util.cc", "src/reader_factory.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_binary_reader.cc"], [("line sources", "src/util.cc get_line_string(), get_line_file()"), ("dispatch", "src/reader_factory.cc")])

p("C17", "The dump shows every subtitle, line and style change",
  "Dumping a reader prints its metadata, then every collected subtitle numbered from 0 with its times, then each of its lines once with its position (a row number only where the number of rows is known) and its full text in order. Italic and underline markers open and close exactly where the style changes between blocks and are balanced on every line.",
  ["inputs"], "every reader content: positions of each kind, style sequences of any length",
  "No test looks at the dump.",
  ["src/util.cc", "tools/dumpsubs.cc", "src/sub_time.cc"], [("dump()", "src/util.cc")])

p("C18", "Results do not depend on the process locale",
  "Reading any format, converting characters, writing binary STL and dumping give byte-for-byte the same results whatever the C locale in force, in particular one whose decimal mark is a comma and whose thousands separator is a full stop.",
  ["configurations", "inputs"], "every input under every locale's decimal mark and thousands separator",
  "Tests run in one locale.",
  ["src/raw_convert.cc", "src/locale_convert.cc", "src/stl_binary_writer.cc", "src/ssa_reader.cc"], [("make_local / make_raw", "src/raw_convert.cc")])

p("C19", "STL code tables are faithful, one-to-one and strict",
  "Every language, language group, display standard, timecode status, justification, cumulative status and comment code of the EBU format maps to its own meaning and description; writing a language and reading it back gives the same language, and descriptions find their language again. A code that is not in the table is refused with the format's error, and disk format codes and frame rates map to each other consistently.",
  ["inputs"], "every code value of every table, assigned or not, and every frame rate",
  "No test looks at the tables.",
  ["src/stl_binary_tables.cc", "src/stl_binary_tables.h", "src/stl_util.cc"], [("code maps", "src/stl_binary_tables.cc")])

p("C20", "Truncated input and failing output are never passed off as success",
  "A binary STL file cut short at any byte, or with too few blocks, is refused with the format's error; one with surplus bytes reads as if they were absent. A source of any format which cannot be opened, or whose device fails before all that is needed has been read, is reported as an error and never read as if it ended there; how the device portions its contents does not matter. If writing a binary STL file cannot be completed because the file cannot be opened or the device runs out of space at any byte, the writer reports an error, and if it returns normally the whole file is on disk, replacing any previous content.",
  ["crash_points", "fault_sequences"], "every truncation offset of the input, every failing byte offset of any source and of the output",
  "Tests never inject a short or failing read or a failing write.",
  ["src/stl_binary_reader.cc", "src/stl_text_reader.cc", "src/util.cc", "src/reader_factory.cc", "src/stl_binary_writer.cc"], [("size checks on read", "src/stl_binary_reader.cc InputReader"), ("source state on read", "src/util.cc get_line_file(), src/stl_text_reader.cc STLTextReader(), src/reader_factory.cc"), ("stream state on write", "src/stl_binary_writer.cc write_stl_binary()")])

p("C21", "Concurrent conversions give the sequential results",
  "Any number of threads may use independent readers, writers and conversions at once, including for the very first time in the process: each gets exactly the result it would get alone, with no data race, deadlock or crash.",
  ["schedules"], "every interleaving of the first and later conversions of two or more threads",
  "All tests are single threaded.",
  ["src/iso6937.cc", "src/iso6937_tables.cc"], [("one-time table construction", "src/iso6937.cc")])

p("C22", "Position, font-size and colour values mean what they say",
  "A vertical position's fraction from the top of the screen follows its reference point and value, two positions given the same way are equal exactly when reference and numbers are the same, and the order of positions follows that fraction (a row number of so many rows and a row number without them are not the same way). Font sizes convert between points and proportion of screen height consistently, a size unspecified stays unspecified, colours parse from six or eight hex digits with alpha ignored, rational numbers say exactly whether they are whole and which is the larger, and value equality of positions, colours and subtitles is reflexive on specified values, symmetric and sensitive to every field.",
  ["inputs"], "every combination of reference, line, lines and proportion; every size, height, colour and rational",
  "One test evaluates a few fractions.",
  ["src/rational.cc", "src/vertical_position.cc", "src/horizontal_position.cc", "src/font_size.cc", "src/colour.cc", "src/subtitle.cc", "src/effect.cc", "src/vertical_reference.cc"], [("value types", "the files listed")])

p("C23", "Readers are total: arbitrary bytes end in subtitles or a documented error",
  "For arbitrary bytes, each reader terminates and either returns subtitles or raises one of the library's error types (for formats that skip what they do not understand, it returns); it never crashes, hangs, reads outside its input or lets an unrelated exception escape. Whatever it returns satisfies the format's output discipline: no empty text from SubRip, SSA and text STL, rows numbered from 0, and attributes the format cannot express left at their documented defaults, positions finite. What a line-based reader reports for the first lines of a file does not depend on the lines after them.",
  ["inputs"], "every byte string, valid or not, for every reader",
  "Tests feed well-formed samples and a few malformed ones.",
  ["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc"], [("each reader's state machine", "the files listed")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

level("C04", "The SubRip line machine (spec/SubRip.tla) is checked by TLC against a declarative reading of the file on every file of up to 4 (quick) or 5 (thorough) lines over 12 line shapes and up to 8/10 lines over 4; each is replayed into the real reader. Random larger files are read by the code and the machine. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C05", "The markup scanner (spec/SubRip.tla) is checked by TLC against a declarative account of each character's style on every text of up to 4 to 7 chunks from three alphabets; each is replayed into the real reader. Random marked-up files are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C06", "The line machines of SubRip and WebVTT are checked by TLC for stopping at the first fault with its line number and context; every enumerated file, faulty or not, is replayed, and random faulty files are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C07", "The WebVTT line machine is checked by TLC against a declarative reading by blocks on every file of up to 4/5 lines over 15 line shapes and up to 7/9 lines over 5; each is replayed. Random larger files are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C01", "The collecting machine (spec/Collect.tla) is checked by TLC against a declarative account (order, nothing lost, boundaries) on every list of up to 4/5 fragments of 13 shapes of times, fades and positions; each is replayed through three containers, and random lists are validated as traces. Lists of hundreds of fragments are among them.")
level("C02", "spec/SubTime.tla's exact order is checked by TLC (trichotomy, antisymmetry, transitivity over triples) on about 270 times at nine rates and without one; every pair is put to the real operators, and random pairs are validated.")
level("C03", "Recorded accessor, conversion and arithmetic calls, over every frame of a second at 13 rates and random times, are validated against the relations of spec/SubTime.tla in exact integer arithmetic.")
level("C08", "The SSA line machine (spec/SSA.tla) is checked by TLC against a declarative resolution of sections, formats and styles on four beginnings continued by every sequence of 3/4 lines of 17 shapes; each file is replayed. Random larger files (column orders, colours, noise, odd lines) and small changes to a small file are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C09", "The override-tag scanner (spec/SSA.tla) is checked by TLC against a declarative account of each character's style on every text of up to 4/5 chunks; each is replayed into the real reader, and so is every tag of up to 3/4 characters of 25 and everything one edit away from 15 known tags (MCTags). Random marked-up events and small changes to a small file are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C10", "The position arithmetic of spec/SSA.tla is checked by TLC against a declarative placement for every alignment, margin choice and text of up to 4/5 chunks in exact units of 1/20 pixel; each is replayed. Random files are validated as traces. Texts of dozens of rows are among them.")
level("C11", "The text STL machine (spec/STLText.tla) is checked by TLC against a declarative account of each character (style toggled so far, row, times, font) on every file of up to 4/5 chunks of 17 kinds and 6/7 of 6; each is replayed from a stream or through the factory. Random files and small changes to a small file are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C12", "The binary STL block machine (spec/STLBinary.tla) is checked by TLC against a declarative account of each character on every list of blocks of up to 3/4 chunks of 16 kinds and longer over 5-6 kinds, and headers with every code; each is replayed. Random files (faulty ones and chains of up to 241 blocks too) are validated as traces. Files with hundreds of one thing (checks/scale.py) are among them.")
level("C15", "The ISO 6937 byte machine (spec/ISO6937.tla, tables of the standard) is checked by TLC for its laws; every byte string up to 2/3 bytes and longer over 23 kinds, every character alone (to U+2FFF quick, all in thorough) and histories from a fresh process are replayed; random histories are validated as traces.")
level("C19", "The code tables of EBU Tech 3264 (spec/STLTables.tla) are checked by TLC for being one-to-one and strict; every code, meaning and description, and all one-byte and 1296/65536 two-byte codes, are looked up in the real tables.")
level("C13", "spec/STLBinary.tla says what a well formed file is and specifies a writer, which TLC checks on every list of subtitles of up to 3/4 chunks of 13 kinds (4/6 of 5, 3/5 of long ones); each job, random ones, and ones up to and beyond the most blocks that can be numbered (241 in a subtitle, 99999 in a file), is given to the real writer and its file is validated byte for byte as a trace against the well-formedness predicate.")
level("C14", "TLC checks the round trip of the specified writer and reader on the same enumerated jobs; each, random jobs, and random SubRip, WebVTT and SSA files read and collected, is written and read back by the real code and validated against the round-trip predicate (times, rows and ties by exact arithmetic).")
level("C16", "spec/Sources.tla splits bytes into lines, reads the extension and the disk format code and says which reader answers; TLC checks this against declarative definitions on every byte string of up to 5/6 bytes and every enumerated name and head. The splits and dispatches are replayed, and the same random bytes are read from memory, file and factory by the real code and the results (with exact error contexts) validated as traces.")
level("C17", "spec/Dump.tla is a machine printing a dump; TLC checks on every list of styled blocks that markers are balanced on each line, open and close exactly at style changes and lose no text. Every enumerated content is dumped by the real code and compared byte for byte, and random readers, and what the dumpsubs tool prints for files, are validated as traces. Contents of hundreds of fragments are among them.")
level("C18", "spec/Locale.tla specifies numbers under a locale's marks; TLC checks that the value read is what the text means on every text of up to 4/5 chunks of 8 kinds under 6 locales. Each is read by the real code under each locale (compiled for the check, one with an invented mark), and random files of every format, jobs, conversions and dumps are run under C and other locales and the results validated as traces.")
level("C20", "spec/Faults.tla specifies fetching from a file that may be short, a reader of a device that hands over its contents in portions and may fail at any of them, and a buffered writer on a device whose write calls take all, take half or fail; TLC checks every length, script, buffer and capacity (no success without the whole file; refused exactly if something is missing). Every truncation of files of up to 2/4 blocks, every capacity in bytes, every script of up to 3/4 outcomes (with an interposed write) and unusable paths are replayed; sources of every format are read, through each entry point, from a device failing at each byte (an interposed read and fopen); random cut or mislabelled files are validated as traces.")
level("C21", "spec/Concurrent.tla specifies threads which make shared tables once and then look things up; TLC checks every schedule for results equal to those alone, no double or partial making, no deadlock, and termination. Every schedule of up to 5/7 turns is replayed on real threads (controlled at every allocation), as are a stop at every allocation of a first conversion and random schedules; jobs of all kinds are let loose under ThreadSanitizer; all validated as traces.")
level("C22", "spec/Values.tla gives positions, sizes, colours and rationals as exact fractions; TLC checks laws of equality, order and conversion on every pair of enumerated values and every pair of subtitles differing in one field; each pair is put to the real operators, and random values are validated as traces.")
level("C23", "spec/Total.tla says what each reader may give or raise and that what was read does not depend on later lines; TLC checks both of the specified readers on every text of up to 3/4 chunks, whole or broken, from 13-17 kinds after 2-3 beginnings; each is replayed exactly. Every deletion, cut, repetition and sampled (all, in thorough) changed or inserted byte of a small file of each of the 5 formats is validated exactly, and arbitrary bytes (with cuts at line ends) against the totality predicates, under sanitizers.")

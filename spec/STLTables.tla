------------------------------ MODULE STLTables ------------------------------
(* The code tables of EBU Tech 3264: what each code means.  Meanings are         *)
(* numbered in the order in which the standard lists their codes.                 *)
EXTENDS Bytes

Table(rows) == TLCEval([i \in 1..Len(rows) |-> [code |-> B(rows[i][1]), desc |-> B(rows[i][2])]])

Languages == Table(<<
    <<"00", "Unknown">>,
    <<"01", "Albanian">>,
    <<"02", "Breton">>,
    <<"03", "Catalan">>,
    <<"04", "Croatian">>,
    <<"05", "Welsh">>,
    <<"06", "Czech">>,
    <<"07", "Danish">>,
    <<"08", "German">>,
    <<"09", "English">>,
    <<"0A", "Spanish">>,
    <<"0B", "Esperanto">>,
    <<"0C", "Estonian">>,
    <<"0D", "Basque">>,
    <<"0E", "Faroese">>,
    <<"0F", "French">>,
    <<"10", "Frisian">>,
    <<"11", "Irish">>,
    <<"12", "Gaelic">>,
    <<"13", "Galacian">>,
    <<"14", "Icelandic">>,
    <<"15", "Italian">>,
    <<"16", "Lappish">>,
    <<"17", "Latin">>,
    <<"18", "Latvian">>,
    <<"19", "Luxemborgian">>,
    <<"1A", "Lithuanian">>,
    <<"1B", "Hungarian">>,
    <<"1C", "Maltese">>,
    <<"1D", "Dutch">>,
    <<"1E", "Norwegian">>,
    <<"1F", "Occitan">>,
    <<"20", "Polish">>,
    <<"21", "Portugese">>,
    <<"22", "Romanian">>,
    <<"23", "Romansh">>,
    <<"24", "Serbian">>,
    <<"25", "Slovak">>,
    <<"26", "Slovenian">>,
    <<"27", "Finnish">>,
    <<"28", "Swedish">>,
    <<"29", "Turkish">>,
    <<"2A", "Flemish">>,
    <<"2B", "Wallon">>,
    <<"7F", "Amharic">>,
    <<"7E", "Arabic">>,
    <<"7D", "Armenian">>,
    <<"7C", "Assamese">>,
    <<"7B", "Azerbaijani">>,
    <<"7A", "Bambora">>,
    <<"79", "Bielorussian">>,
    <<"78", "Bengali">>,
    <<"77", "Bulgarian">>,
    <<"76", "Burmese">>,
    <<"75", "Chinese">>,
    <<"74", "Churash">>,
    <<"73", "Dari">>,
    <<"72", "Fulani">>,
    <<"71", "Georgian">>,
    <<"70", "Greek">>,
    <<"6F", "Gujarati">>,
    <<"6E", "Gurani">>,
    <<"6D", "Hausa">>,
    <<"6C", "Hebrew">>,
    <<"6B", "Hindi">>,
    <<"6A", "Indonesian">>,
    <<"69", "Japanese">>,
    <<"68", "Kannada">>,
    <<"67", "Kazakh">>,
    <<"66", "Khmer">>,
    <<"65", "Korean">>,
    <<"64", "Laotian">>,
    <<"63", "Macedonian">>,
    <<"62", "Malagasay">>,
    <<"61", "Malaysian">>,
    <<"60", "Moldavian">>,
    <<"5F", "Marathi">>,
    <<"5E", "Ndebele">>,
    <<"5D", "Nepali">>,
    <<"5C", "Oriya">>,
    <<"5B", "Papamiento">>,
    <<"5A", "Persian">>,
    <<"59", "Punjabi">>,
    <<"58", "Pushtu">>,
    <<"57", "Quechua">>,
    <<"56", "Russian">>,
    <<"55", "Ruthenian">>,
    <<"54", "Serbo Croat">>,
    <<"53", "Shona">>,
    <<"52", "Sinhalese">>,
    <<"51", "Somali">>,
    <<"50", "Sranan Tongo">>,
    <<"4F", "Swahili">>,
    <<"4E", "Tadzhik">>,
    <<"4D", "Tamil">>,
    <<"4C", "Tatar">>,
    <<"4B", "Telugu">>,
    <<"4A", "Thai">>,
    <<"49", "Ukranian">>,
    <<"48", "Urdu">>,
    <<"47", "Uzbek">>,
    <<"46", "Vietnamese">>,
    <<"45", "Zulu">> >>)

DisplayStandards == Table(<<
    <<" ", "Undefined">>, <<"0", "Open subtitling">>, <<"1", "Level 1 teletext">>, <<"2", "Level 2 teletext">> >>)

LanguageGroups == Table(<<
    <<"00", "Latin">>, <<"01", "Latin/Cyrillic">>, <<"02", "Latin/Arabic">>, <<"03", "Latin/Greek">>,
    <<"04", "Latin/Hebrew">>, <<"U8", "UTF-8">> >>)

TimecodeStatuses == Table(<< <<"0", "Not intended for use">>, <<"1", "Intended for use">> >>)

\* codes 0, 1, 2 ... that are single bytes
Numbered(descs) == TLCEval([i \in 1..Len(descs) |-> [code |-> <<i - 1>>, desc |-> B(descs[i])]])

CumulativeStatuses == Numbered(<<
    "Not part of a cumulative set", "First subtitle of a cumulative set", "Intermediate subtitle of a cumulative set",
    "Last subtitle of a cumulative set">>)

Justifications == Numbered(<<"No justification", "Left justification", "Centre justification", "Right justification">>)

Comments == Numbered(<<"Not a comment", "Is a comment">>)

\* the meaning of a code: 0, 1 ... or -1 if it is not in the table
Meaning(table, code) ==
    IF \E i \in 1..Len(table) : table[i].code = code THEN (CHOOSE i \in 1..Len(table) : table[i].code = code) - 1 ELSE -1
CodeFor(table, m) == table[m + 1].code
Description(table, m) == table[m + 1].desc
Described(table, d) ==
    IF \E i \in 1..Len(table) : table[i].desc = d THEN (CHOOSE i \in 1..Len(table) : table[i].desc = d) - 1 ELSE -1

\* disk format codes: frames per second as <<thousandths, exact rate>> ...
DFCs == << [code |-> B("STL23.01"), mhz |-> 23976, rate |-> <<24000, 1001>>, frames |-> 24, field |-> 23],
           [code |-> B("STL24.01"), mhz |-> 24000, rate |-> <<24, 1>>, frames |-> 24, field |-> 24],
           [code |-> B("STL25.01"), mhz |-> 25000, rate |-> <<25, 1>>, frames |-> 25, field |-> 25],
           [code |-> B("STL30.01"), mhz |-> 30000, rate |-> <<30, 1>>, frames |-> 30, field |-> 30] >>
DFCOf(code) == IF \E i \in 1..Len(DFCs) : DFCs[i].code = code THEN CHOOSE i \in 1..Len(DFCs) : DFCs[i].code = code ELSE 0
\* ... and the code to write for a rate
DFCFor(mhz) == IF \E i \in 1..Len(DFCs) : DFCs[i].mhz = mhz THEN CHOOSE i \in 1..Len(DFCs) : DFCs[i].mhz = mhz ELSE 3
==============================================================================

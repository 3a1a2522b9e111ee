#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Text values survive printing and parsing unchanged",
 "For every text value without ASCII control characters (newline and tab excepted), printing a card that holds it in a text property (FN, NOTE, NICKNAME, EMAIL, TITLE, ROLE, PRODID, XML, a text extension ...) and parsing the printed card gives back exactly the same text. Backslash, comma, semicolon and newline are escaped on output and exactly the escapes \\\\, \\, \\; \\n \\N are undone on input; every other character is passed through untouched.",
 ["inputs"],"all text values of any length and any mix of escapes, delimiters and non-ASCII characters, in every text property",
 "tests round trip a few dozen short literal strings; interactions of runs of backslashes, escapes at the ends and around multi-byte characters are unbounded",
 ["src/lib.rs","src/parser.rs","src/property.rs","src/vcard.rs"],
 [("escape_value","src/lib.rs"),("VcardParser::parse_property_value","src/parser.rs"),("TextProperty Display","src/property.rs"),("content_line","src/vcard.rs")],
 observe=["Vcard Display","parse"])
p("C02","Line folding is lossless and bounded, and accepted anywhere on input",
 "Every physical line of a printed card is at most 75 bytes long (line break excluded) unless it consists of one user-perceived character that is itself longer, a fold never splits such a character, and removing each CRLF-plus-space gives back the unfolded content line byte for byte. On input, a line break followed by a space or a tab is removed wherever it occurs before anything else is interpreted, so a document folded anywhere parses to the same result as the unfolded one.",
 ["inputs"],"all cards printed, all line lengths and character widths; all source texts and all fold positions",
 "tests fold two fixed long values; where a fold lands depends on every byte before it",
 ["src/vcard.rs","src/parser.rs"],[("fold_line","src/vcard.rs"),("content_line","src/vcard.rs"),("unfold","src/parser.rs")],observe=["Vcard Display","parse","iter"])
p("C03","No input makes the library panic or loop forever",
 "Parsing (strict or loose, whole or iterated), every public helper and FromStr, validating, extracting photos and printing return normally - with a value or an error - for every UTF-8 input and every card. Every parse consumes input and therefore terminates.",
 ["inputs"],"all UTF-8 source strings, both modes, all cards that can be built through the public types",
 "a fuzz-style test samples inputs; slicing at arbitrary byte offsets, arithmetic on spans and loops driven by the tokenizer have to be right for all of them",
 ["src/parser.rs","src/helper.rs","src/iter.rs","src/lib.rs","src/property.rs","src/parameter.rs","src/vcard.rs"],
 [("span slicing in parse_property_value / parse_parameter_value / parse_property","src/parser.rs"),("list printing loops","src/helper.rs"),("DateAndOrTime::from_str","src/property.rs"),("TypeParameter::from_str","src/parameter.rs")],observe=["parse","parse_loose","iter","Display","FromStr"])
p("C04","Iterating gives the same cards as parsing the whole document",
 "When a document parses as a whole, iterating over it in the same mode yields exactly the same cards in the same order and then ends; newlines before, between and after cards are ignored by both. When a card is malformed the iterator reports one error for it, continues after that card's END:VCARD line (or ends at the end of the source), and always reaches the end after finitely many items; converting a string to a card gives the first item of the iteration.",
 ["inputs","histories"],"all source texts, both modes, any number and order of good and bad cards, any number of next() calls",
 "tests iterate over two fixed documents; agreement concerns every split of every document and repeated calls after errors",
 ["src/iter.rs","src/parser.rs","src/vcard.rs"],[("VcardIterator::next","src/iter.rs"),("VcardParser::parse","src/parser.rs"),("Vcard::try_from","src/vcard.rs")],
 state=[("offset","byte offset of the unread rest of the unfolded source","src/iter.rs")],observe=["iter","parse","Vcard::try_from"])
p("C05","Every card handed out by the parser is valid",
 "Every card returned by parse, parse_loose, an iterator or the string conversion has at least one FN and, if it has any MEMBER, a KIND of group; validate accepts exactly the cards for which both hold. A second KIND, N, BDAY, ANNIVERSARY, GENDER, PRODID, REV or UID line is an error and never replaces or duplicates the first.",
 ["inputs"],"all source texts and all cards",
 "tests check one or two cards per rule; the rule must survive every order and combination of properties",
 ["src/vcard.rs","src/parser.rs","src/iter.rs"],[("Vcard::validate","src/vcard.rs"),("VcardParser::parse","src/parser.rs"),("OnlyOnce guards in parse_property_by_name","src/parser.rs"),("VcardIterator::parse_next","src/iter.rs")],observe=["parse","parse_loose","iter","Vcard::validate"])
p("C06","Each property line lands in its own field and nowhere else",
 "A successfully parsed property line appends (or, for single-valued properties, sets) exactly one entry in the field that corresponds to its name, compared case-insensitively, with the value decoded in the type that field and the VALUE parameter prescribe, and with exactly the group prefix and the parameters written on that line; no other field changes and earlier entries keep their order. Names starting with X- go to the extension list with their name as written, and any other unknown name is an error.",
 ["inputs"],"all property names, letter cases, groups, parameter lists, values and prior card contents",
 "tests parse each property once in isolation; they do not see a second field being touched, an entry reordered or a group or parameter lost when combined",
 ["src/parser.rs"],[("parse_property","src/parser.rs"),("parse_property_by_name","src/parser.rs"),("parse_extension_property_by_name","src/parser.rs"),("parse_text_or_uri / parse_date_time_or_text","src/parser.rs")],observe=["parse"])
p("C07","Printing emits every property exactly once in a well-formed frame",
 "A printed card is BEGIN:VCARD, VERSION:4.0, one content line for each property entry held in the card - none missing, none twice, entries of one property in their order - and END:VCARD, each line ended by CRLF. Each content line is the optional group and a dot, the property's own name, its parameters, a colon and its value.",
 ["inputs"],"all cards",
 "the round-trip tests populate few fields at a time; omission, duplication or a wrong name only shows for the field concerned",
 ["src/vcard.rs","src/property.rs"],[("Vcard Display","src/vcard.rs"),("content_line / qualified_name","src/vcard.rs"),("Property impls","src/property.rs")],observe=["Vcard Display"])
p("C08","Enumerated values print and parse as inverses",
 "For every kind, sex, telephone type, relation type, value type and TYPE parameter value, parsing its printed form gives back the same value, different values print differently, and an unknown word is an error (or, for TYPE, an extension value carrying that word). Telephone, relation and value types and the home and work types are recognised in any letter case.",
 ["inputs"],"all enumeration values, all strings, all letter cases of the recognised words",
 "tests exercise a handful of the words",
 ["src/property.rs","src/parameter.rs"],[("Kind, Sex FromStr/Display","src/property.rs"),("TelephoneType, RelatedType, ValueType, TypeParameter FromStr/Display","src/parameter.rs")],observe=["FromStr","Display"])
p("C09","Parameters survive printing and parsing unchanged",
 "Printing a property with parameters and parsing the result gives back the same parameters: every set parameter is printed exactly once under its own name and none that is unset is printed. Parameter text (without double quotes and control characters, list items without commas) keeps its semicolons, colons, backslashes and newlines through quoting and escaping (the text of a TZ parameter that is itself a UTC offset is read back as that offset).",
 ["inputs"],"all combinations of parameters and all representable parameter values",
 "tests parse each parameter alone with a simple value; values that need quoting or escaping and combinations are not covered",
 ["src/parameter.rs","src/parser.rs","src/lib.rs"],[("Parameters Display, escape_parameter, quote_parameter","src/parameter.rs"),("parse_parameters, parse_parameter_value","src/parser.rs"),("unescape_value","src/lib.rs")],observe=["Vcard Display","parse"])
p("C10","Parameter rules are enforced on every property",
 "In strict mode a PREF outside 1..100, a TYPE parameter on a property that does not take one, a LABEL on anything but ADR, a CHARSET other than UTF-8, an unquoted GEO, an unknown VALUE type, a malformed PID, an unknown parameter name, or a PID on CLIENTPIDMAP is an error, whichever position and letter case it is written in. Parameters that meet the rules are accepted and stored in their own field only.",
 ["inputs"],"all property names, parameter names in any letter case and position, all parameter values",
 "tests try one bad value per rule on one property; the rules range over every property and value",
 ["src/parser.rs","src/parameter.rs"],[("parse_parameters","src/parser.rs"),("TYPE_PROPERTIES","src/parameter.rs"),("CLIENTPIDMAP branch of parse_property_by_name","src/parser.rs")],observe=["parse"])
p("C11","Dates, times, offsets and primitive lists print and parse as inverses",
 "For every list of dates, date-times, timestamps, times, date-and-or-times, integers, finite floats, booleans and UTC offsets (whole seconds, whole minutes of offset, years 0 to 9999), parsing the printed form gives back the same list: same length, same order, same instant, same offset including its sign. Truncated and reduced-precision forms are read with the missing parts filled in by their smallest value.",
 ["inputs"],"all dates, times, offsets (including negative ones below an hour) and list lengths",
 "tests use a few RFC examples; sign, padding and separator handling must hold across the whole range",
 ["src/helper.rs","src/property.rs","src/date_time.rs"],[("parse_* / format_* pairs","src/helper.rs"),("UtcOffsetProperty Display","src/property.rs"),("DateAndOrTime FromStr/Display","src/property.rs")],observe=["helper functions","Vcard Display","parse"])
p("C12","Structured and list values keep their components",
 "For every N, ORG, CATEGORIES, ADR, GENDER and CLIENTPIDMAP value, printing and parsing gives back the same number of components with the same contents in the same positions, whatever delimiters, escapes and newlines the components contain (an absent address component is the same as an empty one). An address with fewer than seven components, a client pid map without a positive source and a URI, and an unknown sex are errors.",
 ["inputs"],"all component lists of any length and contents",
 "tests use short components without embedded delimiters",
 ["src/property.rs","src/lib.rs","src/parser.rs"],[("split_escaped, escape_value","src/lib.rs"),("DeliveryAddress, Gender, ClientPidMap, TextListProperty","src/property.rs"),("N, ORG, CATEGORIES, ADR branches","src/parser.rs")],observe=["Vcard Display","parse"])
p("C13","Loose parsing drops exactly the property lines that fail",
 "Loose parsing of a document in which some property lines are in error gives the same cards as strict parsing of the document with those lines removed (a VALUE parameter with an unknown type is ignored instead of failing its line), and a document that parses strictly parses loosely to the same cards. The framing of cards (BEGIN, VERSION, END) and card validity are enforced in both modes.",
 ["inputs"],"all documents, any number and placement of failing property lines, all ways a line can fail",
 "the only loose tests contain one duplicated KIND and one unknown VALUE; a line can fail at any token and must never take its neighbours with it",
 ["src/parser.rs"],[("parse_properties, skip_line","src/parser.rs"),("VALUE branch of parse_parameters","src/parser.rs")],observe=["parse_loose","iter"])
p("C14","Malformed framing and control characters are rejected",
 "A document is accepted only if each card starts with a BEGIN:VCARD line and a VERSION line, contains only property lines, and ends with END:VCARD, with only newlines between cards; an empty document, a missing or misplaced VERSION, a source that ends inside a card and a property line without a delimiter or value are errors. An ASCII control character (tab and line breaks excepted) in a value or parameter is always an error and never ends up in a card.",
 ["inputs"],"all source texts",
 "tests check one malformed document per error; truncation points and control-character positions are unbounded",
 ["src/parser.rs"],[("parse, parse_one, parse_properties, assert_token","src/parser.rs"),("Control checks in parse_property_value / parse_parameter_value","src/parser.rs")],observe=["parse","iter"])
p("C15","Builder calls change only the field they name",
 "Each builder method sets or appends exactly the value it was given to the field it names, with no group or parameters, keeps every other field and the order of earlier entries, and finishing returns the card accumulated by exactly those calls.",
 ["histories"],"all sequences of builder calls and all values",
 "the builder test makes each call once with one value; a method writing the wrong field or dropping earlier entries shows only in particular sequences",
 ["src/builder.rs","src/property.rs","src/vcard.rs"],[("VcardBuilder methods","src/builder.rs"),("From impls of property types","src/property.rs"),("Vcard::new","src/vcard.rs")],observe=["VcardBuilder::finish"])
p("C16","Embedded JPEG photos are extracted exactly",
 "Photo extraction returns, in order, the base64-decoded bytes of exactly those text photos whose first TYPE is JPEG and whose first extension parameter is ENCODING with first value b (names in any letter case), ignores all other photos, and is an error only if such a photo's text is not valid base64.",
 ["inputs"],"all cards and all combinations of photo entries and parameters",
 "tests read one fixture photo; skipping, ordering and partial matches are not covered",
 ["src/vcard.rs"],[("Vcard::parse_photo_jpeg","src/vcard.rs")],observe=["Vcard::parse_photo_jpeg"])
p("C17","Serialization through serde loses nothing",
 "With the serde feature, serializing any card to JSON and back gives an equal card.",
 ["inputs","configurations"],"all cards",
 "the round-trip tests use few cards; untagged enums are decided by try-order",
 ["src/serde.rs","src/property.rs","src/parameter.rs"],[("derived Serialize/Deserialize","src/property.rs")],observe=["serde_json"])
p("C18","Dropped cards leave no sensitive text in memory",
 "With the zeroize feature, dropping a card overwrites the memory of its text fields.",
 ["inputs","configurations"],"all cards",
 "no test inspects freed memory",
 ["src/vcard.rs","src/property.rs"],[("derived Zeroize/ZeroizeOnDrop","src/vcard.rs")],observe=["memory after drop"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": "none"}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("P01", "No input and no option combination crashes the program",
     "For any sequence of words (any bytes, valid UTF-8 or not, empty, Thai fragments that form no syllable, mixed scripts, control characters), "
     "any combination of notation, structure and segmentation options and with or without an exception dictionary, the program never crashes, never "
     "reads or writes outside its data, and exits with success. Every word gets its own block of output, so one bad word never costs the words after it.",
     ["inputs", "configurations"], "All byte strings up to 48 bytes per word, all option combinations, dictionary present/absent.",
     "The tests feed a few dozen correctly spelled words; no malformed, truncated or foreign input and almost no option combinations are tried.",
     ["parser/parser.cxx", "thpronun/thpronun.cxx", "output/output-json.cxx", "output/isyl-output.cxx"],
     [("rule matching with look-ahead", "parser/parser.cxx MatchInitCons/EatEndCons*/Parse*"), ("UTF-8 conversion", "parser/parser.cxx Parser::parseWord"),
      ("list rendering", "output/*.cxx")],
     "exit status, sanitizer reports, output blocks of the command-line program and the library calls")

prop("P02", "Every pronunciation accounts for the whole input, left to right",
     "Every pronunciation of a text starts at its beginning and ends exactly at its end: the reported end positions (apart from the negative codes that mark short leading syllables) strictly increase, the last one is the "
     "text length in UTF-16 units, and nothing is skipped or overlapped. No partial or dangling alternative is ever part of a result.",
     ["inputs", "configurations"], "All texts mixing Thai fragments, digits, punctuation, spaces and other scripts; segmentation on/off; with/without dictionary.",
     "Tests compare rendered strings of selected words; positions and dangling alternatives are never inspected.",
     ["parser/parser.cxx", "lattice/pron-dag.cxx", "lattice/dag.inl"],
     [("state pool", "parser/parser.cxx StatePool"), ("edge creation", "parser/parser.cxx AddSyl, FindAbbr, ParseU16")],
     "the pronunciation graph returned by the analyser and the raw notation",
     [("node", "text position; negative for the point after a short leading syllable", "lattice/dag.h")])

prop("P03", "Non-Thai text is carried over verbatim, in place, exactly once",
     "In every pronunciation of a text, each maximal run of characters that are neither Thai letters, vowels, tone marks or spelling marks nor full stops appears exactly once, "
     "unchanged and at its place, as one literal. Thai spelling characters never end up in a literal. A text with no Thai spelling character and no full stop has exactly one pronunciation, the literal itself.",
     ["inputs"], "All texts over Thai and non-Thai characters (ASCII, digits, Thai digits and signs, other scripts, astral characters, control characters).",
     "Tests contain no mixed-script text beyond one or two samples.",
     ["parser/parser.cxx", "output/isyl-output.cxx"],
     [("non-Thai skipping", "parser/parser.cxx SkipNonThai/NextWordStop/ParseU16"), ("literal rendering", "output/isyl-output.cxx")],
     "literals in the pronunciation graph and in every notation")

prop("P04", "Regularly spelled syllables are read with the right sounds and tone",
     "For any syllable written by the regular rules of Thai orthography (initial consonant, true cluster or leading HO HIP; vowel form; optional tone mark; optional final consonant; optional "
     "silenced consonant) the readings include the single syllable having exactly the initial, cluster, vowel, length, final class and tone those rules prescribe. "
     "The tone follows from consonant class, tone mark, live/dead ending and vowel length.",
     ["inputs"], "All combinations of 44 consonants, clusters, ~40 vowel forms, 5 tone marks, 37 final consonants and silenced endings.",
     "The analyser test mostly prints results without checking them; the tone table test covers few combinations; the product has hundreds of thousands of members.",
     ["parser/parser.cxx", "thortho/thcons.cxx", "sylstring/sylcomp.cxx"],
     [("tone rule", "thortho/thcons.cxx ToneFromWritten"), ("consonant tables", "thortho/thcons.cxx"), ("vowel forms", "parser/parser.cxx ParseThCons/ParseSaraE/ParseOtherLV")],
     "set of pronunciations of the generated syllable")

prop("P05", "Readings of initial consonant sequences are exactly those of the rules",
     "With segmentation off and no dictionary, the set of pronunciations of any Thai text is exactly the set the documented letter-to-sound rules allow for its initial consonants: true and false clusters, "
     "leading consonants with or without a short first syllable (which combines with any reading of the main syllable spelled by the same letters), linked -a and -o-ra- readings, RO HAN, and the RU/LU letters. No allowed reading is missing and none is invented.",
     ["inputs"], "All Thai strings; sampled and enumerated families centred on one to four consonants, RU/LU and their vowel contexts.",
     "The analyser test only prints the readings; nothing checks that readings are complete or that wrong ones are absent.",
     ["parser/parser.cxx"], [("initial consonant matcher", "parser/parser.cxx MatchInitCons"), ("RU/LU rules", "parser/parser.cxx ParseRuLu")],
     "set of pronunciations")

prop("P06", "Readings of finals, silenced letters and linked syllables are exact",
     "With segmentation off and no dictionary, the set of pronunciations of any Thai text is exactly what the documented rules allow for its vowels and syllable endings: optional and mandatory finals, letters silenced by THANTHAKHAT, "
     "endings with a silent RO, I or U, and finals that also start the next syllable. No allowed reading is missing and none is invented.",
     ["inputs"], "All Thai strings; sampled and enumerated families centred on vowel forms followed by one to three consonants, short vowels and THANTHAKHAT.",
     "The analyser test only prints the readings; completeness and absence of wrong readings are unchecked.",
     ["parser/parser.cxx"], [("final consonant matchers", "parser/parser.cxx EatEndConsSimple/EatEndConsComplex"), ("silenced letters", "parser/parser.cxx MatchKaran*"),
                             ("linking", "parser/parser.cxx isLinked states")],
     "set of pronunciations")

prop("P07", "Abbreviations and full stops are read letter by letter, only where allowed",
     "At the beginning of a text, after a space or after a full stop, a lone consonant, or one to four consonants closed by a full stop, is read by its letter names (and in no other way); elsewhere it never is. "
     "A full stop after anything else is absorbed by what precedes it, without changing the readings.",
     ["inputs"], "All texts over consonants, full stops, spaces, syllables and other characters.",
     "No test contains an abbreviation in a non-trivial context.",
     ["parser/parser.cxx"], [("abbreviation matcher", "parser/parser.cxx FindAbbr"), ("full stop absorption", "parser/parser.cxx ParseU16")],
     "set of pronunciations")

prop("P08", "Word segmentation only restricts where syllables may end",
     "With segmentation on, the pronunciations of a text are exactly those the rules and the dictionary allow in which no syllable, final consonant, silenced letter or dictionary entry crosses a word break reported by the Thai "
     "word breaker, each segment being read as if the text ended there. With segmentation off no such restriction applies.",
     ["inputs", "configurations"], "All texts; both segmentation settings; with and without dictionary.",
     "CLI tests use a handful of words in one configuration; none compares against the breaks.",
     ["parser/parser.cxx"], [("break positions", "parser/parser.cxx FindBreaks/NextWordStop"), ("stop position checks", "parser/parser.cxx every matcher")],
     "set of pronunciations vs. breaks reported by libthai")

prop("P09", "Parts separated by spaces are analysed independently of each other",
     "With segmentation off, the pronunciations of a text made of parts separated by blanks are exactly all combinations of the pronunciations of the parts, with the blanks in between and positions shifted accordingly; if one part has none, the text has none. "
     "This holds wherever the part stands, with or without dictionary.",
     ["inputs", "configurations"], "All lists of parts and blank runs (lengths up to 200 positions), with/without dictionary.",
     "Tests analyse single words starting at position 0.",
     ["parser/parser.cxx", "sylstring/sylstring.cxx"], [("positions of short leading syllables", "parser/parser.cxx AddSyl"), ("shift of dictionary entries", "sylstring/sylstring.cxx shiftEndPos")],
     "set of pronunciations with positions")

prop("P10", "Exception entries override the rules exactly where they match",
     "Where an entry of the exception dictionary matches at a syllable start and ends at the end of the word segment, before a full stop or before a possible syllable start, the listed pronunciations of all such entries are used there, and no rule-based reading is; "
     "everywhere else the rules apply unchanged. All alternatives of an entry are reported, with positions relative to the match.",
     ["inputs", "configurations"], "All dictionaries of up to a dozen entries over Thai keys with one to three alternatives, all texts embedding, overlapping and truncating the keys, segmentation on/off.",
     "Tests use one fixed dictionary and a few words equal to entries.",
     ["parser/parser.cxx", "dict/dict.cxx", "sylstring/sylstring.cxx"], [("exception lookup", "parser/parser.cxx FindExceptions"), ("entry placement", "lattice/pron-dag.cxx addSylString")],
     "set of pronunciations with a generated dictionary")

prop("P11", "A compiled dictionary returns exactly the entries it was built from",
     "After compiling any list of entries, looking up any text at any position reports precisely the keys that occur there, shortest first, each with its own data unchanged; the last of repeated keys wins and an empty list gives a usable empty dictionary. "
     "The result does not depend on the order of the other entries nor on the optimisation flags the compiler tool was built with.",
     ["inputs", "configurations"], "All entry lists (Thai keys sharing prefixes, data up to the line limit), all texts and positions; tool built at -O0 to -O3.",
     "One fixed list and one phrase are tested, with one set of compiler flags.",
     ["dict/gen-lookup-dict.c", "dict/dict.cxx", "dict/dict.inl"], [("data bank", "dict/gen-lookup-dict.c DataBank*"), ("matching", "dict/dict.cxx Match::findNext/getData")],
     "lookup results and program readings with the dictionary")

prop("P12", "Compiling a dictionary never loses entries silently",
     "The dictionary compiler either stores every line of its input and reports success, or reports failure through its exit status: a line without separator, with an undecodable key, with a key outside the Thai alphabet, "
     "an over-long line, an unreadable input or an unwritable output is never reported as success.",
     ["inputs", "fault_sequences"], "All input files mixing valid and malformed lines at any place; unreadable inputs and full output devices.",
     "Only one valid file is compiled in the tests.",
     ["dict/gen-lookup-dict.c"], [("line reader", "dict/gen-lookup-dict.c ReadInput/GetUTF8"), ("writer", "dict/gen-lookup-dict.c GenDict/DataBankWrite")],
     "exit status and content of the resulting dictionary")

prop("P13", "An unusable dictionary file is reported and otherwise has no effect",
     "If the exception dictionary is missing, is not a dictionary, or is cut off at any byte, loading reports failure, the program warns on standard error and all results are those obtained with no dictionary at all. "
     "A later successful load takes full effect, and a later failed load leaves no trace of an earlier dictionary.",
     ["inputs", "fault_sequences", "histories"], "Every truncation point of generated and shipped dictionaries, arbitrary non-dictionary files, sequences of good and bad loads.",
     "No test loads a bad file.",
     ["dict/dict.cxx", "parser/parser.cxx", "thpronun/thpronun.cxx"], [("dictionary reader", "dict/dict.cxx Dict::open/ReadDataBank"), ("load", "parser/parser.cxx loadExceptDict")],
     "return value, standard error and results")

prop("P14", "Grouped output denotes exactly the pronunciations of plain output",
     "Expanding the grouped form (chains of groups of alternatives) yields exactly the set of pronunciations listed in the plain form for the same word; no pronunciation is lost, invented or reordered internally by grouping. "
     "Within a group no alternative is repeated.",
     ["inputs"], "All pronunciation graphs up to ~8 nodes, all lists of syllable strings, all words.",
     "Three fixed graphs are tested.",
     ["lattice/pron-dag.cxx", "lattice/lattice.cxx", "output/output-gjson.cxx"], [("series merging", "lattice/pron-dag.cxx FracDAG::mergeSingles"), ("parallel merging", "lattice/pron-dag.cxx FracDAG::mergeParallels"),
                                                                               ("chain building", "lattice/pron-dag.cxx nodeLattice")],
     "grouped structure and grouped JSON")

prop("P15", "The pronunciation graph behaves as a set of labelled edges",
     "After any sequence of edge insertions, removals, string insertions, unions, copies and moves, the graph contains exactly the edges a plain set of (from, to, syllable) triples would contain; forward and backward views, "
     "degrees and membership always agree, return values tell whether anything changed, and copies are independent.",
     ["histories"], "All operation sequences up to 40 steps over several graphs and a small node and label alphabet.",
     "One fixed script of operations is tested.",
     ["lattice/dag.inl", "lattice/pron-dag.cxx"], [("double multimap", "lattice/dag.h mFrom/mTo")],
     "all query functions of the graph")

prop("P16", "Syllables and their strings are consistently ordered and compared",
     "Comparison of syllables and of syllable strings is a strict total order on sounds and end positions (transitive, antisymmetric, literals before syllables, prefixes first) with all six operators agreeing; equality ignores end positions. "
     "A set of alternatives built in any insertion order is sorted, free of repeated pronunciations and holds every pronunciation inserted.",
     ["inputs", "histories"], "All pairs/triples of syllables, literals and strings; all insertion orders.",
     "A few fixed comparisons are tested.",
     ["sylstring/syl.cxx", "sylstring/sylstring.cxx", "lattice/lattice.cxx"], [("comparison operators", "sylstring/syl.cxx, sylstring/sylstring.cxx"), ("sorted insertion", "lattice/lattice.cxx PronunFrac::operator+=")],
     "comparison results, iteration order of alternatives")

prop("P17", "Raw notation is lossless",
     "The raw notation of any syllable, written into a description and read back, gives the same syllable with the same end position, for single syllables and for comma-separated strings; "
     "shifting a string by an offset moves every end position by it consistently, including the encoded positions of short leading syllables.",
     ["inputs"], "All 90,720 syllables, all end positions in range, all strings and offsets.",
     "A few fixed syllables are tested.",
     ["sylstring/syl.cxx", "sylstring/sylcomp.cxx", "sylstring/sylstring.cxx", "output/sylout-raw.cxx"],
     [("description parser", "sylstring/syl.cxx, sylstring/sylstring.cxx"), ("code tables", "sylstring/sylcomp.cxx, output/sylout-raw.cxx"), ("shift", "sylstring/sylstring.cxx shiftEndPos")],
     "raw output and constructed syllables")

prop("P18", "Thai respelling sounds the same as the pronunciation it stands for",
     "The Thai notation of any possible syllable, read by the rules of Thai orthography, denotes that same syllable: same initial, cluster, vowel, final and tone (vowel length may be left open only where Thai spelling with a tone mark cannot show it). "
     "Leading HO and clusters are marked so that they cannot be read as separate syllables.",
     ["inputs"], "All combinations of 21 initials, 4 cluster values, 24 vowels, 9 finals and the tones that exist for them.",
     "A few fixed strings are compared.",
     ["output/sylout-thai.cxx"], [("class/tone-mark selection", "output/sylout-thai.cxx Thai*IConsTonePair"), ("vowel templates", "output/sylout-thai.cxx ThaiSyl*")],
     "Thai notation")

prop("P19", "Romanization follows the Royal Institute system, hyphens included",
     "The Roman notation of a syllable string is the concatenation of the Royal Institute spelling of its syllables with literals kept in parentheses, with a hyphen inserted exactly before a syllable starting with a vowel sound and "
     "before a syllable starting with ng after a syllable with no final; no hyphen stands at the beginning or right after a blank, and capitalisation affects the first letter only.",
     ["inputs", "configurations"], "All syllable strings with literals and blanks up to 8 elements, capitalisation on/off.",
     "A few fixed strings are compared.",
     ["output/output-roman.cxx", "output/sylout-roman.cxx"], [("hyphen rule", "output/output-roman.cxx"), ("spelling tables", "output/sylout-roman.cxx")],
     "Roman notation")

prop("P20", "Phonetic and Soundex codes identify the sounds they stand for",
     "The phonetic notation is a fixed letter code for initial, cluster, vowel (with length), final and tone, each always written the same way; the Soundex code depends only on the initial (with R and L the same), the vowel quality and the final class. "
     "Delimited output joins elements with the chosen delimiter, never next to a blank, one line per pronunciation.",
     ["inputs", "configurations"], "All 90,720 syllables, all strings with literals and blanks up to 8 elements, any delimiter.",
     "A few fixed strings are compared; Soundex is not tested.",
     ["output/sylout-phonetic.cxx", "output/sylout-soundex.cxx", "output/output-delim.cxx"], [("code tables", "output/sylout-phonetic.cxx, output/sylout-soundex.cxx"), ("joining", "output/output-delim.cxx")],
     "phonetic, Soundex and delimited output")

prop("P21", "JSON output is always well-formed and says what plain output says",
     "For any word, notation and structure, JSON output is well-formed JSON in UTF-8; a plain JSON array lists, in order, exactly the pronunciations of the delimited output with exactly the same element strings, "
     "and a word with no pronunciation gives an empty array.",
     ["inputs", "configurations"], "All words including quotes, backslashes, control characters and astral characters; all notations, plain and grouped.",
     "Tests compare JSON text for a few Thai words; no special character or unpronounceable word is tried.",
     ["output/output-json.cxx", "output/output-gjson.cxx"], [("JSON writer", "output/output-json.cxx, output/output-gjson.cxx")],
     "JSON text parsed by an independent parser")

prop("P22", "The command line means what the manual says",
     "The program prints, for each word in order, the word followed by a colon and then one block per requested notation in the order requested (Thai, Roman, phonetic by default), in the requested structure; the position of options among the words does not matter. "
     "Words from arguments and the same words as lines of standard input give the same output; help, version and wrong options are recognised anywhere and analyse nothing.",
     ["inputs", "configurations"], "All interleavings of words and options, argument and standard-input mode.",
     "The CLI tests use one option set per word.",
     ["thpronun/thpronun.cxx"], [("option passes", "thpronun/thpronun.cxx main"), ("output factories", "thpronun/thpronun.cxx Make*Output")],
     "standard output, standard error, exit status")

prop("P23", "Results never depend on what was analysed before",
     "Analysing a word gives the same result whatever words were analysed before it with the same analyser, however often it is repeated, in whatever process and whether the dictionary was given at creation or loaded later. "
     "Reloading a dictionary replaces the previous one completely.",
     ["histories", "inputs"], "All sequences of analyses and dictionary loads up to 30 steps over several analysers.",
     "Tests never interleave words, analysers and dictionaries.",
     ["parser/parser.cxx", "dict/dict.cxx", "output/ioutput.cxx"], [("static tables and breaker object", "parser/parser.cxx"), ("dictionary replacement", "dict/dict.cxx open/close")],
     "results in different histories")

prop("P24", "Analysis effort grows polynomially with the length of the text",
     "The work done to build the pronunciation graph of a text grows at most polynomially with its length, for any text, including highly ambiguous repeated syllables; texts of a hundred letters are always analysed promptly. "
     "The graph itself has a number of edges linear in the length of the text.",
     ["inputs"], "All periodic and random Thai texts of 10 to 120 letters.",
     "Tests use short words; the blow-up appears only beyond about 20 ambiguous letters.",
     ["parser/parser.cxx"], [("merging of equivalent states", "parser/parser.cxx StatePool::add")],
     "deterministic count of executed basic-block edges, number of graph edges")

prop("P25", "Every shipped exception entry is sound and takes effect",
     "Each entry of the shipped exception lists is well-formed: every alternative is a sequence of valid syllables whose positions advance from the start of the word exactly to its end, whose sounds its letters can stand for and which can be written in every notation. "
     "With the dictionary compiled from these lists, each listed word, alone or next to other words, is pronounced as listed (and otherwise only by way of a shorter listed word with which it begins); the irregular words covered by the lists keep their standard pronunciation.",
     ["inputs", "configurations"], "All entries of all shipped lists, in generated contexts, segmentation off.",
     "Six words of the shipped lists are tested.",
     ["data/ex-misc.tsv", "data/ex-short.tsv", "data/ex-tone.tsv", "parser/parser.cxx", "dict/gen-lookup-dict.c"], [("exception lists", "data/*.tsv"), ("lookup", "parser/parser.cxx FindExceptions")],
     "pronunciations of listed words")

prop("P26", "Repeated use holds on to no more memory and no more open files",
     "However often the same words are analysed and printed, the same dictionary files (usable or not) loaded and analysers created and destroyed, the memory held and the number of open files "
     "afterwards are the same as after the first times. In particular a dictionary that cannot be loaded, or that replaces another one, leaves nothing behind.",
     ["histories", "inputs"], "All sequences of up to 8 creations, loads, analyses and outputs, repeated.",
     "Each test does everything once and exits; what is not given back is never noticed.",
     ["dict/dict.cxx", "parser/parser.cxx"], [("release of index, data and look-up state", "dict/dict.cxx close, ~Match, open, ReadDataBank"), ("release of the word breaker", "parser/parser.cxx ~Parser")],
     "number of allocated blocks and of open file descriptors after each repetition")

prop("P27", "Output lists each pronunciation once, alike in every notation",
     "Plain and JSON output of a word or of a graph of pronunciations list exactly the paths through its graph, each exactly once, whatever their number and whether or not they look alike. All notations list them in the same order: "
     "the n-th line in one notation stands for the same pronunciation as the n-th line in any other.",
     ["inputs", "configurations"], "All words and all acyclic graphs with up to 600 pronunciations, with and without dictionary and segmentation, all notations.",
     "Tests compare the output of a few words in one notation at a time; several alternatives at once occur in few of them.",
     ["output/ioutput.cxx", "output/output-delim.cxx", "output/output-roman.cxx", "output/output-json.cxx"], [("enumeration of paths", "output/ioutput.cxx DAGSylStrings"), ("lines", "output/output-*.cxx output(list)")],
     "outputs of one word in several notations against the graph")

prop("P28", "Pronunciations are built exactly from their parts",
     "Strings of syllables, sets of alternatives, chains of these and lattices of chains behave as plain values: what was appended or added is in them, in order (equal alternatives once), copies, assignments and moves hold what they were made from, and changing one never changes another. "
     "Joining neighbouring parts that have a single alternative joins all of them, in order, and touches nothing else.",
     ["histories", "inputs"], "All histories of up to 200 operations on up to six values of each kind, including those that involve a value twice.",
     "Tests build two small lattices and print them; copies, self-assignment and later changes are not tried.",
     ["lattice/lattice.inl", "lattice/lattice.cxx", "sylstring/sylstring.inl"], [("value operations", "sylstring/sylstring.inl, lattice/lattice.inl"), ("joining of single alternatives", "lattice/lattice.cxx mergeSingles")],
     "contents, counts, end positions and equality of all values after a history")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

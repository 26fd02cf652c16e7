# One entry per property: single source for properties.jsonl and MANIFEST.json
# (python3 tools/gen.py rewrites both).
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  state=list(state), observe=list(observe), hook=hook, tech=tech, note=note, na=na))

MODEL = "runtime monitoring: generated inputs, online comparison with an executable model"
INV = "runtime monitoring: generated inputs, invariant monitors on the observed results"
META = "runtime monitoring: generated histories, replay equivalence and invariant monitors"
RACE = "Go race detector plus result monitors over concurrent workloads"
EXPL = "Exploration: held on the executions counted in the evidence; trusts the model (written from the specification, not from the code) and the Go toolchain."

# ------------------------------------------------------------------ fribidi
prop("B01", "Embedding levels follow the Unicode Bidirectional Algorithm",
 "For every single paragraph (a separator only at its end) and every requested base direction (automatic, strong or weak), the resolved base direction and the embedding level of every character are those of UAX #9 rules P2-P3, X1-X8, W1-W7, N0-N2, I1-I2 and L1, explicit codes and boundary neutrals taking the level of what precedes them, including depth overflows, isolates, nested and canonically equivalent brackets. The bidi class and paired bracket of every assigned code point are those of the Unicode Character Database, and the maximum level returned is one more than the highest resolved level.",
 ["inputs"], "all sequences of bidi classes and bracket types, all base directions, all assigned code points",
 "The conformance files sample short strings of bare classes; overflow depths, brackets combined with isolates and overrides, and long interactions need unbounded inputs.",
 ["fribidi/bidi.go", "fribidi/run.go", "fribidi/fridibi.go", "fribidi/brackets.go", "fribidi/brackets_table.go"],
 [("level resolution", "fribidi/bidi.go:GetParEmbeddingLevels"), ("run lists", "fribidi/run.go"), ("character data", "fribidi/fridibi.go:GetBidiType, fribidi/brackets.go:GetBracket")],
 ["run lists", "directional status stack", "bracket stacks"], ["GetParEmbeddingLevels result", "GetBidiType", "GetBracket"], None, MODEL,
 EXPL + " All class strings of length <= 4 are enumerated; longer ones are sampled.")
prop("B02", "Line reordering permutes each line as rules L1-L2 demand",
 "For every paragraph, levels and cut into lines, reordering a line resets to the base level exactly the white space, isolate and formatting characters ending that line, then permutes the string and the position map identically inside that line only, giving the order of rule L2; with mark reordering on, marks at right-to-left levels stay after their base in logical order. It returns one more than the highest level of the line.",
 ["inputs"], "all paragraphs, arbitrary level arrays, all cuts into lines, all option sets, with the string or the map absent",
 "Tests reorder whole short paragraphs; the confinement to a line in the middle, deep levels and marks must hold for every cut and level array.",
 ["fribidi/bidi.go"], [("reordering", "fribidi/bidi.go:ReorderLine")], ["embedding levels", "position map"], ["ReorderLine outputs"], None, MODEL, EXPL)
prop("B03", "Visual conversion applies joining, ligatures, mirroring and ordering",
 "For every one-paragraph text, option set and base direction, the visual string is the logical one with Arabic letters in the presentation form given by the cursive joining rules (neighbours skipping transparent characters and not joining across levels), mandatory lam-alef ligatures, mirrored characters replaced at right-to-left levels, and then reordered by the embedding levels. The position maps are inverse permutations of each other and the input string is left unchanged.",
 ["inputs"], "all texts, all option sets, all base directions",
 "Tests compare a few sentences; joining depends on arbitrary contexts of marks, joiners and level changes, mirroring on several hundred characters.",
 ["fribidi/fridibi.go", "fribidi/shape.go", "fribidi/arabic.go", "fribidi/joining.go", "fribidi/mirroring.go"],
 [("pipeline", "fribidi/fridibi.go:LogicalToVisual"), ("joining", "fribidi/joining.go:joinArabic"), ("shaping", "fribidi/shape.go:Shape, fribidi/arabic.go"), ("mirroring", "fribidi/mirroring.go")],
 ["joining properties"], ["Visual result", "Visual.LogicalToVisual"], None, MODEL, EXPL)
prop("B04", "Removing bidi marks keeps the text and all its maps consistent",
 "Removing marks from a logical or visual string keeps exactly the characters other than explicit codes, isolates, boundary neutrals and the two directional marks, in order; the accompanying levels and 'from' positions are compacted in step, and the 'to' positions give the new index of each kept character and -1 for each removed one, whichever of the lists are supplied.",
 ["inputs"], "all texts and all subsets of accompanying lists consistent with them",
 "No test covers the accompanying lists together; their agreement must hold for every text.",
 ["fribidi/fridibi.go"], [("removal", "fribidi/fridibi.go:RemoveBidiMarks")], ["position maps"], ["RemoveBidiMarks outputs"], None, MODEL, EXPL)

# ------------------------------------------------------------------ fontconfig
FC = "fontconfig/"
prop("F01", "Charsets behave as sets of code points",
 "A Charset is a set of code points: after any history of additions, removals, copies, unions, differences and intersections, membership, length, subset, equality and hash are those of the mathematical set, whatever pages it went through; the pages are never shared, so that changing one charset never changes another.",
 ["inputs", "histories"], "all histories of charset operations over several charsets",
 "Tests insert a few characters; page bookkeeping, aliasing and emptied pages depend on the whole history.",
 [FC+"charset.go"], [("page list", FC+"charset.go:Charset"), ("operations", FC+"charset.go:AddChar, DelChar, charsetUnion, charsetSubtract")],
 ["page numbers", "leaf pages"], ["HasChar", "Len", "pattern equality", "List and Sort results"], None, MODEL, EXPL)
prop("F02", "Language sets compare as RFC 3066 language tags",
 "A Langset built from any list of tags contains exactly these tags (known ones case insensitively); containment and comparison distinguish equal tags, the same language with another or no territory, and different languages, for tags in the orthography table and for others alike; its textual form reads back to the same set, and copies are independent.",
 ["inputs", "histories"], "all lists of language tags, known or not, and histories of additions and removals",
 "Tests cover a dozen tags; the bit sets, the country groups and the extra strings must agree for all several hundred tags and any others.",
 [FC+"lang.go", FC+"lang_table.go"], [("bit set and extras", FC+"lang.go:Langset"), ("search", FC+"lang.go:findLangIndex")],
 ["pages of bits", "extra tags"], ["Langset methods", "List and Match on LANG"], None, MODEL, EXPL)
prop("F03", "A font set written to a cache is read back identically",
 "For every font set, LoadFontset of what Serialize wrote gives the same patterns in the same order, with the same values, types, bindings and charsets, so that List, Match and Sort give the same results; what can not be encoded is refused with an error instead of being truncated, failures of the writer are reported, and writing leaves the set unchanged.",
 ["inputs", "fault_sequences"], "all font sets with values of every type and size, all points of failure of the writer",
 "The tests write scanned fonts only; lengths, types, bindings and extreme values must survive for any set.",
 [FC+"cache.go"], [("writer", FC+"cache.go:Serialize"), ("reader", FC+"cache.go:LoadFontset")], ["encoded stream"], ["LoadFontset result", "Serialize error"], None, MODEL, EXPL)
prop("F04", "A damaged font cache is refused or read as a usable set",
 "For every stream of bytes, in particular every truncation and corruption of a cache, LoadFontset returns in time and memory proportional to the input, with an error or with a valid set: its charsets behave as sets, it can be matched, sorted, listed and written again to the same content, and a valid cache damaged on the disk is never read as a different content.",
 ["inputs", "crash_points", "fault_sequences"], "all byte streams; every truncation point of valid caches",
 "Crashes while writing a cache, or disk corruption, give files no test contains.",
 [FC+"cache.go", FC+"charset.go"], [("reader", FC+"cache.go:LoadFontset")], ["encoded stream"], ["LoadFontset result", "allocations"], None, INV, EXPL)
prop("F05", "Match returns the closest font by the documented priorities",
 "For every font set and every query, Match returns the font whose vector of scores is the least in the documented priority order (file, format, ..., charset, strong family, ..., language, weak family, ..., size, style, slant, weight, width, ..., version), the first one on ties, where each score is the least over the pairs of values of the distance of the object, later requested values counting as farther within the same distance; neither the query nor the fonts are modified.",
 ["inputs"], "all queries (values of every matched object, strong or weak) and all font sets",
 "Tests match a handful of patterns; the lexicographic order over 27 priorities and a specific distance for each object must hold on all combinations.",
 [FC+"match.go"], [("distances", FC+"match.go:compare*"), ("priority vector", FC+"match.go:fdFromPatternList, compare"), ("choice", FC+"match.go:matchInternal")],
 ["score vectors", "family table"], ["Fontset.Match result"], None, MODEL, EXPL + " Fractional distances other than the semi-closed size bound are avoided, because an early exit shared with the C library makes them order dependent.")
prop("F06", "Sort orders, settles languages, trims and reports the coverage",
 "For every font set and query, Sort returns a permutation of the fonts ordered by the same scores as Match, in which fonts that cover no requested language not already covered by a closer font lose their language score; the coverage returned is the union of the charsets of the fonts, and with trimming, exactly the fonts adding no new character to the closer ones are dropped (the first is kept). The result is deterministic and the arguments are unchanged.",
 ["inputs"], "all font sets and all queries",
 "The language settlement and trimming depend on the whole ordered set; tests check sizes on installed fonts only.",
 [FC+"match.go"], [("sort", FC+"match.go:Sort"), ("trimming", FC+"match.go:sortWalk")], ["sort nodes", "accumulated charset"], ["Fontset.Sort results"], None, MODEL, EXPL)
prop("F07", "PrepareRender merges the query and the font as documented",
 "For every query and font, the rendering pattern holds the values of the font missing in the query, those of the query missing in the font, and the best matching value for the objects of both; names are reordered to put the one in the requested language first together with its language, variable fonts get the variation settings for the chosen weight, width and size, and the arguments are unchanged.",
 ["inputs"], "all queries and fonts",
 "Tests check one or two objects; the merge is a rule per object, interacting with languages and variations.",
 [FC+"match.go"], [("merge", FC+"match.go:PrepareRender")], [], ["PrepareRender result"], None, MODEL, EXPL)
prop("F08", "Substitute applies the configuration rules as documented",
 "For every configuration and pattern, Substitute applies the rules of the given kind in order: a rule whose tests (any, all, first, not_first; every comparison and type, on the pattern or on the query for font rules) all pass has its edits done in order, around the value matched by the first test on the edited object or on the whole list, with the requested bindings, values of a wrong type being refused; aliases insert their families around the matched one. Expressions (arithmetic, logic, comparisons, conditions, roundings, fields, constants) have the documented values and types. The query and the rules are not modified, and patterns share no storage with them.",
 ["inputs", "programs", "configurations"], "all rule sets, expressions, patterns and queries",
 "Rules are programs: tests run a few of them; the positions of successive edits, type promotions and the hash table of families depend on the whole program and pattern.",
 [FC+"substitutions.go", FC+"expr.go", FC+"xml.go"], [("tests and edits", FC+"substitutions.go:match, edit"), ("expressions", FC+"expr.go:evaluate, compareValue"), ("families table", FC+"substitutions.go:familyTable")],
 ["match positions", "family hash tables"], ["Config.Substitute result"], None, MODEL, EXPL + " Edits around a value which has just been deleted are run but not compared (undocumented).")
prop("F09", "Configurations load faithfully or are refused without effect",
 "Loading a configuration never crashes whatever the bytes read; a document with an unknown element, a misplaced or badly written value, or cut short is refused with an error and adds no rule. Valid documents have the same effect however they are written (white space, comments, character references, order of attributes, integers in decimal or hexadecimal) and split in files, LoadFromDir reading the numbered .conf files in order. The values are read exactly. A copy of a configuration behaves as the original, and later changes of one do not affect the other.",
 ["inputs", "configurations", "fault_sequences"], "all byte streams, all trees of elements, all splits of a document in files, all failures of the reader",
 "The tests load the configuration files of the distribution; users write their own, with mistakes.",
 [FC+"xml.go", FC+"config.go", FC+"name.go"], [("parser", FC+"xml.go:UnmarshalXML, endElement"), ("values", FC+"xml.go:parseInt, parseRange, parseCharSet"), ("copy", FC+"config.go:Copy"), ("directories", FC+"config.go:LoadFromDir")],
 ["element stack", "rule sets", "custom objects"], ["LoadFromMemory error", "Substitute results"], None, META, EXPL)
prop("F10", "List filters, projects and removes the duplicates",
 "For every font set, query and object list, List returns exactly one pattern for each distinct projection, on the listed objects, of the fonts whose values contain every value of the query (strings ignoring case and blanks, ranges and sets by inclusion, languages by territory), with the names in the requested language first.",
 ["inputs"], "all font sets, queries and object lists",
 "Hash grouping and the containment of each type of value need varied data; the tests list installed fonts.",
 [FC+"list.go", FC+"values.go"], [("listing", FC+"list.go:List"), ("containment", FC+"values.go")], ["hash table of patterns"], ["Fontset.List result"], None, MODEL, EXPL)
prop("F11", "Scanning a font file describes what the font really contains",
 "For every font file (single font, collection, variable font with its named instances), scanning gives one pattern per face and non default instance, in order, whose coverage is exactly the characters mapped to a glyph, whose languages are exactly those whose orthography is covered (respecting the Han code page bits), whose names are those of the name table in every language, preferred names first, each with its language, and whose weight, width, slant, spacing, size, foundry, capabilities, flags and index follow the tables of the font. Directories are walked recursively, each once, links to files resolved, the scan rules and the accept and reject selectors of the configuration applied; files which are not fonts are ignored, damaged ones never crash or hang the scan.",
 ["inputs"], "all font files built from arbitrary names, encodings, languages, coverages, metrics, classes and axes; all small trees of files, links and selectors; damaged files",
 "Tests scan a few installed fonts; names in several languages, missing tables, collections, instances and selectors combine freely.",
 [FC+"scan.go", FC+"config.go", FC+"lang.go", FC+"partial_scan.go"],
 [("face description", FC+"scan.go:queryFace"), ("coverage", FC+"scan.go:getCharSet, "+FC+"lang.go:buildLangSet"), ("directories and selectors", FC+"config.go:readDir")],
 ["scanned patterns"], ["ScanFontRessource, ScanFontFile, ScanFontDirectories results"], None, MODEL,
 EXPL + " Damaged files which crash the font parsers of the textlayout module are counted, not judged: that module is not under test.")
prop("F12", "Patterns are ordered multimaps with type checks",
 "After any history of additions (front or back), deletions, duplications and builds, a Pattern holds for each object exactly the values accepted, in order; values of a wrong type are refused; duplicates are independent; equal contents have equal hashes, different contents different hashes; and typed getters return the first value of a convertible type.",
 ["inputs", "histories"], "all histories of pattern operations with all types of values",
 "The tests add a few values; aliasing between duplicates and hash collisions need histories.",
 [FC+"pattern.go", FC+"values.go"], [("pattern", FC+"pattern.go"), ("type checks", FC+"values.go:hasValidType")], ["value lists"], ["Pattern methods"], None, MODEL, EXPL)
prop("F13", "SubstituteDefault completes the query and nothing else",
 "For every pattern, SubstituteDefault adds the documented default values of exactly the missing objects (weight, slant, width, booleans, sizes related by scale and dpi, languages of the locale), never alters existing values, and is idempotent; the default language follows LC_ALL, LC_CTYPE then LANG, with known languages keeping their territory.",
 ["inputs"], "all patterns, all locale environments",
 "The relation of size, pixel size, scale and dpi and the normalization of locales depend on which of them are present and on their types.",
 [FC+"pattern.go", FC+"lang.go"], [("defaults", FC+"pattern.go:SubstituteDefault"), ("locale", FC+"lang.go:getDefaultLang")], [], ["SubstituteDefault result"], None, MODEL, EXPL)
prop("F14", "Weight scales convert monotonically and inversely",
 "WeightFromOT and WeightToOT are monotonic piecewise linear maps through the documented points, inverse of each other between the lightest and the heaviest ones; heavier values are clamped and values out of the scale refused.",
 ["inputs"], "all weights", "Tests check the named points only; interpolation between them and outside must hold for all floats.",
 [FC+"fontconfig.go"], [("maps", FC+"fontconfig.go:WeightFromOT, WeightToOT")], [], ["WeightFromOT", "WeightToOT"], None, MODEL, EXPL)

prop("F16", "The languages of the locale reach the queries in their order",
 "For every content of FC_LANG, LC_ALL, LC_CTYPE and LANG, the default languages of a process are those of the first variable which is not empty, in the order of their list, without repetition, the names which are not locales being ignored, English being used when none is left. Substitute adds them in this order after the languages of a query, until one of them is already asked for or the language is undetermined; the first one is the default language of the names given by SubstituteDefault and the one List puts first. The same process always gives the same answers.",
 ["inputs", "configurations"], "all values of the environment variables and all languages in the query",
 "The variables are read once in a process, so that tests see one locale only, that of the developer; users have lists of preferred languages.",
 [FC+"fontconfig.go", FC+"lang.go", FC+"substitutions.go", FC+"list.go"], [("locale", FC+"fontconfig.go:getDefaultLangs"), ("names", FC+"lang.go:normalizeLang"), ("queries", FC+"substitutions.go:substituteLang"), ("names first", FC+"list.go:getDefaultLang")],
 ["default languages"], ["LANG, NAMELANG, FAMILYLANG of the queries", "Fontset.List result"], None, MODEL, EXPL + " Each case is a process of its own, with its locale.")
prop("F15", "Configurations and font sets are shared safely between goroutines",
 "A Config and a Fontset which are no longer modified, including the standard configuration, may be used by any number of goroutines at once: substitutions, matches, sorts, lists, renderings, scans, reads and writes on them are free of data races, give the result they give alone, and leave the shared objects unchanged.",
 ["schedules", "inputs"], "all interleavings of the reading operations of several goroutines over shared configurations and font sets",
 "The tests are sequential; hidden caches and aliased values only show under concurrent use.",
 [FC+"config.go", FC+"match.go", FC+"substitutions.go", FC+"fontconfig.go", FC+"standardconf.go"],
 [("shared configuration", FC+"config.go:Config"), ("default languages", FC+"fontconfig.go:getDefaultLangs"), ("shared values", FC+"pattern.go:Duplicate")],
 ["Config, Fontset, Pattern values"], ["race reports", "results compared with the sequential ones"], None, RACE,
 EXPL + " Interleavings are those of the Go scheduler under random yields; the race detector reports unordered accesses on the paths executed.")

# ------------------------------------------------------------------ pango
PA = "pango/"
prop("P01", "Text boundaries follow the Unicode segmentation and line breaking rules",
 "For every text, the cursor positions are the extended grapheme cluster boundaries of UAX #29, the word boundaries are its word boundaries, the sentence boundaries its sentence boundaries, and the line breaks (optional and mandatory) those of UAX #14, apart from the script tailorings (joiners in Indic texts) and from the documented approximations of the classes inherited from the C library. There is one attribute per character plus one.",
 ["inputs"], "all texts, over every combination of character classes, up to a few tens of characters",
 "The conformance test of the repository skips every line of the Unicode files; the rules interact over unbounded contexts (pairs of regional indicators, combining marks, look ahead in numbers and sentences).",
 [PA+"break.go"], [("all boundaries", PA+"break.go:pangoDefaultBreak"), ("character classes", PA+"break.go:resolveSentenceBreakType, labelAlphabetic")],
 ["previous classes of each rule set"], ["ComputeCharacterAttributes result"], None, MODEL, EXPL + " Sequences where the one pass algorithm shared with the C library departs from the rules (listed in DESIGN.md) are not compared.")
prop("P02", "Character attributes agree with each other and with the text",
 "For every text: word starts and ends delimit the maximal runs of letters, numbers and their marks (Japanese words being split at the script changes), sentence starts and ends delimit the sentences without the space around them, both alternating; white and expandable spaces are the expected characters; every cursor position inside the text is a character break and mandatory breaks are line breaks; the first position is no line break and the last one is; sentences do not end inside words, nor words inside graphemes; hyphens are inserted inside words of the scripts using them only and never next to a space or a hyphen, after soft hyphens and hyphenation points; backspace deletes single characters for the scripts where marks are typed separately. In a text of one Indic script, the cursor and the lines stop neither around a joiner nor after the virama following it (in Sinhala, only inside the groups of consonants joined by a virama and a joiner), and the composed letters and vowels are deleted whole, as are the Arabic letters with their madda or hamza. In Catalan, a middle dot between two l is inside the word.",
 ["inputs"], "all texts, over every combination of character classes and mixed prose",
 "The tests compare a few files of expected results (which depend on the C library version); the relations must hold for all texts.",
 [PA+"break.go", PA+"break_arabic.go", PA+"break_indic.go"], [("words, sentences, hyphens", PA+"break.go:pangoDefaultBreak"), ("tailoring", PA+"break.go:tailorBreak")],
 ["word and sentence state"], ["ComputeCharacterAttributes result"], None, MODEL, EXPL)
prop("P03", "Attribute lists keep the value of every position through their operations",
 "After any history of Insert, Change and Filter: the list is sorted by start, attributes with the same start in order of insertion; Insert adds exactly the attribute; Filter removes exactly the attributes selected, calling the function once on each, and returns them in order; Change, on lists built by it, gives the new value to exactly its range, keeps the values of every other position and kind, and leaves one attribute for each maximal range of equal values.",
 ["inputs", "histories"], "all histories of operations on a few kinds and positions, including ranges open to the end",
 "The tests check some splits; the attributes trimmed, moved and merged by one change depend on all the previous ones.",
 [PA+"attributes.go"], [("change", PA+"attributes.go:Change"), ("insertion", PA+"attributes.go:pango_attr_list_insert_internal"), ("filter", PA+"attributes.go:Filter")],
 ["attribute list"], ["AttrList content after each operation"], None, MODEL, EXPL)
prop("P17", "Units, scale factors and language samples have their defined values",
"For every value: Pixels, PixelsFloor and PixelsCeil of a position in Pango units are the integers nearest to (halves up), not above and not below it; the scale factors of a transformation are the length of the image of the horizontal unit vector and the ratio of the determinant to it (0 for a degenerate matrix); a gravity is vertical exactly for East and West and improper exactly for West and North; the sample text of a language, whatever the case and separators of its name, is that of the entry of the table (the one of the C library) with the longest sequence of leading subtags of the name, and a common pangram when there is none.",
["inputs"], "all positions, matrices with finite entries, and language tags made of known and unknown subtags",
"No test covers the ties, the negative positions, the degenerate matrices, or the partial language names.",
[PA+"glyphs.go", PA+"pango.go", PA+"gravity.go", PA+"language.go"], [("pixels", PA+"glyphs.go:Unit.Pixels"), ("scales", PA+"pango.go:GetFontScaleFactors"), ("gravity", PA+"gravity.go:IsVertical"), ("samples", PA+"language.go:SampleString, findBestLangMatch")],
["values"], ["results of the functions"], None, MODEL, EXPL + " The table of samples is a copy made from the C library 1.52; the languages it gained after the version ported are excluded (DESIGN.md).")
prop("P08", "Lines break at the last opportunity which fits, and keep every character once",
 "For every text, set of attributes, width, wrap mode, indent, tabs and paragraph options: the lines and their paragraph delimiters cover the text exactly once and in order, a paragraph starts after each separator; each line ends at the last allowed break (of the wrap mode; at characters if nothing else fits) whose width, counting hyphens and without the final collapsed space, fits; a forced line separator ends a line; runs partition the line in visual order (bidi rule L2); the width of each cluster and of the line is the one of its characters; IsWrapped, GetLine and GetLineCount agree.",
 ["inputs"], "all texts (left to right, right to left, mixed), attributes, widths and layout options, with fonts of known metrics",
 "The layout tests compare a few images of text at one width; the break chosen depends on the width of every item, hyphen, tab and space before it.",
 [PA+"layout.go", PA+"layout_line.go"], [("breaking", PA+"layout.go:processItem, tryAddItemToLine"), ("lines", PA+"layout_line.go"), ("paragraphs", PA+"layout.go:checkLines")],
 ["paraBreakState", "log widths"], ["GetLines result, runs and glyphs"], None, MODEL, EXPL + " Choices the item by item search may take instead of the best one around hyphens at item boundaries and hanging spaces are accepted (DESIGN.md).")
prop("P09", "A layout depends on its settings, not on its history",
 "After any sequence of changes of a layout and of its context (text, markup, attributes, tabs, widths, heights, wrap, ellipsize, alignment, justification, direction, spacing, font descriptions, language, gravity, rounding) mixed with queries, everything visible of the layout is what a new layout in a new context gives with the final settings; asking again changes nothing, a rejected markup changes nothing, and the values given by the caller are never modified. (A height without ellipsize mode is documented as undefined.)",
 ["histories", "inputs"], "all interleavings of changes and queries of a layout and its context",
 "Each setter decides by itself whether the cached lines stay valid; a wrong decision shows only after a particular state, change and query.",
 [PA+"layout.go", PA+"context.go", PA+"layout_line.go", PA+"tabs.go", PA+"fcfonts/fonts.go"], [("invalidation", PA+"layout.go:layoutChanged, checkContextChanged, setters"), ("caches", PA+"layout_line.go:getExtentsAndHeight, "+PA+"fcfonts/fonts.go:GetMetrics")], ["cached lines, extents, tab width, log attributes, font metrics"], ["runs, glyphs, fonts, extents, positions, cursors, log attributes"], None, META, EXPL)
prop("P10", "Cursors, positions and selections follow the graphemes in visual order",
 "In every layout: the position of an index is its grapheme's leading edge and signed width on the line which contains it (the end of the line for delimiters); the strong and weak cursors are the trailing edge of the previous grapheme and the leading edge of the next one, the strong one on the side of the base direction; the ranges of a selection are exactly the graphemes selected, extended to the edges when the selection goes beyond the line; moving the cursor goes through the positions in visual order, every move going to a cursor position of the same or an adjacent line in the direction asked, and leaves the layout at its ends.",
 ["inputs"], "all layouts (see P08), all indexes, selections and sequences of moves",
 "Positions come from sums over runs and clusters in visual order with special cases at the edges of lines and changes of direction; the tests (not passing here) look at a few layouts.",
 [PA+"layout_cursors.go", PA+"layout.go", PA+"layout_line.go", PA+"glyphs.go"], [("moves", PA+"layout_cursors.go:MoveCursorVisually"), ("cursors", PA+"layout_cursors.go:GetCursorPos"), ("positions", PA+"layout.go:IndexToPos"), ("ranges", PA+"layout_line.go:GetXRanges")],
 [], ["IndexToPos, IndexToX, GetCursorPos, GetXRanges, MoveCursorVisually, GetDirectionAt"], None, MODEL, EXPL)
prop("P11", "Layout iterators visit lines, runs, clusters and characters once, in place",
 "Any sequence of NextLine, NextRun, NextCluster and NextChar on an iterator visits the lines in order and inside them the runs, clusters and characters in visual order, with the position at the end of each line for runs and the paragraph delimiters for characters; Index, GetRun, GetLine, IsAtLastLine, the baseline and the extents of line, run, cluster and character are the ones of the current position, the extents tiling the line.",
 ["inputs", "histories"], "all layouts (see P08), all sequences of moves of the iterator",
 "The state of the iterator (run, cluster, character, terminators) after a mixed history of calls is not covered by tests walking one unit at a time.",
 [PA+"layout_iter.go"], [("iterator", PA+"layout_iter.go:LayoutIter")], ["iterator state"], ["LayoutIter methods"], None, MODEL, EXPL)
prop("P12", "Clusters partition the characters of a run in order and share its width",
 "For every run: there are as many clusters as glyphs, in the order of the direction, starting with the first character; iterators over clusters give the same partition of the characters forward, backward and in any mixed walk; the logical widths of the characters share the width of their cluster; positions inside the run are the edges of the clusters and are continuous; the extents are the sum and the union of the ones of the glyphs; shaping again an item gives the same glyphs; letter spacing adds exactly its value between the characters of a line.",
 ["inputs", "histories"], "all texts shaped with ligatures, decomposed and reordered characters, real and synthetic fonts",
 "Ligatures, marks and right to left runs give clusters of several characters or glyphs, whose bounds are found by scanning in both directions.",
 [PA+"glyph_item.go", PA+"glyphs.go", PA+"shape.go"], [("clusters", PA+"glyph_item.go:GlyphItemIter"), ("positions", PA+"glyphs.go:indexToXFull"), ("shaping", PA+"shape.go:harfbuzzShape")], ["cluster iterator"], ["GlyphItemIter, GetLogicalWidths, IndexToX, Extents, ShapeRange"], None, MODEL, EXPL)
prop("P14", "Alignment, indentation and justification place the lines in the width",
 "In every layout the lines are at the position given by the alignment (mirrored for right to left lines), the indentation and the width; justifying changes neither the breaks nor the clusters; justified lines (all but the last ones, unless asked) which are shorter than the width fill it exactly by sharing the missing width between their expandable spaces in proportion of their width (in whole pixels when it is a whole number of them), or without spaces evenly between their graphemes; the other lines keep their widths.",
 ["inputs"], "all layouts (see P08), with and without justification",
 "The share of each space depends on the whole line, with roundings, collapsed spaces and hyphens at its end.",
 [PA+"layout_line.go"], [("justification", PA+"layout_line.go:justifyWords, justify_clusters"), ("alignment", PA+"layout_line.go:get_x_offset")], ["remaining width"], ["glyph widths, line extents"], None, MODEL, EXPL)
prop("P21", "The extents of a layout are its lines, stacked",
 "In every layout: the logical extents of a line are the union of its runs, the lines are stacked with the spacing, or their baselines are separated by the line spacing factor times the line height; the extents and size of the layout are the union of its lines, its baseline the first one; inks are the union of the inks of the parts; the answers do not depend on the order of the queries.",
 ["inputs", "histories"], "all layouts (see P08), all orders of queries",
 "The extents are cached by line and invalidated when lines are handed out: answers after different sequences of queries must agree.",
 [PA+"layout.go", PA+"layout_line.go"], [("extents", PA+"layout.go:getExtentsInternal"), ("line extents", PA+"layout_line.go:getExtentsAndHeight")], ["extents caches"], ["GetExtents, GetSize, GetBaseline, line extents"], None, MODEL, EXPL)
prop("P18", "Goroutines with their own layouts never interfere",
 "Goroutines which use their own contexts and layouts - with their own font maps over a shared fontconfig configuration and font set - may run at the same time: no operation (layout, shaping, itemization, markup, breaks, metrics, descriptions, bidi conversions) races with another one, and each gives the result it gives alone.",
 ["inputs", "schedules"], "batches of tasks of all kinds run by several goroutines in random interleavings",
 "The packages keep global caches and pools (shaping buffer, languages, unicode tables, regular expressions) which single goroutine tests cannot see fail.",
 [PA+"shape.go", PA+"language.go", PA+"context.go", PA+"fcfonts/fonts.go", "fribidi/bidi.go"], [("shaping buffers", PA+"shape.go"), ("languages", PA+"language.go"), ("font maps", PA+"fcfonts/fonts.go")],
 ["package variables, shared fontconfig configuration and font set"], ["race reports", "results compared with the sequential ones"], None, RACE,
 EXPL + " Interleavings are those of the Go scheduler under random yields; the race detector reports unordered accesses on the paths executed.")
prop("P15", "Font descriptions read the documented words and are written back the same",
 "A string made of families, style words, a size and variations is read as the documented fields, whatever the case of the words and their hyphens, the list of families being optionally ended by a comma; setting, unsetting and reading fields follow a record of optional fields with their default values; the string form of any description, including families ending by a keyword or a number, is read back as the same description; any other string is read without failing; hashes are equal for descriptions which differ by the case of the family only.",
 ["inputs", "histories"], "all strings, all histories of setters, sizes up to one million points, family names without words starting by @",
 "Two strings are tested; words, numbers and commas are ambiguous between the families, the options and the size.",
 [PA+"fonts.go", PA+"gravity.go"], [("reading", PA+"fonts.go:NewFontDescriptionFrom"), ("writing", PA+"fonts.go:String"), ("fields", PA+"fonts.go:UnsetFields")], [], ["FontDescription values and strings"], None, MODEL, EXPL)
prop("P13", "Ellipsized lines lose the smallest gap at the right place and fit the width",
 "In a layout with an ellipsize mode and a width: the height bounds the lines of each paragraph (negative) or of the layout (positive), the last line allowed taking the rest of its paragraph; such a line which is too wide has exactly one gap of whole graphemes replaced by an ellipsis, around its start, middle or end, growing on the side which stays the closest to this place and only until the line fits; the ellipsis (three dots when the font lacks it) has the size of the first character removed, the lowest embedding level of the gap, fills the width exactly, and stands for all its characters; the other lines are the ones of the layout without ellipsis; IsEllipsized tells whether a gap was made.",
 ["inputs"], "all layouts (see P08) with the three modes and any height, the positive heights with lines of the same height",
 "The tests (not passing here) look at two short texts; the gap crosses items, levels, sizes, marks and tabs.",
 [PA+"ellipsize.go", PA+"layout.go"], [("gap", PA+"ellipsize.go:removeOneSpan, findInitialSpan"), ("line allowed", PA+"layout.go:shouldEllipsizeCurrentLine"), ("runs", PA+"ellipsize.go:getRunList, fixupEllipsisRun")], ["ellipsizeState"], ["GetLines result, runs and glyphs, IsEllipsized"], None, MODEL, EXPL)
prop("P05", "Markup gives the text and the attributes of its elements, or an error",
 "For any document of the markup language: the text is the one of the document (entities, CDATA and comments as in XML), accelerator markers are removed (doubled ones written once), the characters they mark are underlined and the first one returned; every character has the attributes of the elements around it with the values written, inner elements first, relative sizes being relative to the size or scale in force; the order of the list follows the text and its ranges stay inside. Unknown elements, attributes, values, repeated attributes, malformed or incomplete documents are errors; no input panics.",
 ["inputs"], "all markups (random trees with every tag and attribute, every named color), broken and mutated ones",
 "The tests (most of them) use a few valid and invalid documents; the nesting of sizes, fonts and accelerators is unbounded.",
 [PA+"markup.go", PA+"color.go", PA+"color_table.go", PA+"fonts.go"], [("elements", PA+"markup.go:openTag, endElementHandler"), ("values", PA+"markup.go:span_parse_func"), ("accelerators", PA+"markup.go:textHandler"), ("colors", PA+"color.go")], ["stack of tags"], ["ParseMarkup result"], None, MODEL, EXPL)
prop("P06", "Itemization cuts any text where its level, script, language or font changes",
 "For any text, attribute list, context and base direction, the items partition the text in logical order; each character is in an item with its embedding level, its script (common and inherited characters taking the one around them), its language (from the attribute, the context, or the script), the gravity resolved from its orientation, the attributes active on it, and the first font of the description (or of the emoji font, for emoji presentations) which has it, spaces, controls and marks staying with their neighbours; adjacent items differ by one of these. Itemizing changes neither its text, list, context nor descriptions, and gives the same result again.",
 ["inputs", "histories"], "all texts (without explicit bidi controls), attribute lists, gravities and fallback fonts",
 "Only one test itemizes a few short strings; the iterators over levels, scripts, widths, emojis, fonts and attributes advance separately.",
 [PA+"context.go", PA+"language.go", PA+"script.go", PA+"emoji.go", PA+"gravity.go"], [("itemization", PA+"context.go:newItemizeState, process_run"), ("languages", PA+"language.go"), ("fonts", PA+"context.go:getFont, addCharacter")], ["itemizeState, font cache"], ["Itemize result, fonts asked to the font map"], None, MODEL, EXPL)
prop("P04", "The attributes of a layout reach exactly the characters of their ranges",
 "Each run of a layout has the font (scaled by the size, font scale and small caps in force), language, letter case and attributes of its characters and of no others: the fonts and languages of the innermost attributes, all the font features and shape attributes in their order, the colors and lines cut at the boundaries of clusters, the raise of the baseline shifts and rises in force, whatever the paragraphs and lines the attributes go over; each character not ending a paragraph is in one run.",
 ["inputs"], "all texts and attribute lists, with fonts which have the small capitals features or not",
 "Attributes are split in three groups applied at different stages (items, shaping, lines): their ranges cross items, lines and paragraphs.",
 [PA+"item.go", PA+"layout.go", PA+"layout_line.go", PA+"attributes.go"], [("items", PA+"item.go:pango_item_apply_attrs, splitItemForVariant, applyFontScale"), ("lines", PA+"layout_line.go:applyBaselineShift"), ("groups", PA+"attributes.go")], ["stacks of scales and shifts"], ["items, fonts, attributes and extents of the runs"], None, MODEL, EXPL)
prop("P20", "No text, attribute or setting makes a layout fail or lose its structure",
 "For any text (any bytes given as UTF-8, any code points), attribute list and settings (as long as the positions stay under 2^30 units and the matrix is regular), with any fonts, every query of a layout, of its lines and iterators ends without panicking; the lines cover the text but its separators and the lines dropped by the height, the runs of a line cover it, each run has glyphs in monotonic clusters inside it, the iterators end, and the indices returned are in the text.",
 ["inputs", "histories"], "all texts and settings, with real fonts, generated ones and fonts without tables",
 "Each test drives one known crash; the failures come from combinations of scripts, levels, gravities, marks, controls and extreme attribute values.",
 [PA+"layout.go", PA+"layout_line.go", PA+"shape.go", PA+"glyphs.go", PA+"context.go", PA+"layout_iter.go", PA+"layout_cursors.go", PA+"ellipsize.go"], [("layout", PA+"layout.go"), ("shaping", PA+"shape.go:harfbuzzShape"), ("glyphs", PA+"glyphs.go")], ["layout caches"], ["panics, hangs, structure of lines, runs, glyphs"], None, INV, EXPL)
prop("P16", "Tab stops place the parts of a paragraph as their alignments demand",
 "In an unwrapped paragraph, each tab goes to the first stop (in increasing order, after the one of the tab before, the last gap being repeated, or every eight spaces by default) beyond the text so far - by one space for the default ones; the text up to the next tab then starts at the stop, ends at it, is centered on it, or has its decimal point (the one of the stop, or a dot) centered on it, and follows the tab immediately when there is no room; stops are relative to the margin, not to the indent, may be given in pixels and in any order, and the array given is copied and unchanged.",
 ["inputs"], "all texts with tabs in one line by paragraph, stops of distinct positions and any alignment",
 "No test has aligned tabs; the width of a tab depends on the parts after it, in several runs, and the state goes from a tab to the next one.",
 [PA+"tabs.go", PA+"layout.go", PA+"layout_line.go"], [("positions", PA+"layout.go:get_tab_pos"), ("tabs", PA+"layout_line.go:shapeTab, shapeRun, insertRun")], ["lastTabState"], ["widths of the glyphs, IndexToX"], None, MODEL, EXPL)

prop("P22", "Runs and lines have the heights of their fonts, shifts and line heights",
 "The logical extents of a run are the ones of its font at its size (or of its shape, once by character), raised by the sum of the baseline shifts and rises in force (superscripts and subscripts by the offsets of the font before them, or 5000 units); its ink is the union of its glyphs, extended for underlines, overlines and strikethroughs; line heights, relative or absolute, share their leading equally above and below the run; a line is the union of its runs and of the origin, an empty line has the font and line height in force there; baselines, clusters, characters, positions and cursors are at the height of their runs.",
 ["inputs"], "all texts of several paragraphs, wrapped or not, with sizes, font scales, rises, nested baseline shifts, line heights, shapes, lines over and under the text at any range",
 "The attributes combine by run, the shifts last over lines and are relative to other runs, and hyphens are shaped after the state moved to the next run; tests have one or two attributes.",
 [PA+"glyph_item.go", PA+"layout_line.go", PA+"layout.go", PA+"item.go"], [("run extents", PA+"glyph_item.go:getExtentsAndHeight"), ("shifts", PA+"layout_line.go:applyBaselineShift"), ("empty lines", PA+"layout.go:getEmptyExtentsAndHeightAt")], ["baselineShifts, properties of the run being shaped"], ["GetExtents, GetRunExtents, GetBaseline, IndexToPos, GetCursorPos"], None, MODEL, EXPL)

prop("P19", "The fonts of a description are the ones fontconfig gives, with its size",
 "The fontset of a description is the best match of its pattern (families, weight, slant, width, size in points and pixels, language, features of the variant, variations, after the substitutions of the configuration), then the other fonts in order, without the ones which cannot be loaded; the same request gives the same fonts, until the configuration changes; a font describes itself with its family, style, weight, stretch, variant, variations and size, covers exactly the characters of its face, and has its extents and metrics at the size asked, whatever the rotation and scale of the context.",
 ["inputs", "histories", "fault_sequences"], "all descriptions, languages, isotropic matrices, configurations, subsets of synthetic fonts which fail to load, sequences of requests and changes of the configuration",
 "Tests load fonts of the system for a few descriptions, and never fail to load one; three levels of caches are shared by the requests.",
 ["pango/fcfonts/fontmap.go", "pango/fcfonts/fonts.go", "pango/fcfonts/fonset.go"], [("patterns", "pango/fcfonts/fontmap.go:makePattern, getFontPattern"), ("fontsets", "pango/fcfonts/fonset.go:loadNextFont"), ("fonts", "pango/fcfonts/fonts.go:loadHBFont, Describe, GlyphExtents, getFaceMetrics")], ["fontset, pattern, font and face caches"], ["LoadFontset, Foreach, Font methods"], None, MODEL, EXPL)

TB = ' Trusted: the VC generator, clang\'s AST, z3/cvc5, the library models and assumptions listed in the evidence. The replay harness is bounded testing and not counted as proof.'
prop('C13', 'Compound elements faithfully enclose and spell their parts',
     'Every word, text line, text block and page segment that is created from parts has as bounding box the smallest box enclosing exactly its parts (for coordinates of any sign), holds its parts unchanged, and its parts refer back to it. Its text is the parts\' texts in order (words: the characters\' texts with merged diacritics; lines and blocks: the words separated by single spaces), its font name and size are most frequent among its parts, and a text block is chained with the block and its lines with the lines before and after.',
     ['inputs'], 'all non-empty lists of characters, words, lines or page elements with finite coordinates, any sign, rotation, fonts and texts',
     'The tests create one segment from three positive boxes; tightness, containment and text hold for every list, sign and order.',
     ['src/utils/WordsDetectionUtils.cpp', 'src/utils/PageSegmentationUtils.cpp', 'src/TextLinesDetection.cpp', 'src/utils/TextBlocksDetectionUtils.cpp'],
     [('running minimum/maximum over the parts', 'WordsDetectionUtils::createWord, PageSegmentationUtils::createPageSegment, TextLinesDetection::computeTextLineProperties, TextBlocksDetectionUtils::createTextBlock'), ('text concatenation', 'the same functions'), ('most frequent font', 'DoubleCounter/StringCounter::mostFreq')],
     ['fields of the created element', 'the JSONL output'],
     'Box containment and tightness, text folds, back references, chains and frame conditions of createWord, createPageSegment, computeTextLineProperties, createTextLine, mergeTextLines and createTextBlock are proved for all inputs; the most frequent font is checked by the bounded harness (the counters themselves are proved in C16).' + TB)
prop('C15', 'Numeric comparisons and rounding mean exactly what they say',
     'For every combination of doubles including NaN, infinities and signed zeros: two numbers are equal when their difference is at most the tolerance, larger/smaller when they differ by more than the tolerance, and the weak variants and "between" are consistent with these; minimum and maximum return the least/greatest of their arguments. Rounding yields the nearest number with the given number of decimals, halves away from zero.',
     ['inputs'], 'all doubles and tolerances (bit-precise IEEE-754 semantics)',
     'Tests compare a handful of values; the boundary behaviour (differences at the tolerance, NaN, infinities, rounding of sums) is a statement over all 2^192 argument triples.',
     ['src/utils/MathUtils.cpp', 'src/utils/MathUtils.h'],
     [('tolerance comparisons', 'ppp::utils::math::equal/larger/smaller/equalOrLarger/equalOrSmaller/between'), ('extrema', 'ppp::utils::math::minimum/maximum'), ('rounding', 'ppp::utils::math::round')],
     ['return values'],
     'Proved bit-precisely in the floating-point theory for all doubles, except rounding to one or more decimals (std::pow is not interpreted), which the bounded harness checks.' + TB)
prop('C16', 'Counters report true maxima, sums and most frequent keys',
     'For every sequence of updates, a counter reports as most frequent a stored key whose count no other key exceeds, together with exactly that count, and the sum of all counts (modulo 2^32). The maximum of a double counter is a key with positive count that no other such key exceeds by more than the default tolerance, for keys of any sign; these queries throw exactly when no key has a positive count.',
     ['inputs', 'histories'], 'all contents of the counters (any number of keys, any sign, any counts, any iteration order)',
     'Tests use at most five positive keys; the iteration order of the hash map and keys at or below zero are never exercised.',
     ['src/utils/Counter.cpp', 'src/utils/Counter.h'],
     [('scan over the map', 'DoubleCounter/StringCounter::mostFreqAndCount, mostFreq, mostFreqCount, max, sumCounts')],
     ['return values', 'exceptions'],
     'Proved for every map content and every iteration order, with quantified loop invariants; exact exception conditions are obligations too.' + TB)
prop('C14', 'Positions, gaps and overlaps are geometrically exact',
     'For every box and rotation: the rotated left/upper/right/lower coordinates are the sides met when the page is turned so that the text is upright (1: upper, right, lower, left; 2: right, lower, left, upper; 3: lower, left, upper, right; otherwise left, upper, right, lower), the (rotated) width and height are the extents along these directions. The horizontal (vertical) gap is the distance from the right (lower) side of the left (upper) element to the left (upper) side of the other, for every rotation, where the first element comes first only if it starts more than 0.0001 before the second. Overlap ratios are overlap length divided by interval length (0 for empty intervals), lie in [0, 1] and do not depend on the order of the interval ends; the maximum overlap ratios are the larger of the two. The equality tests compare exactly the named side or font attribute with the given tolerance.',
     ['inputs'], 'all boxes with finite coordinates, rotations, tolerances and fonts',
     'Tests use a few upright boxes; rotated boxes, negative coordinates, touching and degenerate intervals and swapped ends are not sampled.',
     ['src/Types.cpp', 'src/utils/PdfElementsUtils.cpp'],
     [('rotated getters', 'PdfPosition::getRotLeftX/UpperY/RightX/LowerY/Width/Height'), ('gaps, overlaps, offsets, equality', 'ppp::utils::elements::compute*')],
     ['return values'],
     'Getters, gaps, offsets and comparisons proved bit-precisely (IEEE-754); the overlap ratios proved in the ordered-field abstraction of doubles (range [0,1] and exact formula).' + TB)
prop('C17', 'Text helpers lose, invent and reorder no characters',
     'For every byte string: escapeJson yields the text of a JSON string that decodes to exactly the input (quote, backslash and control characters escaped, every other byte unchanged). splitIntoWords appends exactly the maximal runs of characters that are not delimiters, in order. strip removes exactly the leading and trailing white space, shorten keeps strings of at most the given length and otherwise returns the prefix of that length followed by "...", join places exactly one separator between consecutive strings (empty ones included). createRandomString returns the prefix followed by the requested number of characters of the alphabet, each of which can occur. startsWithUpper and endsWithSentenceDelimiter decide by the first and last character. wrap keeps all words in order.',
     ['inputs'], 'all byte strings, delimiters, lengths and alphabets',
     'Tests use a few ASCII strings; control characters, embedded zeros, non-ASCII bytes, empty and white-space-only strings are not sampled.',
     ['src/utils/TextUtils.cpp'],
     [('escaping', 'ppp::utils::text::escapeJson'), ('splitting and joining', 'splitIntoWords, join, wrap'), ('trimming', 'strip, shorten'), ('random ids', 'createRandomString')],
     ['return values'],
     'escapeJson, strip, shorten, join, createRandomString and the predicates are proved for all strings (fold or character-wise string theory); splitIntoWords and wrap are only checked by the bounded harness.' + TB)

prop('C02', 'JSONL output holds exactly one valid record per selected element',
     'For every document, set of kinds (empty: all) and set of roles (empty: all), the JSONL serializer writes one line per selected page, block, word, character, figure and shape and nothing else. Each line is a syntactically valid JSON object with exactly the documented fields of its kind (type, id, rank, page, minX, minY, maxX, maxY, font, fontSize, text, role, block, word, weight, italic, type-3, color, opacity, wMode, rotation, origin; pages: num, width, height), whose decoded values are those of the element: strings byte for byte, numbers to six significant digits. Records of a kind appear in document order. Blocks, words and characters are written only when the role of their block is selected; characters merged into a base character as diacritic marks are skipped, and their base character carries the merged text.',
     ['inputs'], 'all documents with finite coordinates whose characters have a font info, all sets of kinds and roles, all texts and font names',
     'Tests serialize a few documents; quotes, control characters, empty lists, role filters combined with kinds and merged diacritics are not sampled.',
     ['src/serializers/JsonlSerializer.cpp', 'src/serializers/Serializer.cpp', 'src/utils/TextUtils.cpp'],
     [('record per element', 'JsonlSerializer::serializePages/Characters/Words/TextBlocks/Figures/Shapes'), ('selection', 'JsonlSerializer::serializeToStream'), ('escaping', 'ppp::utils::text::escapeJson')],
     ['the written JSONL text'],
     'The exact output text of every serialize method is proved as a nested fold over pages, blocks, lines, words and characters (any number), including role filter, escaping of texts and font names and the skipped marks; number formatting is uninterpreted. JSON validity, the selection of all kinds for an empty set and the file handling are checked by the bounded harness, which parses every line with an independent parser.' + TB)
prop('C03', 'Plain text output keeps every selected word once, in order',
     'For every document and set of roles (empty: all), the plain text output is the text of the selected blocks in document order, separated by exactly one empty line and followed by one newline. The text of a block is its words in order separated by exactly one space: a word is written with the texts of its characters (merged diacritics in place of base characters, marks skipped), a hyphenated word is written once, merged, at its first part, and its second part is omitted. When serializing to a file, exactly this text replaces the content of the file with exactly the given path (creating missing parent directories), whatever characters the path contains; the path "-" means standard output.',
     ['inputs'], 'all documents, role sets, texts and paths',
     'Tests compare the output for a few documents with all roles selected; role filters, blocks without words, empty pages and unusual paths are not sampled.',
     ['src/serializers/PlainTextSerializer.cpp', 'src/serializers/Serializer.cpp'],
     [('nested loops with separators', 'PlainTextSerializer::serializeToStream'), ('file handling', 'Serializer::serialize')],
     ['the written text', 'the file system'],
     'The exact output text is proved as a nested fold for documents of any size; file handling is checked by the bounded harness.' + TB)
prop('C04', 'Extended plain text marks roles, emphasis and page breaks exactly',
     'For every document and set of roles (empty: all), the extended plain text output consists of the selected blocks in document order, separated by exactly one empty line (also across page breaks), each prefixed by its role name in upper case in square brackets and one space, then the control character 1 exactly if the block is emphasized, then its words as in the plain text output. Every page, including pages without selected blocks, ends with a newline and a form feed, and the output ends with a newline.',
     ['inputs'], 'all documents, role sets and texts',
     'Tests compare one document; emphasis, empty pages and role filters in combination are not sampled.',
     ['src/serializers/PlainTextExtendedSerializer.cpp', 'src/utils/PdfElementsUtils.cpp'],
     [('nested loops with separators and marks', 'PlainTextExtendedSerializer::serializeToStream')],
     ['the written text'],
     'The exact output text is proved as a nested fold for documents of any size; the upper-case mapping is uninterpreted and checked with the file handling by the bounded harness.' + TB)
prop('C05', 'The XY-cut partitions the elements at real gaps',
     'For every list of elements, minimum gaps, overlap limit and choice among the cut candidates: the groups produced by the XY-cut (and by single x- and y-cuts) are non-empty and together hold each given element exactly once; groups and cuts already in the result lists stay. Each candidate lies between two consecutive elements of the sorted list, at increasing positions, in the middle of a gap that is at least the minimum; at most the allowed number of elements reach across an x-cut, none across a y-cut, and every such gap is a candidate. A cut is reported exactly if one was chosen, and the groups are the sorted elements divided at the chosen cuts; when every candidate is chosen, no group can be divided further.',
     ['inputs'], 'all lists of elements, sizes, overlaps, gap limits and choosing strategies',
     'Losing or duplicating one element at one particular cut loses text of the document; the space of layouts and chosen cuts is unbounded and no test covers the XY-cut.',
     ['src/utils/XYCut.cpp'],
     [('groups are slices between chosen cuts', 'ppp::utils::xCut, yCut'), ('recursion', 'ppp::utils::xyCut'), ('candidate computation', 'ppp::utils::xCut (queue of largest rightX), yCut')],
     ['result groups', 'result cuts', 'returned flag'],
     'Partition (multiset equality), non-emptiness, preservation of earlier results, cut positions and sufficient gaps of xCut, yCut and the recursive xyCut are proved for all inputs; that all candidates are found, the sort order and the number of overlapped elements are checked by the bounded harness.' + TB)
prop('C19', 'The fixed-capacity queue never overflows and never loses an element silently',
     'For every sequence of pushes and pops and every capacity of at least one, the fixed-capacity priority queue holds at most as many elements as its capacity; a push removes exactly the top element if the queue is full and nothing otherwise, and adds exactly the value. Sorting yields exactly the elements of the queue in the given order, replacing the previous content of the result, and leaves the queue unchanged.',
     ['inputs', 'histories'], 'all capacities, operation sequences, element types and comparators',
     'The existing tests push a few integers and strings; off-by-one errors at the capacity and sorting with other lists need arbitrary histories.',
     ['src/utils/FixedCapacityPriorityQueue.h'],
     [('eviction at the capacity', 'FixedCapacityPriorityQueue::push'), ('sorted copy', 'FixedCapacityPriorityQueue::sort')],
     ['queue contents', 'size'],
     'Constructor, push and sort of the instantiation used by the XY-cut are proved against multiset contracts; other instantiations and the order are checked by the bounded harness.' + TB)
prop('C11', 'Dehyphenation merges hyphenated words without losing text',
     'For every document: the last word of a line and the first word of the next line that has words (also across text blocks and pages) are marked as first and second part of a hyphenated word exactly if the last word has more than one character and ends with "-"; no other words are marked. Both parts refer to the same new word of the document, whose text is the text of the first part without its final hyphen followed by the text of the second part; a word that is hyphenated over several lines is merged into a single word holding the text of all its parts. The lists of words and the texts of the existing words do not change, so the plain text output holds every word once, with hyphenated words merged.',
     ['inputs'], 'all documents (pages, blocks, lines, empty ones included) and texts of words',
     'Tests dehyphenate single examples; empty lines, hyphens at the end of blocks and pages, one-character words and words hyphenated several times in a row are combinations of a document no sample covers.',
     ['src/WordsDehyphenation.cpp'],
     [('pairing of consecutive lines', 'WordsDehyphenation::process'), ('merged text', 'WordsDehyphenation::process')],
     ['isFirstPartOfHyphenatedWord', 'isSecondPartOfHyphenatedWord', 'text of the merged word', 'the plain text output'],
     'Which words are marked, the text of every merged word and the frame are proved for all documents as a fold over the lines; that both parts refer to the same object and the output of the serializer are checked by the bounded harness.' + TB)
prop('C21', 'Sub- and superscripts are exactly the small, shifted characters',
     'For every document: a character of a text line of a page segment is marked as superscript exactly if its font size is smaller than the most frequent font size of the document by more than the font size tolerance and its base line is higher (smaller) than that of the text line by more than the base line tolerance, and as subscript exactly if its font size is smaller in this way and its base line is lower (larger) by more than the tolerance. The base bounding box of each line is extended exactly by the boxes of its other characters, and nothing else changes.',
     ['inputs'], 'all documents with finite coordinates, font sizes, base lines and tolerances',
     'Tests classify a few characters of one line; differences at the tolerances, several lines and segments with different base lines and lines made of scripts only are not sampled.',
     ['src/SubSuperScriptsDetection.cpp'],
     [('classification', 'SubSuperScriptsDetection::process'), ('base bounding box', 'SubSuperScriptsDetection::process')],
     ['isSuperscript', 'isSubscript', 'baseBBox* of the text lines'],
     'The final value of both flags and all four box coordinates of every element is proved for all documents as a fold over the nested lists.' + TB)
prop('C12', 'Diacritic marks are merged with the right base and never lost',
     'For every list of characters of a page: a character is merged as a diacritic mark only if it has exactly one code point and this (after the combining map) is a spacing modifier letter or a combining mark. It is merged with the neighbour it overlaps more horizontally: the nearest previous character that is not itself a merged mark, or the next character (the next one if both overlap equally); with none if it overlaps neither, if it is itself the base of another mark or if the combined text is not valid UTF-8. No character is both a merged mark and a base, and a base refers to one of its marks. The merged text of a base is the composed (NFC) text of its code points followed by all its marks in the order of the page; its box is extended exactly to the boxes of its marks; texts and code points of all characters and the boxes of all others stay.',
     ['inputs', 'histories'], 'all pages, lists of characters, code points and boxes',
     'Tests merge single marks with single letters; several marks on one letter, marks next to marks, marks at the beginning or the end of a page and texts that cannot be composed depend on the order of merges.',
     ['src/DiacriticalMarksMerging.cpp', 'src/utils/PdfElementsUtils.cpp'],
     [('classification, choice of the base and merging', 'DiacriticalMarksMerging::process'), ('horizontal overlap', 'ppp::utils::elements::computeMaxXOverlapRatio')],
     ['isDiacriticMarkOfBaseChar', 'isBaseCharOfDiacriticMark', 'textWithDiacriticMark', 'boxes of the characters'],
     'Proved for all documents: only marks are merged, marks and bases are disjoint and linked consistently, bases are the next or an earlier character of the same page, boxes of bases enclose their marks and only grow, everything else stays, no null pointer or out-of-bounds access. The choice of the neighbour and the merged text are checked by the bounded harness against an independent implementation.' + TB)
prop('C06', 'Page segments partition the elements of a page at the stated cuts',
     'For every page: every word, figure, graphic and shape becomes part of exactly one new segment, no segment is empty, its box is that of its elements, and the segments already on the page stay. An x-cut candidate is chosen exactly if none of these rules rejects it: it passes through elements and the elements are fewer than the configured number or one of them lies nearer than 5 average character heights to an end of the cut; the gap is narrower than 2 average character widths and lower than 6 average character heights; the last element left of it is a word and the next word of the page is right of it and beside it (vertical overlap at least the threshold); the group between the previously chosen cut and this one, or the rest to the right, is narrower than 10 average character widths. Y-cuts: from each boundary on, the largest range of consecutive candidate groups that can still be divided by x-cuts is kept together, its ends are cut.',
     ['inputs'], 'all pages, elements, boxes, ranks, thresholds and averages',
     'Segments fix the columns of a page for all later stages; a lost element loses text and a wrong cut mixes columns. The tests segment a few example pages and do not reach the rules in combination.',
     ['src/PageSegmentation.cpp', 'src/utils/PageSegmentationUtils.cpp', 'src/Config.h'],
     [('elements and segments', 'PageSegmentation::process, processPage'), ('x-cut rules', 'PageSegmentation::chooseXCuts and the chooseXCut_* rules'), ('y-cut rule', 'PageSegmentation::chooseYCuts'), ('creation', 'PageSegmentationUtils::createPageSegment')],
     ['segments of the pages', 'isChosen of the cuts', 'boxes of the segments'],
     'The partition (multiset equality for every page, over the contract of xyCut proved in C05), every x-cut rule and their exact composition (the previously chosen cut as a fold) and the frame and memory safety of chooseYCuts are proved for all inputs. The choice of the y-cuts is checked by the bounded harness against an independent implementation.' + TB)
prop('C07', 'Words partition the characters of a page in order',
     'For every page: every character that is not a merged diacritic mark becomes part of exactly one new word, in the order of the page, and no word is empty. A new word begins exactly where a character differs from the active word in rotation or writing mode, overlaps it vertically by less than the minimum ratio, or is horizontally separated from its bounding box by more than 0.15 times its largest font size (comparisons with a tolerance of 0.0001). The rank of a new word is its position in the list of words, its text is the text of its characters (with their marks), each character refers to its word, and words already on the page stay. Stacked math symbols: a word that contains a stacking symbol and is not yet part of another symbol takes the directly neighbouring words that overlap it horizontally by at least the minimum ratio, are smaller and belong to no symbol; so each word belongs to at most one symbol, no word is both base and part, and base and parts refer to each other.',
     ['inputs'], 'all pages, lists of characters, boxes, font sizes, rotations, writing modes and thresholds',
     'Losing or duplicating one character at one particular boundary loses text; the tests detect the words of a few example pages. Overlapping stacked symbols, marks at the ends of words and gaps at the thresholds are not sampled.',
     ['src/WordsDetection.cpp', 'src/utils/WordsDetectionUtils.cpp', 'src/Config.h'],
     [('segmentation', 'WordsDetection::detectWords'), ('rules', 'WordsDetection::startsWord'), ('stacked symbols', 'WordsDetection::mergeStackedMathSymbols')],
     ['words of the page', 'word of the characters', 'isPartOfStackedMathSymbol', 'isBaseOfStackedMathSymbol'],
     'The rule of startsWord, the partition into words (every character once, in order, at exactly the boundaries the rules give; ranks, references, frame) and the links of stacked symbols (disjoint, mutual, contiguous, overlapping, smaller, without duplicates) are proved for all pages. Which words are bases, that a symbol takes all fitting neighbours and the text of the words are checked by the bounded harness.' + TB)

prop('C08', 'Text lines partition the words of a segment; hierarchy and trim boxes',
     'For every page segment: every word that is not part of a stacked math symbol, and every word that is part of one whose base is in the segment (next to its base), becomes part of exactly one text line, which lies in the segment and has one rotation. The words of a line are ordered along the reading direction, its text is the text of its words, consecutive lines of a rotation do not overlap vertically by the merging threshold (which depends on the horizontal gap), lines are ordered from top to bottom per rotation, ranks count the lines of the document and prev/next lines are the neighbours of the same rotation. Hierarchy: previous and next siblings refer to each other, have the same parent, start at the same x (up to the configured share of the average character width) and come one below the other; a parent comes before its children, ends above them and, for a first child, starts further left; all of them are lines of the page. The trim box is the box of the segment, except that its right side is the most frequent rounded right side of the lines if enough lines share it.',
     ['inputs'], 'all segments, lists of words, boxes, rotations, stacked symbols and thresholds',
     'Words lost between clusters or lines lose text, and wrong siblings or parents split or join paragraphs; the tests detect the lines of a few example pages.',
     ['src/TextLinesDetection.cpp', 'src/utils/TextLinesDetectionUtils.cpp', 'src/Config.h'],
     [('line detection', 'TextLinesDetection::process'), ('hierarchy', 'TextLinesDetectionUtils::computeTextLineHierarchy'), ('trim box', 'TextLinesDetectionUtils::computeTrimBox')],
     ['lines of the segments', 'line of the words', 'rank, prevLine, nextLine', 'parentLine, prevSiblingLine, nextSiblingLine', 'trim box'],
     'The hierarchy (all links it makes), the trim box and the creation and merging of lines (words sorted, box, text, words moved to the remaining line) are proved for all inputs. The clustering and merging rounds of process and the completeness of the hierarchy are checked by the bounded harness against an independent implementation.' + TB)
prop('C09', 'Text blocks partition the lines of a page at the stated rules',
     'For every page: every line of every segment becomes part of exactly one block, blocks are not empty, keep the order of the lines and never span two segments or two preliminary blocks. A preliminary block begins exactly at a line without previous line, or (unless it overlaps the same figure as the previous line) with another rotation, writing mode, font size (both the most frequent and the largest one), or with a positive distance to the previous line that exceeds the expected distance by more than max(1, 10%) or exceeds the distance before by more than half the word height. A preliminary block is split exactly where the final rules say so, applied in order: no previous line; block is centered (split only at first lines of items); items (first lines start a block, continuations go on unless the previous line has capacity or the offset is out of tolerance, ...); emphasized lines of one font go on; hanging indent; indentation and capacity. The first line of an item is prefixed by a label, does not just continue the previous line, and has a labelled sibling of the same font or a footnote label; lines whose ancestor is such a line are its continuation. Text, box, trim box, rank, prev/next links, margins, centering, hanging indent and emphasis of a block are those of its lines.',
     ['inputs'], 'all pages, lists of lines, boxes, fonts, distances, labels, hierarchies and thresholds',
     'One wrong rule merges headings into paragraphs or splits paragraphs at some layout; losing a line loses text. The tests detect the blocks of a few example pages.',
     ['src/TextBlocksDetection.cpp', 'src/utils/TextBlocksDetectionUtils.cpp', 'src/Config.h'],
     [('loops', 'TextBlocksDetection::process'), ('rules', 'TextBlocksDetection::startsPreliminaryBlock, startsBlock and the startsBlock_* rules'), ('items, centering, capacity', 'TextBlocksDetectionUtils'), ('creation', 'TextBlocksDetectionUtils::createTextBlock')],
     ['blocks of the segments and pages', 'lines of the blocks', 'text, box, margins, flags of the blocks'],
     'Every rule, their composition, the item, centering, capacity and figure decisions and the creation of blocks are proved for all inputs. The partition by process, hanging indents, emphasis and the labels (regular expressions) are checked by the bounded harness against an independent implementation.' + TB)
prop('C10', 'The reading order only reorders the blocks of a page',
     'For every page: the blocks after the detection of the reading order are exactly the blocks before it, none is lost, duplicated or replaced. They follow the order of groups of page elements (blocks, figures, shapes), which arise from dividing the elements at primary x-cuts, each part at primary y-cuts and each of these by the recursive XY-cut, left before right and above before below; blocks of a group come from top to bottom. A primary x-cut is a candidate next to a block that is rotated or written vertically, or next to a figure, graphic or shape that is higher than 10 average character heights and reaches over the middle of the page elements; a primary y-cut is one where exactly one of the elements around it is a title, an author info or a marginal, or next to such an element that is wider than 10 average character widths and reaches over the middle. All other x-cut candidates are chosen; y-cuts are the topmost candidate below which, the lowest above which and the pairs of candidates between which x-cuts are possible.',
     ['inputs'], 'all pages, blocks, figures, shapes, roles, rotations and averages',
     'A lost or duplicated block loses text, a wrong group order shuffles columns. The module is not part of the test build at all.',
     ['src/ReadingOrderDetection.cpp'],
     [('groups and order', 'ReadingOrderDetection::detectReadingOrder'), ('primary cuts', 'ReadingOrderDetection::choosePrimaryXCuts, choosePrimaryYCuts'), ('x-cuts and y-cuts', 'ReadingOrderDetection::chooseXCuts, chooseYCuts')],
     ['blocks of the pages', 'isChosen of the cuts', 'reading order cuts'],
     'That the blocks of every page are a permutation of those before (multiset equality over the contracts of xCut, yCut and xyCut proved in C05), the exact rules of both primary cuts and of the x-cuts, and the frame and memory safety of chooseYCuts are proved for all inputs. The order itself and the y-cuts are checked by the bounded harness against an independent implementation; the role predictor (TensorFlow) is replaced there by roles from the generator.' + TB)
prop('C20', 'Statistics of a document are the maxima and averages of its elements',
     'For every document: if it has glyphs, the most frequent font size and font name are values no other value of its characters is more frequent than, and the average width and height are the sums over all characters divided by their number; without glyphs they stay. The most frequent word height is that of the words that are not smaller than the most frequent font size (by more than the tolerance); the most frequent word distance (estimated line distance) is the most frequent horizontal (vertical) gap between two consecutive words of a page of which the second is not smaller, the first has the most frequent font size, both have the same rotation and writing mode, and the larger ratio of vertical overlap reaches the threshold for the same line (stays below the one for different lines). The most frequent line distance is the most frequent distance between the base boxes of two consecutive lines of a segment with the same rotation and writing mode, negative distances counting as 0, rounded to the configured precision; per font size it counts the pairs of lines of equal font size (up to the tolerance), for the size of the second line. A value for which nothing is counted stays; nothing else changes.',
     ['inputs'], 'all documents, elements, boxes, font sizes, rotations, writing modes and thresholds',
     'Every later stage compares with these values. Tests use a handful of elements on one or two pages; pairs across pages or segments, elements at the thresholds and font sizes within the tolerance are not sampled.',
     ['src/GlyphsStatisticsCalculation.cpp', 'src/WordsStatisticsCalculation.cpp', 'src/TextLinesStatisticsCalculation.cpp', 'src/utils/Counter.cpp'],
     [('glyphs', 'GlyphsStatisticsCalculation::process'), ('words', 'WordsStatisticsCalculation::process'), ('lines', 'TextLinesStatisticsCalculation::process')],
     ['mostFreqFontSize, mostFreqFontName, avgCharWidth, avgCharHeight', 'mostFreqWordHeight, mostFreqWordDistance, mostFreqEstimatedLineDistance', 'mostFreqLineDistance, mostFreqLineDistancePerFontSize'],
     'All counts are proved equal to a fold over the nested lists of the document for all documents, and the stored values to be maxima (averages) of these counts; for the map per font size this is proved for an arbitrary font size.' + TB)
prop('C23', 'Option values and names of kinds, roles and formats correspond exactly',
     'For every list of command line values: it is accepted for an option that chooses kinds of elements, semantic roles or the output format exactly if no value was given before and it is one value, which is the name of a kind (pages, blocks, lines, words, characters, figures, shapes), of a role or of a format with a serializer (txt, txt-extended); the option then has the enumerator of this name. Everything else is rejected with an error. The name of an enumerator is always the same, the lists of choices have one entry per enumerator in order, and the texts of choices are these names with the separator between them. A serializer is returned exactly for the formats that are accepted.',
     ['inputs'], 'all lists of values, enumerators and separators',
     'A name that means the neighbouring enumerator or a prefix that is accepted selects other output silently; the tests validate no values.',
     ['src/Validators.cpp', 'src/PdfDocumentSerialization.cpp', 'src/utils/PdfElementsUtils.cpp', 'src/Types.h'],
     [('validators', 'ppp::types::validate'), ('names', 'get*Name, get*s, get*sStr in PdfElementsUtils'), ('serializers', 'getSerializer, SERIALIZERS')],
     ['accepted and rejected values', 'value of the option', 'names', 'serializers'],
     'The three validators, the nine functions for names and getSerializer are proved for all inputs; the order of getSerializationFormatChoicesStr is unspecified, its content and the classes of the serializers are checked by the bounded harness.' + TB)
prop('C24', 'Parsed characters, shapes and graphics belong to the page or one figure',
     'For every sequence of events of the PDF interpreter: each page event appends one page with its number and its rounded clip box to the document. Each path with a visible point (a rounded point that lies inside the rounded clip box by more than the tolerance), each image whose rounded origin lies right of and below the upper left corner of the rounded clip box, and whose opposite corner lies left of and above the lower right one, by more than the tolerance, and each glyph with a font that is no whitespace becomes exactly one new element, all others none. It is appended to the page if its clip box equals that of the page (up to the tolerance on each side), otherwise to the first figure of the page whose clip box is equal, otherwise to a new figure with that clip box. A figure grows to exactly contain the elements it takes, a new figure has the box of its element; other figures and the order of elements stay. Elements and figures have the number of their page and refer to the document, and ranks count the elements of the document in order. The box of a path is the smallest one around its visible points, that of an image its rounded box cut off at the clip box, and the box of a path or character (also of rotated text) is not inverted.',
     ['inputs'], 'all graphics states, clip boxes, paths, images, glyphs, pages, figures and tolerances',
     'Every later stage works on these elements: a glyph put on the wrong figure, a lost path or an infinite box damages all output. The tests parse a few PDF files with a single clip box and check the texts.',
     ['src/PdfParsing.cpp', 'src/utils/MathUtils.cpp', 'src/Types.h'],
     [('pages', 'PdfParsing::startPage'), ('characters', 'PdfParsing::drawChar'), ('paths', 'PdfParsing::stroke, fill'), ('images', 'PdfParsing::drawGraphic and the draw*Image* handlers')],
     ['pages of the document', 'characters, shapes, graphics and figures of the pages', 'boxes, ranks, page numbers and clip boxes'],
     'startPage, stroke, fill, drawGraphic and the four image handlers are proved for all graphics states, with the methods of Poppler as functions of their arguments. drawChar is checked by the bounded harness on generated PDF files (text in all four rotations, several clip boxes).' + TB)
prop('C25', 'Every enabled stage runs exactly once, in order, with its own options',
     'For every configuration and PDF file: if the file cannot be loaded, its error code is returned and no stage runs; otherwise 0 is returned, all pages are parsed, and then each stage whose section of the configuration is not disabled runs exactly once and no disabled one runs, in the order glyph statistics, diacritics, words, word statistics, page segments, text lines, sub- and superscripts, line statistics, text blocks, semantic roles, reading order, dehyphenation; semantic roles are predicted as part of the reading order, and only if neither of the two is disabled. Each stage works on the given document with its own section of the configuration. If a list of running times is given, one entry per step that was run is appended and earlier entries stay; afterwards the lines of each page are those of its blocks, in order.',
     ['inputs'], 'all combinations of options, documents and PDF files',
     'There are 2^12 combinations of options; the tests run one. A stage that reads the section of its neighbour or runs before the data it needs gives wrong text only for unusual options.',
     ['src/PdfToTextPlusPlus.cpp', 'src/ReadingOrderDetection.cpp', 'src/Config.h'],
     [('pipeline', 'PdfToTextPlusPlus::process'), ('roles and reading order', 'ReadingOrderDetection::process')],
     ['stages that ran, their order, document and configuration', 'status', 'running times', 'lines of the pages'],
     'Proved over a ghost trace (how often, when, on which document and with which configuration each stage ran) for all configurations: process, and the part of the reading order that predicts roles; that the lines of a page are those of its blocks is proved as equality of multisets, their order is checked by the bounded harness, which links the real pipeline with recording stages.' + TB)

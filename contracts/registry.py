"""Which contracts and which replay harness decide which property."""
MONO = 'IEEE-754 addition/subtraction is monotone in each operand (rounding to nearest is monotone): used as an axiom, not machine-checked at 64 bits; the other floating-point axioms are discharged in C15'
REALS = 'in the non-IEEE contracts doubles are ordered values with uninterpreted rounding operations: NaN is excluded by precondition'
FMT = 'the decimal text of a number is an uninterpreted function of the number'
NONULL = 'precondition: the lists of the document hold no null pointers, elements have positions, the font infos of all characters exist, texts are shorter than 2^32 - 1 bytes'
PROPS = {
    'C13': dict(modules=['pageseg', 'words_utils', 'lines', 'blocks'], functions={'utils::PageSegmentationUtils::createPageSegment', 'utils::WordsDetectionUtils::createWord', 'modules::TextLinesDetection::computeTextLineProperties', 'modules::TextLinesDetection::createTextLine', 'modules::TextLinesDetection::mergeTextLines', 'utils::TextBlocksDetectionUtils::createTextBlock', 'utils::TextBlocksDetectionUtils::computeTextLineMargins'}, harness='C13', assumptions=[MONO, REALS]),
    'C15': dict(modules=['mathutils'], harness='C15', assumptions=['std::pow is not interpreted: rounding to n > 0 decimals is checked by the bounded harness only'], bounded=['utils::math::round for numDecimals > 0']),
    'C16': dict(modules=['counter'], harness='C16', assumptions=[REALS, 'unordered_map iteration visits every key exactly once in an arbitrary but fixed order']),
    'C14': dict(modules=['geometry'], harness='C14', assumptions=[REALS, MONO], secs=15),
    'C17': dict(modules=['textutils'], harness='C17', secs=20, assumptions=['std::ostream formats an int with hex/setw/setfill as an uninterpreted function of these parameters', 'ctype functions in the C locale'], bounded=['utils::text::splitIntoWords', 'utils::text::wrap']),
    'C02': dict(modules=['serial', 'textutils'], functions={'serialization::JsonlSerializer::' + f for f in ('serializePages', 'serializeFigures', 'serializeShapes', 'serializeTextBlocks', 'serializeWords', 'serializeCharacters', 'serializeToStream')} | {'utils::text::escapeJson', 'utils::elements::getSemanticRoleName'}, harness='C02', secs=20, cases=20000, assumptions=[FMT, NONULL, 'serializeToStream with an empty set of kinds: the recursive call is proved to meet its contract; that all kinds are then written is checked by the bounded harness'], bounded=['JSON syntax of formatted numbers', 'Serializer::serialize (file handling)']),
    'C03': dict(modules=['serial'], functions={'serialization::PlainTextSerializer::serializeToStream'}, harness='C03', secs=20, assumptions=[NONULL], bounded=['Serializer::serialize (file handling)']),
    'C04': dict(modules=['serial'], functions={'utils::elements::getSemanticRoleName', 'serialization::PlainTextExtendedSerializer::serializeToStream'}, harness='C04', secs=20, assumptions=[NONULL, 'std::transform with toupper is an uninterpreted function of the role name'], bounded=['Serializer::serialize (file handling)']),
}
SORT = 'std::sort and std::partial_sort_copy permute their range (their order is not used; the comparators compare with a tolerance)'
CHOOSE = 'a cut choosing function changes nothing but isChosen of the cuts it is given, and may create cuts (proved for those of the page segmentation in C06)'
PROPS['C05'] = dict(modules=['xycut'], harness='C05', secs=25, assumptions=[SORT, CHOOSE, REALS, 'termination of the recursion is not proved'], bounded=['completeness of the cut candidates, number of overlapped elements'])
PROPS['C19'] = dict(modules=['pqueue'], harness='C19', secs=10, assumptions=[SORT, 'std::priority_queue: push adds the value, pop removes the top, which is an element of the queue'], bounded=['order of the sorted result, priority of the top'])
NEST = 'the loops over the nested lists visit them in order; lists hold no null pointers'
PROPS['C11'] = dict(modules=['dehyph'], harness='C11', secs=15, assumptions=[NONULL, 'no word is marked as part of a hyphenated word before'], bounded=['the written text'])
PROPS['C21'] = dict(modules=['scripts'], harness='C21', secs=12, assumptions=[NONULL, REALS])
EXT = 'Poppler (globalParams, UnicodeMap) and utf8proc behave as assumed: the text encoding is UTF-8, utf8proc_map returns a text or an error code'
PROPS['C12'] = dict(modules=['diacritics'], functions={'modules::DiacriticalMarksMerging::process', 'utils::elements::computeMaxXOverlapRatio'}, harness='C12', secs=15, assumptions=[NONULL, REALS, EXT, 'no character is listed twice, and no two elements share a position'], bounded=['the merged text', 'which neighbour is chosen', 'that all marks that can be merged are merged'])
LISTED = 'no character (word) is listed twice on its page; the active word and its box are no object of the document'
_PS = 'modules::PageSegmentation::'
PROPS['C06'] = dict(modules=['segmentation'], functions={_PS + f for f in ('chooseXCut_overlappingElements', 'chooseXCut_smallGapWidthHeight', 'chooseXCut_contiguousWords', 'chooseXCut_slimGroups', 'chooseXCuts', 'chooseYCuts', 'processPage', 'process')} | {'utils::PageSegmentationUtils::createPageSegment'}, harness='C06', secs=15, assumptions=[NONULL, REALS, 'no page is listed twice, a page has less than 2^31 elements, and the configured number of overlapped elements is between 0 and 2^31 - 2', 'xyCut calls the bound functions chooseXCuts and chooseYCuts through std::function: it is proved (C05) for every function that meets the contract CHOOSE, and both are proved to meet it'], bounded=['which y-cuts are chosen (the greedy rule)', 'termination of the recursion'])
PROPS['C07'] = dict(modules=['words'], functions={'modules::WordsDetection::startsWord', 'modules::WordsDetection::detectWords', 'modules::WordsDetection::mergeStackedMathSymbols', 'utils::WordsDetectionUtils::createWord'}, harness='C07', secs=15, assumptions=[NONULL, REALS, LISTED], bounded=['that every word that fits becomes part of a stacked symbol, and which words are bases', 'the text of the words', 'process: the loops over the pages'])
_TL = 'modules::TextLinesDetection::'
PROPS['C08'] = dict(modules=['hierarchy', 'lines'], functions={'utils::TextLinesDetectionUtils::computeTextLineHierarchy', 'utils::TextLinesDetectionUtils::computeTrimBox', _TL + 'createTextLine', _TL + 'mergeTextLines', _TL + 'computeTextLineProperties'}, harness='C08', secs=15, assumptions=[NONULL, REALS, 'no line is listed twice on its page', 'the configured precision of trim boxes is between 0 and 10 decimals, a segment has less than 2^31 lines'], bounded=['process: clustering of the words, merging of overlapping lines in rounds, order and ranks of the lines', 'that a line gets every sibling and parent the rules give it', 'which right side is the most frequent one'])
PROPS['C09'] = dict(modules=['blockrules', 'blocks'], functions={'modules::TextBlocksDetection::startsBlock_' + f for f in ('existsPrevLine', 'sameFigure', 'rotation', 'wMode', 'fontSize', 'lineDistance', 'increasedLineDistance', 'centered', 'item', 'emphasized', 'hangingIndent', 'indent')} | {'modules::TextBlocksDetection::startsPreliminaryBlock', 'modules::TextBlocksDetection::startsBlock'} | {'utils::TextBlocksDetectionUtils::' + f for f in ('computeOverlapsFigure', 'computeIsFirstLineOfItem', 'computeIsContinuationOfItem', 'computeIsCentered', 'computeHasPrevLineCapacity', 'computeTextLineMargins', 'createTextBlock')}, harness='C09', secs=20, assumptions=[NONULL, REALS, 'the parents of a line come first (C08), so the ancestors of a line are finitely many', 'in the rules, being prefixed by an item or footnote label, being emphasized, ending with a sentence delimiter and starting with an uppercase letter are functions of the line (std::regex is not modelled)'], bounded=['process: the loops over pages, segments, blocks and lines', 'computeIsTextLinesCentered, computeIsEmphasized, computeHangingIndent, computePotentialFootnoteLabels, computeIsPrefixedByItemLabel, computeIsPrefixedByFootnoteLabel'])
_RO = 'modules::ReadingOrderDetection::'
PROPS['C10'] = dict(modules=['readingorder'], functions={_RO + f for f in ('chooseXCuts', 'choosePrimaryXCuts', 'choosePrimaryYCuts', 'chooseYCuts', 'detectReadingOrder')}, harness='C10', secs=15, assumptions=[NONULL, REALS, 'no page is listed twice; lists of blocks hold text blocks only, those of figures and shapes none', 'xCut, yCut and xyCut call the bound functions through std::function: they are proved (C05) for every function that meets the contract CHOOSE, and all four are proved to meet it', 'std::sort permutes its range'], bounded=['which y-cuts are chosen', 'the order of the groups and of the blocks of a group', 'the box around the elements of a page', 'termination of the recursion'])
PROPS['C20'] = dict(modules=['stats'], functions={'modules::%sStatisticsCalculation::process' % m for m in ('Glyphs', 'Words', 'TextLines')} | {'utils::counter::%s::%s' % (k, f) for k in ('DoubleCounter', 'StringCounter') for f in ('mostFreq', 'mostFreqAndCount', 'sumCounts')}, harness='C20', secs=12, assumptions=[NONULL, REALS, 'a document has less than 2^31 glyphs, words and lines, so no counter wraps', 'unordered_map iteration visits every key exactly once in an arbitrary but fixed order', 'the precision of line distances is between 0 and 10 decimals'])
PROPS['C23'] = dict(modules=['names'], harness='C23', secs=8, assumptions=['boost::program_options: check_first_occurrence throws exactly if a value was given before, get_single_string returns the only value and throws otherwise, boost::any holds the value assigned last', 'unordered_map iteration visits every key exactly once in an arbitrary but fixed order'], bounded=['getSerializationFormatChoicesStr', 'the class of a serializer'])
GFX = 'the methods of Poppler (GfxState, GfxPath, GfxSubpath) are functions of the object and their arguments and write nothing but their output arguments'
_PP = 'modules::PdfParsing::'
PROPS['C24'] = dict(modules=['parsing'], functions={_PP + f for f in ('startPage', 'stroke', 'fill', 'drawGraphic', 'drawImageMask', 'drawImage', 'drawMaskedImage', 'drawSoftMaskedImage')} | {'utils::math::round'}, harness='C24', secs=15, assumptions=[REALS, GFX, 'rounding to decimals is monotone', 'figures are no null pointers, distinct and have positions of their own (kept by every handler)', 'the tolerance is not negative, the precision is between 0 and 10 decimals, there are less than 2^31 - 1 elements, clip boxes are finite'], bounded=['drawChar', 'updateFont'])
PROPS['C25'] = dict(modules=['pipeline'], functions={'PdfToTextPlusPlus::process', 'modules::ReadingOrderDetection::process'}, harness='C25', secs=10, assumptions=['the stages and Poppler are opaque: each call is recorded with its document and configuration, and a stage leaves no null pointers in the lists of the document', 'exceptions thrown by a stage end the run and are not modelled'], bounded=['the order of the lines of a page'])

P('C06', 'Editing attribute lists keeps each position covered as the edits ask',
  'Inserting, changing or filtering attributes of a list keeps it sorted by start with insertion order among equal starts; after a change, each position of the new range carries exactly the new value for that kind of attribute, and every other position and kind keeps what it had. Two lists compare equal exactly when they hold the same attributes.',
  ['inputs'], 'every list of up to the stated number of attributes, with any start and end, kinds and values, and every new attribute',
  'Trimming, merging and splitting depend on how the ranges overlap: a test only tries a few layouts of ranges.',
  ['pango/attributes.go'], [('insertion', 'AttrList.Insert'), ('replacement', 'AttrList.Change'), ('filter', 'AttrList.Filter')],
  'Bounded: lists of up to 3 or 4 attributes, 1 to 3 kinds; positions are symbolic in 0..1000000 in most harnesses. Oracle: a position-wise evaluation at a symbolic position.')
P('C07', 'Iterating over attributes visits ranges with constant attributes',
  'The iterator of an attribute list visits consecutive ranges that cover all the positions; in each range it reports exactly the attributes which apply to each of its positions, the latest attribute of a kind winning. The font description and language it collects are the ones in effect there.',
  ['inputs'], 'every list of up to the stated number of attributes with any ranges, and every position',
  'The attributes in effect depend on the ordering of all starts and ends, including empty and overlapping ranges.',
  ['pango/attributes.go'], [('iteration', 'attrIterator'), ('fonts', 'attrIterator.getFont')],
  'Bounded: lists of up to 3 or 4 attributes. Oracle: the attributes of the list that contain a symbolic position.')
P('C08', 'Shaped items are split, spaced and measured by cluster',
  'Iterating over the clusters of a shaped item visits a partition of its characters and glyphs, forward and backward, in both directions; splitting an item or applying attributes to it keeps every character, glyph, width and cluster. Letter spacing adds the asked space once per cluster boundary, and the logical widths of the characters add up to the width of the item.',
  ['inputs'], 'every assignment of up to the stated number of glyphs to clusters, both directions, any split position, widths and break positions',
  'The code is index arithmetic over clusters of any shape, with a separate branch for each direction; tests need fonts to produce such items and only see one-to-one clusters.',
  ['pango/glyph_item.go', 'pango/glyphs.go'], [('clusters', 'GlyphItemIter'), ('split', 'GlyphItem.Split'), ('spacing', 'GlyphItem.letterSpace'), ('attributes', 'GlyphItem.ApplyAttrs')],
  'Bounded: items of up to 4 to 6 characters and glyphs, widths symbolic.')
P('C09', 'Positions in a line match the edges of the characters',
  'The leading and trailing positions reported for a character of a line are the edges of its grapheme: each cluster is divided equally between its graphemes, the trailing edge of a character is the leading edge of the next one, and all characters of a grapheme agree. The visual ranges of a logical range are exactly the spans between these edges, sorted, shifted by the offset due to alignment and indentation.',
  ['inputs'], 'every line of up to two runs in any order and direction, any clusters, widths and grapheme boundaries, every index and range',
  'The edges depend on the shape of the clusters, the direction and the grapheme boundaries, including graphemes split between runs; tests use left-to-right text with one glyph per character.',
  ['pango/glyphs.go', 'pango/layout_line.go'], [('edges', 'GlyphString.IndexToX'), ('line', 'LayoutLine.IndexToX'), ('ranges', 'LayoutLine.GetXRanges')],
  'Bounded: runs of up to 3 (4 for a single one) characters, symbolic widths. Fonts with ligature carets are not covered (harfbuzz).')
P('C10', 'A finished line is in visual order, evenly spaced and justified',
  'The runs of a line are put in the visual order of rule L2 and keep their baseline shifts, also on the next line; letter spacing puts the asked space between all graphemes of the line and none at its ends, and text after a tab starts at the tab stop. Justification gives the whole remaining width to the spaces, in proportion of their width (or to the gaps between clusters if there is no space), and always ends.',
  ['inputs'], 'every line of up to the stated number of runs, levels, clusters, widths, spaces, spacing values and remaining widths',
  'These are sums over all the runs and clusters of a line with rounding: the golden layouts of the tests cover a few lines.',
  ['pango/layout_line.go', 'pango/glyphs.go', 'pango/glyph_item.go'], [('order', 'LayoutLine.pangoLayoutLineReorder'), ('baseline', 'LayoutLine.applyBaselineShift'), ('spacing', 'LayoutLine.adjust_line_letter_spacing'), ('tabs', 'LayoutLine.shapeTab'), ('justification', 'LayoutLine.justifyWords')],
  'Bounded: up to 6 runs for the order, 2 or 3 runs otherwise. Oracle: pairwise rule L2; sums of the attributes; closed formulas for the widths. Shaping is replaced by the shape attribute; superscript metrics of fonts and custom tab arrays are not covered here.')
P('C19', 'Boundaries of a text follow the Unicode rules',
  'For each position of a text, the cursor positions, word boundaries, sentence boundaries, line breaks and mandatory breaks are those of the Unicode rules (UAX 29 for graphemes, words and sentences; UAX 14 for lines), a sentence boundary being a word boundary, and a word boundary a cursor position. Starts and ends of words, and of sentences, alternate; white spaces, expandable spaces and paragraph separators are the documented ones.',
  ['inputs'], 'every text of up to the stated number of characters, over alphabets with one or several characters of each class of the rules',
  'The rules depend on contexts of several characters on both sides, with any number of ignored marks in between: the test files of Unicode have one sample for each pair of classes, and the existing test which reads them compares nothing.',
  ['pango/break.go'], [('rules', 'pangoDefaultBreak'), ('interface', 'ComputeCharacterAttributes'), ('paragraphs', 'findParagraphBoundary')],
  'Bounded: texts of up to 4 characters (3 for lines; 5 to 7 in the thorough tier) over alphabets of 15 to 35 characters of the scripts Common, Inherited, Hebrew and Hangul, so that the rules for given languages are not applied. Oracle: the rules, written again one after the other over the classes of the Unicode Character Database; the rule LB25 in the form of the example 7 of UAX 14 as the code says, LB8a and LB22 in the form of Unicode 11 and 12. The class tables themselves (which depend on the version of Unicode) are only checked for the characters of the alphabets; a line break inside a grapheme is accepted where the code allows it.')
P('C20', 'Attributes on breaks act on their range and nowhere else',
  'An attribute that forbids line breaks removes them strictly inside its range (except after hyphens and zero width spaces) and turns off character breaks there; an attribute marking a word or a sentence makes its range exactly one word or sentence, adapting the neighbouring boundaries; an attribute forbidding hyphens leaves no automatic hyphen in the range. Outside of what such an attribute covers in the paragraph, boundaries stay as they would be without it, and starts and ends still alternate.',
  ['inputs'], 'every text of up to the stated number of characters over an alphabet of break classes, every paragraph of the text and every range of the attribute',
  'The effect depends on where the range ends with respect to words, sentences, hyphens and the paragraph: the attributes may start before it, end after it or miss it; no test sets them on a text with several paragraphs.',
  ['pango/break.go'], [('attributes', 'getItemsLogAttrs'), ('ranges', 'handleAllowBreaks'), ('words', 'handleWords'), ('sentences', 'handleSentences')],
  'Bounded: texts of up to 4 characters (5 in the thorough tier), one attribute. Oracle: the boundaries without the attribute, with the edits documented for each kind.')
P('C21', 'Paragraphs are broken into lines at the best allowed places',
  'The lines of a paragraph follow each other without gap or overlap, their runs cover them, and each line ends at a break allowed by the wrap mode: the last one that fits the width (a space at the end not being counted), or the first one if none fits; characters are only used as breaks in the mixed mode when no word break fits. A justified line has exactly the asked width as soon as it has a space or a gap to expand.',
  ['inputs'], 'every text of up to the stated number of characters in up to two items, with any widths, any spaces, any allowed breaks, any wrap mode and width',
  'The code estimates widths, accepts or measures breaks, backs up over items and retries: the outcome depends on how widths, items and breaks combine, while the golden layouts of the tests need fonts which are not available and only compare a few texts.',
  ['pango/layout.go', 'pango/layout_line.go'], [('lines', 'Layout.checkLines'), ('one line', 'Layout.processLine'), ('one item', 'Layout.tryAddItemToLine'), ('justification', 'LayoutLine.justifyWords')],
  'Bounded: 3 characters (4 in the thorough tier) in 2 (3) items, characters of an item having the same width thanks to the shape attribute, left to right, without tab; or 3 to 5 characters of two widths in up to 3 items with real shaping, with hyphens in a variant. Widths are positive; no word break in front of a space; spaces at the end of a line may hang; in the mixed mode an item starts at a character break. Without spaces, the exact division of the width between the gaps may leave a rest smaller than the number of gaps.')
P('C22', 'A text without any font is laid out with boxes',
  'When the font map has no font for a text, the layout still works: each character gets a box of fixed size, the runs cover the lines and the lines cover the text, and widths and heights of the lines are those of the boxes, whatever the attributes of the text.',
  ['inputs', 'faults'], 'every text of up to the stated number of characters over an alphabet (letters, space, mark, emoji, right-to-left letter, soft hyphen, line end), attributes, wrap mode and width, with a font map returning nothing or an empty set',
  'The tests always load fonts; the behaviour without fonts goes through the whole layout and must hold in each part of it.',
  ['pango/glyphs.go', 'pango/layout.go', 'pango/item.go', 'pango/context.go'], [('boxes', 'GlyphString.fallbackShape'), ('fonts', 'itemizeState.getFont'), ('scale', 'Context.applyFontScale')],
  'Bounded: texts of 2 characters (3 in the thorough tier), one attribute among 9. Hyphens of soft hyphens are not drawn without font.')
P('C23', 'A layout only depends on its current settings',
  'The lines, glyph positions, attributes of characters and extents given by a layout are those of a new layout with the same text and settings, whatever was set, asked or computed before. Setters take copies of tab positions and never modify the objects they are given.',
  ['histories'], 'a layout with any text up to the stated size, width, height, ellipsization, wrapping and justification is queried, one of 17 settings is changed in any way, and it is queried again',
  'Setters skip the work when they think that nothing changes: the condition depends on the result of the previous layout, so that the wrong cases need two settings and a text.',
  ['pango/layout.go', 'pango/tabs.go', 'pango/context.go'], [('setters', 'Layout.SetHeight'), ('cache', 'Layout.layoutChanged'), ('tabs', 'TabArray.Copy')],
  'Bounded: texts of 2 characters (3 in the thorough tier) over letters, space, LINE SEPARATOR, newline, tab; one change of one setting; no font. Oracle: a fresh layout given the final settings.')
P('C24', 'Iterating over a layout and asking positions agree',
  'Iterating over a layout by line, run, cluster or character visits each of them exactly once, in visual order, with places that tile the lines; lines follow each other from the top, aligned and indented as set. The place of an index, its line, its direction and the ranges covered by a part of the text are those of its characters in this iteration.',
  ['inputs'], 'every layout of a text of up to the stated number of characters over an alphabet with both directions, marks and line ends, any wrapping width, alignment, indentation, line spacing and base direction',
  'Iterators, conversions and ranges walk the same runs in different ways, with special cases for the ends of lines, line terminators, directions and clusters; the tests compare a few texts with fonts.',
  ['pango/layout_iter.go', 'pango/layout.go', 'pango/layout_line.go'], [('iteration', 'LayoutIter.NextRun'), ('characters', 'LayoutIter.NextChar'), ('positions', 'Layout.IndexToPos'), ('ranges', 'LayoutLine.GetXRanges'), ('lines', 'Layout.getExtentsInternal')],
  'Bounded: texts of 3 characters, without font (characters are boxes; a base with its marks is a cluster). Not covered: ink rectangles; the place asked for the end of a right to left line. Without width, indentation of the layout is not compared.')
P('C25', 'The cursor is at the documented place and moves visually without getting stuck',
  'The strong and weak cursors at an index are at the trailing edge of the previous character and the leading edge of the next one, the strong one being where a character of the direction of the line is inserted. Moving the strong cursor goes to the nearest cursor place in this direction on the line, then to the facing edge of the next line, then out of the layout; no sequence of moves of either cursor stays forever in the text or leaves the valid cursor positions.',
  ['inputs', 'histories'], 'every layout of a text of up to the stated number of characters with both directions, marks and line ends, any wrapping width and base direction; every cursor position, including the ends of wrapped lines, and both directions',
  'The cases are the edges of lines and paragraphs in each direction, wrapped or not, of lines with runs of both directions: the test moves along some lines of a few texts.',
  ['pango/layout_cursors.go', 'pango/layout_line.go'], [('place', 'Layout.GetCursorPos'), ('moves', 'Layout.MoveCursorVisually')],
  'Bounded: texts of 3 characters, aligned to the left, without font. When the next line is a wrapped line entered by its logical end, any place of it is accepted for the cursor.')
P('C26', 'Itemization divides a text into maximal runs of uniform properties',
  'The items of a paragraph follow each other and cover it; all the characters of an item have the same embedding level, script, language, font and item attributes, and adjacent items differ by one of these. The level is the one of the bidirectional algorithm with the direction of the paragraph, the script of common characters comes from their neighbours or from their opening bracket, and the font is the first one which covers the character, spaces following their neighbours.',
  ['inputs'], 'every text of up to the stated number of characters over an alphabet of three scripts, brackets, spaces, tab, line ends, mark, digit and emoji; any base direction, coverage of the fonts and range of an attribute',
  'Five iterators advance together, each one with its own end, and the font of a character depends on its neighbours: the tests compare a few texts with installed fonts.',
  ['pango/item.go', 'pango/context.go', 'pango/script_iter.go'], [('items', 'itemizeState.processRun'), ('fonts', 'itemizeState.getFont'), ('levels', 'bidiGetEmbeddingLevels'), ('scripts', 'scriptIter.next')],
  'Bounded: texts of 2 to 4 characters (3 to 6 in the thorough tier) over up to 13 characters, two fonts of symbolic coverage, one attribute. Horizontal text: gravities are not covered.')
P('C27', 'Text transforms and variants change the glyphs of the right characters',
  'The glyphs of a text with transforms (lower case, upper case, capitalized) are those of the transformed text, each one attached to its original character; small, petite or unicase capitals missing in a font are emulated by capitals of smaller size, and font scales change the size of the font, only for the characters of the attribute.',
  ['inputs'], 'every text of up to the stated number of characters over letters of both cases, space, accented letter, line end and digit, with any range for a transform, a variant and a font scale',
  'The tests only check that the functions run: transforms depend on the words, on the item and on the position of the item in the text.',
  ['pango/item.go', 'pango/shape.go', 'pango/context.go'], [('transforms', 'applyTextTransform'), ('variants', 'splitItemsForVariant'), ('scale', 'Context.applyFontScale')],
  'Bounded: texts of 2 or 3 characters (4 in the thorough tier), one attribute of each kind. Fonts without OpenType tables: the emulation of the variants is always used.')
P('C28', 'Font descriptions are read back from their text and merged field by field',
  'The text form of a font description is read back as the same description, whatever its family, weight, style, stretch, variant, gravity, size and variations; all the documented words are understood in any case, with or without hyphens. Merging, unsetting and comparing descriptions act on the fields which are set, and equal descriptions have equal keys.',
  ['inputs'], 'every description with two fields (three in the thorough tier) among representative families, weights, sizes, variations and all the other values; every documented word with any case; every pair of descriptions for merging',
  'A word of the text may be a family, a style or a number, so that the right reading depends on the other fields: the tests parse a few strings.',
  ['pango/fonts.go', 'pango/gravity.go'], [('text', 'FontDescription.String'), ('reading', 'NewFontDescriptionFrom'), ('merge', 'FontDescription.pango_font_description_merge'), ('key', 'FontDescription.AsHash')],
  'Bounded: 14 families (words, numbers, style words, lists), 15 weights, 9 sizes, 4 variations; one word and one family in the reading check (two words in the thorough tier). Families are written without extra spaces, and do not start by @.')
P('C29', 'Markup gives the text and, on each character, the attributes of its tags',
  'A markup with balanced known tags gives its text without tags, and each character has exactly the attributes of the tags it is in, inner tags and explicit attributes winning over outer tags and font descriptions; relative sizes combine from the closest absolute size. Accelerator marks are removed and underline their character; anything else, including invalid values of attributes and colors, is an error.',
  ['inputs'], 'every sequence of up to the stated number of texts, marks, opening tags and closing tags; every documented attribute of span; every hexadecimal color',
  'The attributes of a character depend on the nesting of its tags and on the text before them; the tests parse a list of files, with at most one unusual feature each.',
  ['pango/markup.go', 'pango/color.go'], [('tags', 'markupData.startElementHandler'), ('sizes', 'markupData.endElementHandler'), ('accelerators', 'markupData.textHandler'), ('attributes', 'span_parse_func'), ('colors', 'pango_color_parse_with_alpha')],
  'Bounded: 4 to 6 tokens (up to 7 in the thorough tier), two or three tags among 14; about 80 values of attributes and 30 errors; all the colors of 3 or 4 characters, longer ones with digits of the same class and one free character. The XML decoder of the standard library is executed too. Size attributes nested in a scale attribute are compared attribute by attribute.')
P('C31', 'Characters get the emoji presentation of the Unicode emoji sequences',
  'A text is divided into maximal runs of emoji and text presentation: emoji by default, characters followed by the emoji variation selector, modifier, flag, keycap, tag and joiner sequences have emoji presentation, the longest sequence winning; the text variation selector and everything else give text presentation. The emoji font is asked for the first ones, and only for them.',
  ['inputs'], 'every text of up to the stated number of characters, over an alphabet with the characters of each class of the emoji grammar and the limits of these classes',
  'The scanner is a generated state machine with back-tracking: sequences which start like a longer one and fail later are rare in the golden texts of the tests.',
  ['pango/emoji.go', 'pango/emoji_presentation_scanner.go', 'pango/context.go'], [('classes', 'emojiSegmentationCategory'), ('sequences', 'scanEmojiPresentation'), ('runs', 'emojiIter.next'), ('fonts', 'itemizeState.updateForNewRun')],
  'Bounded: texts of up to 4 characters of all the classes, 6 of the classes which form long sequences; one to six characters for each class. Oracle: a longest match of the grammar of UTS 51, written as a table of the pairs of positions which bound a sequence.')
P('C32', 'Vertical text has the orientation of its scripts, widths and hints',
  'In vertical text, wide characters are upright and the others are rotated according to their script, the base gravity and the hint; the gravity of a font description wins over them. The gravity of an item gives its font, its level and the order of its glyphs, the one of the context gives the direction of the lines, and asking for metrics changes none of them.',
  ['inputs', 'histories'], 'every text of up to the stated number of characters over an alphabet with scripts of each orientation, wide characters, joiners and selectors; any base gravity, given directly or by rotating the page, hint, and attribute of gravity, hint or font; metrics asked or not before',
  'The orientation combines five inputs, with cases for each; no test lays out vertical text.',
  ['pango/gravity.go', 'pango/context.go', 'pango/layout_line.go'], [('rules', 'pango_gravity_get_for_script_and_width'), ('widths', 'widthIter.next'), ('items', 'itemizeState.updateForNewRun'), ('lines', 'LayoutLine.setResolvedDir')],
  'Bounded: texts of 2 to 4 characters over up to 14 characters, one attribute. Emoji are excluded: after a narrow character they keep its orientation, as in the original library. A gravity attribute in horizontal text is only checked through the font description.')

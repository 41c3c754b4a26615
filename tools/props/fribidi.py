BIDITEST = 'the UAX #9 conformance files are not in the repository, so the existing tests run a handful of strings'
P('C01', 'Embedding levels follow the Unicode Bidirectional Algorithm',
  'For every paragraph and base direction, the resolved paragraph direction and the embedding level of every character kept by rule X9 are those of UAX #9 (rules P2 to L1), including the limits on nesting depth and on bracket pairs. The input is not modified, the reported maximum bounds the levels, and no input makes the computation fail.',
  ['inputs'], 'every sequence of bidi classes and bracket characters up to the stated length, every base direction; strings built around 100 to 130 nested embeddings or 60 to 66 nested brackets',
  'The quantifier is over strings of 23 classes plus brackets: ' + BIDITEST + '.',
  ['fribidi/bidi.go', 'fribidi/run.go', 'fribidi/fridibi.go'],
  [('paragraph level, explicit levels, weak/neutral/implicit resolution', 'fribidi.GetParEmbeddingLevels'), ('run list', 'fribidi/run.go')],
  'Bounded: holds for every class string up to the lengths in checks.json (quick: 3 over all classes, 4 to 6 over sub-alphabets; nesting limits with symbolic suffixes). Oracle: a character-level transcription of UAX #9 in the harness. Levels of characters removed by X9 and of a paragraph separator are not compared.')
P('C02', 'Line reordering is the permutation of rules L1 to L3',
  'Reordering a line permutes the visual string and the position map identically, touches nothing outside the line, and two characters keep their logical order exactly when the lowest level between them is even (marks of a right-to-left cluster stay after their base when asked). Trailing white space and isolate controls of the line get the paragraph level.',
  ['inputs'], 'every line range of every paragraph up to the stated length, all levels and classes, with or without each output list and option',
  'Reordering depends on every level profile and every line range: the tests only reorder whole short strings.',
  ['fribidi/bidi.go'], [('line reordering', 'fribidi.ReorderLine')],
  'Bounded: paragraphs of up to 4 (quick) or 5 (thorough) characters, levels up to 3, 8 to 9 classes. Oracle: pairwise characterisation of L2.')
P('C03', 'Removing bidi marks keeps the other characters and the maps consistent',
  'Removing the bidi marks keeps exactly the other characters, in order, with their levels; both position maps are renumbered consistently, and the entry of a removed character is -1.',
  ['inputs'], 'every string over an alphabet with all kinds of marks, every permutation, every combination of provided lists',
  'The map update depends on the permutation and on which characters are removed: no test calls it with maps.',
  ['fribidi/fridibi.go'], [('removal of marks', 'fribidi.RemoveBidiMarks')],
  'Bounded: strings of up to 4 (quick) or 5 (thorough) characters over 18 characters, all permutations.')
P('C04', 'Arabic joining, shaping and mirroring follow the Unicode rules',
  'In the visual string of a paragraph, each Arabic letter has the presentation form determined by which neighbours it joins (joining types, skipped transparent characters, level boundaries), lam-alef pairs form their ligature, and characters with a mirror are mirrored exactly at odd levels. The logical and visual maps are inverse permutations and the input is not modified.',
  ['inputs'], 'every string over an alphabet covering the joining types, marks, joiners, embeddings, overrides and mirrored characters, all base directions and shaping options',
  'Joining depends on the neighbours, the levels and the skipped characters between them; the tests hold fixed strings.',
  ['fribidi/joining.go', 'fribidi/arabic.go', 'fribidi/shape.go', 'fribidi/fridibi.go'],
  [('joining', 'fribidi.joinArabic'), ('shaping', 'fribidi.Shape'), ('pipeline', 'fribidi.LogicalToVisual')],
  'Bounded: strings of 3 (quick) or 4 (thorough) characters over 18 characters. The forms given to combining marks are not compared. Levels are taken from the implementation (C01).')
P('C05', 'The layout engine resolves bidi text as the full algorithm does',
  'The paragraph direction and the levels used by the layout engine, including its shortcuts for unidirectional text, give the same direction for each character, the same visual order and the same paragraph direction as the full bidirectional algorithm.',
  ['inputs'], 'every text over an alphabet covering the bidi classes, every requested direction',
  'The shortcut is guarded by a condition over the union of the classes of the whole text; tests use a few texts.',
  ['pango/direction_bidi.go'], [('shortcut for unidirectional text', 'pango.bidiEmbeddingLevels')],
  'Bounded: texts of 3 (quick) or 4 (thorough) characters over 23 characters covering the bidi classes.')

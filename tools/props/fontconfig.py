P('C11', 'Sets of characters behave as sets under every history',
  'After any history of additions and removals, a set of characters contains exactly the characters it should, its size, union, difference, intersection, equality, inclusion and copy are those of the mathematical sets, and a copy is independent of the original. Parsing a textual list of code points and ranges yields exactly the denoted set, and malformed text is an error, never a hang or a panic.',
  ['inputs', 'histories'], 'every history of additions and removals up to the stated length over characters chosen at the boundaries of the storage pages; every text of the stated shape, and every short text over the alphabet of the syntax',
  'Equality, inclusion and union depend on which storage pages exist and on empty pages left by removals, which is a matter of history; the tests only read a few fixed sets.',
  ['fontconfig/charset.go'], [('page storage', 'fontconfig.Charset'), ('parsing', 'fontconfig.parseCharSet')],
  'Bounded: histories of 2 to 3 operations per set over characters of 3 to 5 pages (the characters inside a page are symbolic); ranges with the stated number of digits.')
P('C12', 'Languages compare and combine as sets of tags',
  'Two tags are equal, differ by territory or differ by language exactly as their case-folded subtags say; a set of languages answers membership, best match, inclusion, equality, union, difference and listing as the mathematical set of its tags, including tags absent from the built-in table. The locale of the environment is reduced to the known language, with its territory when known.',
  ['inputs', 'histories'], 'every pair of short tags; every tag searched in the table of languages; every subset of a family of known and unknown tags, with removals; every locale of the given shapes',
  'Set operations mix a bit array indexed by a permuted table with a map of other tags; the tests only look at a few languages.',
  ['fontconfig/lang.go', 'fontconfig/lang_table.go'], [('comparison', 'fontconfig.langCompare'), ('search in the table', 'fontconfig.findLangIndex'), ('sets', 'fontconfig.Langset')],
  'Bounded: tags of up to 4 or 5 characters, sets over up to 9 tags. The best match between a language without territory and one of its known territories is not compared between two sets.')
P('C13', 'A serialised font set is read back identical, and bad data is an error',
  'Writing a font set and reading it gives the same fonts, with the same objects, values, types, bindings and order (except for languages without known orthography, which are documented not to be saved). Reading truncated, altered or arbitrary data ends with an error or a usable font set: it never panics or yields a value without type.',
  ['inputs', 'crashes'], 'every font set of the stated shape with any content (all bits of numbers, bytes of strings, pages of character sets); every short byte string; every truncation and every change of one byte of a serialised font',
  'Robustness and fidelity are over all byte strings and all values; the tests save and load one scan of the fonts of the machine.',
  ['fontconfig/cache.go'], [('writer', 'fontconfig.Fontset.Serialize'), ('reader', 'fontconfig.LoadFontset')],
  'Bounded: up to 2 fonts, objects and values, strings of up to 2 bytes, character sets of up to 2 pages; arbitrary data of up to 14 bytes (quick) with bytes between 0 and 10. gzip is modelled as the identity in the symbolic execution (the real one runs in the replay), so damage is to the uncompressed content.')
P('C14', 'Patterns are ordered lists of typed values per object',
  'After any sequence of insertions at either end and deletions, each object of a pattern holds the accepted values in order, the typed accessors report them, values of an undocumented type are refused, and a copy is independent. Two patterns with the same hash have the same values. Default substitution keeps what was given, supplies the documented defaults, and makes size, pixel size, scale and resolution agree.',
  ['inputs', 'histories'], 'every sequence of operations of the stated length over all types of values and objects with each documented type; every pair of patterns of the stated shape; every combination of given sizes and defaults',
  'The hash must separate all pairs of patterns, and defaults depend on every combination of given fields and types.',
  ['fontconfig/pattern.go', 'fontconfig/values.go'], [('patterns', 'fontconfig.Pattern'), ('hash', 'fontconfig.Pattern.Hash'), ('defaults', 'fontconfig.Pattern.SubstituteDefault')],
  'Bounded: 2 (quick) or 3 operations, up to 2 or 3 values per object; strings of up to 2 (quick) or 4 bytes; sizes up to 100 (Int) and 25 (Float). The environment is taken as empty.')
P('C15', 'The match is the first closest font and the sorted list is in order of closeness',
  'A match returns the first font whose distances to the query, compared in the documented order of priority of the properties, are minimal; sorting lists fonts by the same order, keeps ties in order, serves each language of the query by the closest font supporting it, and trims exactly the fonts which add no coverage. The distances between numbers, ranges, names and file globs are the documented ones and no value makes them fail; the resulting pattern takes the best font value for shared properties and keeps the others.',
  ['inputs'], 'all distances between short strings, globs, numbers and ranges; every pair of priorities; every query and font set of the stated shape, with any numeric values, bindings, families, languages and coverage',
  'The result is determined by comparing every pair of fonts over 27 priorities, for every query; the tests match a few queries on the fonts of the machine.',
  ['fontconfig/match.go', 'fontconfig/hash_tables.go'], [('distances', 'fontconfig.compareRange'), ('priorities', 'fontconfig.fcMatchers'), ('match', 'fontconfig.Fontset.Match'), ('sort', 'fontconfig.Fontset.Sort'), ('result', 'fontconfig.Config.PrepareRender')],
  'Bounded: 2 to 3 fonts (quick) or 4 with up to 2 families, 2 spacings and a weight per query, values 0 to 2; strings of up to 3 to 5 characters; 14 fonts for ties. Oracle: distances in integers compared lexicographically. Comparisons and conversions of floats over few small variables are given to the solver as tables computed with the machine arithmetic.')
P('C16', 'Listing returns each distinct matching font once, and selectors accept first',
  'Listing fonts against a query returns, reduced to the requested properties, each distinct font which has every value of the query (names ignoring case and blanks, languages by inclusion), once and nothing else, with the name in the language of the user first and the others in order. A file or font is rejected when it matches a rejecting glob or pattern and no accepting one.',
  ['inputs'], 'every query and pair of fonts of the stated shape, every order of iteration of the maps; every list of languages of names; every sequence of accepting and rejecting selectors of the stated length',
  'Uniqueness and completeness depend on the values of all the fonts at once and on hashes of patterns; the tests list the fonts of the machine.',
  ['fontconfig/list.go', 'fontconfig/config.go'], [('listing', 'fontconfig.Fontset.List'), ('matching', 'fontconfig.patternMatchAny'), ('selectors', 'fontconfig.Config.acceptFont')],
  'Bounded: 2 fonts (3 in thorough) with up to 2 families, a spacing and a set of languages; up to 4 names; up to 2 selectors (3 in thorough) and globs of up to 2 or 3 characters. The order of the fonts in the result is not specified.')
P('C17', 'Expressions of the rules have the documented values',
  'A comparison of two values of a rule has the documented result for every operator and pair of types, after the documented promotions; arithmetic, logical, rounding and conditional expressions, fields and constants have their mathematical value, exact for integers, and no value when the types do not agree. No expression panics or modifies its operands.',
  ['inputs'], 'every operator on every pair of types; all integers for sums, differences and comparisons; all floats of the stated exponents for roundings; strings, sets, ranges and matrices of the stated shape',
  'The value must be right for all operands; the tests evaluate a few expressions of the standard configuration.',
  ['fontconfig/expr.go', 'fontconfig/values.go'], [('evaluation', 'fontconfig.expression.evaluate'), ('comparison', 'fontconfig.compareValue'), ('promotion', 'fontconfig.promote')],
  'Bounded: strings of up to 2 (quick) or 3 characters, sets over 3 elements, halves between -5/2 and 5/2 for mixed operations, floats with 24 bits of precision and exponents from -26; products of integers up to 30 (80 in thorough) and around the limits of the range. A range "contains" as the matcher does: the left one lies in the right one.')
P('C18', 'Substitution applies each rule whose tests pass, at the matched value',
  'Substituting a pattern applies, in order, the rules of the requested kind whose tests all pass on the values left by the previous rules, and each edit changes the list of values as documented: relative to the value matched by the test, whatever the previous edits of the rule did, or to the whole list. Values of an undocumented type are never stored, no rule panics, and the default language is added unless given.',
  ['inputs', 'histories'], 'every list of values, every test (qualifier, operator, value, absent value) and every sequence of edits of the stated length, followed by a second rule testing the result; every kind of substitution; every type of value',
  'The position of the matched value moves with each edit and the table of families must follow the list: both depend on the sequence of edits; the tests apply the standard configuration to a few patterns.',
  ['fontconfig/substitutions.go', 'fontconfig/values.go'], [('substitution', 'fontconfig.Config.Substitute'), ('tests', 'fontconfig.matchValueList'), ('edits', 'fontconfig.ruleEdit.edit'), ('table of families', 'fontconfig.familyTable')],
  'Bounded: up to 3 values, 2 edits (3 in thorough) of up to 2 values per rule, 2 rules, tests against one value. A value replaced by values of a wrong type is not specified beyond the absence of panic.')
P('C30', 'A configuration file gives the rules, aliases and selectors written in it',
  'Loading XML configuration files adds, in order, one rule per match or alias element, with the target, tests, comparisons, edits, modes, bindings and values which are written, the families of an alias being added around the one it matches, and the selectors accept or reject what they list. Invalid attributes, values or combinations of elements are reported as errors, and no well formed document makes the loading or the use of the configuration fail abruptly.',
  ['inputs'], 'every value of each attribute; every operator and type of value with symbolic digits; every pair of nested elements in each context; aliases with symbolic families; several rules and files',
  'Values are stacked by the nesting of the elements and interpreted later by type assertions: each pair of nested elements is a path, where the tests only load the valid standard files.',
  ['fontconfig/xml.go', 'fontconfig/config.go', 'fontconfig/name.go', 'fontconfig/substitutions.go'], [('documents', 'fontconfig.Config.LoadFromMemory'), ('elements', 'fontconfig.configParser.endElement'), ('aliases', 'fontconfig.configParser.parseAlias'), ('new objects', 'fontconfig.Config.lookupCustomObject')],
  'Bounded: documents of up to two nested elements in a context (all the elements), 3 rules, 2 files, aliases of up to 2 families of each kind, numbers of one or two digits. The reflection of xml.Decoder.Decode is replaced by the direct call of UnmarshalXML it ends with (the rest of encoding/xml is executed). Scanning a directory for files is not covered.')

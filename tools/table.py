IB = 'BibleOrgSys/Internals/InternalBible.py'; IBB = 'BibleOrgSys/Internals/InternalBibleBook.py'; IDX = 'BibleOrgSys/Internals/InternalBibleIndexes.py'; INT = 'BibleOrgSys/Internals/InternalBibleInternals.py'
FM = 'BibleOrgSys/Formats/'
WR = 'BibleOrgSys/BibleWriter.py'; GL = 'BibleOrgSys/BibleOrgSysGlobals.py'
NOFORMAT = 'The stable tests only exercise reference data (book codes, versifications, names); no stable test loads, indexes, searches or writes a Bible'
EXPL = 'Exploration of randomly generated inputs (seeded) plus the shipped test data; says nothing beyond the inputs run. '

prop('C01', 'Loading USFM neither loses, duplicates, moves nor alters text',
 'After loading a well-formed USFM Bible, every word of the source is found exactly once, in the same book, chapter and verse (or heading, title or introduction line) and in the same order, however the source is laid out in lines and whether or not markers are nested or adjacent. Footnotes, cross-references, figures and word attributes are held aside at the place where they occurred, with their content intact, and putting them back reproduces the line. The clean text of a line contains no markup.',
 ['inputs'], 'all well-formed USFM books: any mix of paragraphs, poetry, lists, headings, introductions, verse bridges, partial verses, character styles (nested too), notes, figures, word attributes, Unicode text, physical line layouts and encodings markers',
 NOFORMAT + '; and conservation has to hold for every combination and position of markup.',
 [IBB, IB, 'BibleOrgSys/Formats/USFMBible.py', 'BibleOrgSys/Formats/USFMBibleBook.py', 'BibleOrgSys/InputOutput/USFMFile.py'],
 [('line parsing and continuation handling', 'BibleOrgSys/InputOutput/USFMFile.py read'), ('processing of lines, extraction of notes with their index', IBB + ' processLines, processLineFix')],
 'conservation monitor over uniquely numbered words from source to loaded lines', EXPL + 'Oracle: the generator that wrote the source knows where each word belongs.',
 observe=['entries of each loaded book: marker, text, clean text, full text, extras'])

prop('C02', 'Every structural marker opened while processing is closed once, in place',
 'The line stream of a processed book is balanced: every structure (headers, introduction, outline, chapters, chapter, verse, paragraph, list) is closed exactly once, directly after its last line (before the heading, paragraph, verse or chapter which follows) and before the structure around it, except that verses may run over paragraphs, and paragraphs, lists and major sections over chapters. No paragraph is open inside another and no chapter inside another, text lies in its paragraph, and verse text always within an open chapter and verse. Removing the added markers leaves exactly the lines that were loaded.',
 ['inputs'], 'all well-formed USFM books',
 NOFORMAT + '; the balance depends on the order in which paragraph, list, heading, chapter and verse markers meet.',
 [IBB, INT], [('adding nesting markers', IBB + ' _addNestingMarkers'), ('nesting marker table', INT + ' BOS_NESTING_MARKERS')],
 'open/close trace automaton over the line stream of every processed book', EXPL + 'Random marker soup that is not well-formed USFM is outside the property.', observe=['processed line stream'])

prop('C03', 'The chapter/verse index files every line once under its own verse',
 'Each processed line of a book belongs to exactly one entry of the chapter-verse index, the entry of the chapter and verse it stands in (lines before chapter 1 are numbered consecutively as chapter -1), and entries follow the order of the text. Headings and paragraph openings that introduce a verse are filed with that verse, and a section heading directly before a verse (and nothing else) is preceded by a verse-start line (v=) with its number. The context stored with an entry is exactly the list of structural markers open at its start.',
 ['inputs'], 'all well-formed USFM books, with verse bridges and partial verses',
 NOFORMAT + '; index errors show only for particular neighbourhoods of headings, paragraphs and verse numbers.',
 [IDX, IBB], [('making the index', IDX + ' InternalBibleBookCVIndex.makeBookCVIndex'), ('access by key', IDX + ' getVerseEntries, getVerseEntriesWithContext, getChapterEntries')],
 'index invariant monitor: an independent recomputation from the line stream, entry by entry', EXPL + 'Oracle: a second, simple index builder over the same stream.', observe=['index entries, their slices and contexts'])

prop('C04', 'Looking up a verse, chapter, book or range returns exactly that text',
 'Asking a loaded Bible for a verse, a chapter, a whole book or a range (also across chapters and books) returns the lines of exactly the verses asked for, once each and in order, with the right context. In the non-strict mode a verse that is part of a bridge or split into parts is found through that bridge or its parts; a verse that is not there raises KeyError in the strict mode and never returns other text.',
 ['inputs', 'histories'], 'all loaded Bibles, all references from before the first to beyond the last verse, in strict, non-strict and complete modes, in any order of queries',
 NOFORMAT + '; the answer depends on bridges, suffixes, gaps and range end points.',
 [IB, IBB, IDX, 'BibleOrgSys/Reference/VerseReferences.py'], [('verse data with context', IBB + ' getContextVerseData'), ('ranges', IBB + ' getContextVerseDataRange; ' + IB + ' getContextVerseDataRange'), ('text of a verse', IB + ' getVerseText, getVerseDataList')],
 'query/answer monitor against the generated source', EXPL + 'Oracle: the generator; every verse number around every chapter is asked for.', observe=['results of every lookup call'])

prop('C05', 'The section index puts every verse text in exactly one section',
 'The section index divides each book into sections in text order that neither overlap nor leave out any text line: each starts at its section heading, chapter start without heading, or book start, and its heading text and reason are those of the heading that begins it.',
 ['inputs'], 'all well-formed USFM books with any placement of section headings, major headings, introductions and bridges',
 NOFORMAT + '; section boundaries depend on where headings fall relative to verses, chapters and bridges.',
 [IDX, IB], [('making the section index', IDX + ' InternalBibleBookSectionIndex.makeBookSectionIndex'), ('entries of a section', IDX + ' getSectionEntriesWithContext')],
 'partition monitor over the section index', EXPL + 'Two genuine defects are recorded as known findings (two headings in one verse; major heading next to a partial verse).', observe=['section index entries'])

prop('C06', 'The versification discovered from the text is the numbering in the text',
 'For every loaded book the reported chapters, last verse of each chapter, omitted verses, combined verses and out-of-order verses are exactly those of the source. The reported paragraph starts, poetry starts, section headings and words-of-Jesus places are exactly those in the text, and the numbers of chapters and verses answered later agree with them.',
 ['inputs'], 'all books with any verse numbering: gaps, bridges, reordered verses',
 NOFORMAT + '; irregular numbering comes in unlimited combinations.',
 [IBB, IB], [('versification discovery', IBB + ' getVersification'), ('added units', IBB + ' getAddedUnits'), ('counts', IBB + ' getNumChapters, getNumVerses')],
 'result monitor against the numbering that was generated', EXPL, observe=['getVersification, getAddedUnits, getNumVerses results'])

prop('C07', 'Searching finds exactly the occurrences in the text, at the right places',
 'Searching a loaded Bible reports every occurrence that the options ask for (word mode, letter case, accents, regular expression, books, chapters, markers, introductions, main text, notes, marker text; missing options have their defaults) and no other, in text order, each with its book, chapter and verse, position and the surrounding text exactly as in the Bible. The summary lists the books searched and found, the search history ends with the latest search, and searching changes nothing in the Bible.',
 ['inputs', 'histories'], 'all loaded Bibles, all search options',
 NOFORMAT + '; the option space times the text is unbounded.',
 [IB], [('searching', IB + ' findText')],
 'differential monitor: brute-force reference search over the same lines', EXPL, observe=['search results and summary'])

prop('C08', 'Analysis is read-only and repeatable, and its counts are what is in the text',
 'Discovering and checking a Bible changes nothing in it, gives the same results for the same text however often and in whatever order the analyses are run, and a check restricted to one book reports that part of the whole. Chapter, verse, word, character, note, figure and heading counts, discovered features and the progress of each book (finished, partly done, not started) equal what is in the text (each word once), and totals over all books, and over the books of each testament, are the sums. Verse gaps, verse numbers out of sequence, titles and headings ending in a period, double spaces and wrong footnote origins are reported at their place.',
 ['inputs', 'histories'], 'all loaded Bibles; all orders of analysis calls; all places of the listed errors',
 NOFORMAT + '; counting depends on all text and markup combinations.',
 [IB, IBB], [('discovery', IBB + ' _discover; ' + IB + ' discover'), ('checks', IBB + ' checkBook, doCheckWords, doCheckCharacters, doCheckHeadings, doCheckNotes'), ('results', IB + ' getCheckResults')],
 'state-unchanged monitor, repetition monitor and recount of words and characters', EXPL + 'The accumulating priority-error list is excluded from the repetition comparison.', observe=['object state before and after', 'discovery and check results'])

prop('C09', 'Entries and lists of the internal representation behave as plain values',
 'Two entries, extras or extras lists compare equal exactly when all their fields are equal. Entry lists and extras lists behave as ordinary lists under any history of append, extend, pop, indexing, slicing, copying and adding, and an operation that makes a new list leaves its operands alone. Word and figure attribute strings parse to exactly the names and values written in them, and the leading integer of a verse number string is what is written there.',
 ['inputs', 'histories'], 'all histories of list operations; all entries; all well-formed attribute strings in USFM 2 and 3 form',
 NOFORMAT + '; list identities have to survive every history.',
 [INT], [('entry and list types', INT + ' InternalBibleEntry, InternalBibleEntryList, InternalBibleExtra, InternalBibleExtraList'), ('attribute parsing', INT + ' parseWordAttributes, parseFigureAttributes, getLeadingInt')],
 'model-based monitor: every operation mirrored on plain Python lists; rendered-then-parsed attribute strings', EXPL, observe=['list contents after every operation', 'parsed attribute dictionaries'])

prop('C10', 'A damaged book file harms neither other books nor its undamaged lines',
 'Loading, discovering and checking a USFM Bible in which one book file is damaged in its chapters (lines missing, duplicated, swapped, truncated, run together, broken in two, blank, stray or unknown; note and character markers without their partner; verse markers without a number; structural markers anywhere) or has text before its first marker raises no exception. Every other book is loaded and analysed exactly as if the damaged one were intact. In the damaged book every word on an undamaged line is kept, once and in order; only lines with an unknown marker and notes cut off by the damage may lose words.',
 ['inputs', 'crash-points'], 'all placements and combinations of the listed damage in all well-formed books',
 'No stable test loads a Bible at all, and damage comes in unlimited combinations.',
 [IBB, IB, 'BibleOrgSys/Formats/USFMBible.py', 'BibleOrgSys/Formats/USFMBibleBook.py', 'BibleOrgSys/InputOutput/USFMFile.py'], [('reading lines', 'BibleOrgSys/InputOutput/USFMFile.py read'), ('building lines', 'BibleOrgSys/Formats/USFMBibleBook.py load'), ('processing', IBB + ' processLines')],
 'fault injection into source files with conservation and neighbour-unchanged monitors', EXPL + 'Outside the listed damage (an unfinished figure, a chapter marker without number) the code is known to stop with an exception.', observe=['exceptions', 'entries of damaged and intact books'])


prop('C11', 'Working with several processes gives exactly what one process gives',
 'Loading the books of a Bible (USFM, also USFM2, ESFM, USX, OSIS folder, pickled, verse files, aligned USFM) with several worker processes gives the same books in the same order, with the same content, names, metadata, alignments and analysis results, as loading them one by one; empty book files are ignored. Exporting to every format with several worker processes gives the same result flags and the same files with the same content (dates apart) as exporting one after another. Afterwards later operations are not affected by the parallel phase.',
 ['schedules', 'inputs'], 'all loaded Bibles, all numbers of processes, all schedules of the worker processes',
 'No stable test loads or exports a Bible; the order in which workers finish is not under the control of a test.',
 [IB, FM + 'USFMBible.py', FM + 'USFM2Bible.py', FM + 'ESFMBible.py', FM + 'USXXMLBible.py', FM + 'OSISXMLBible.py', FM + 'PickledBible.py', FM + 'BCVBible.py', 'BibleOrgSys/BibleWriter.py', 'BibleOrgSys/BibleOrgSysGlobals.py'],
 [('parallel loading', 'loadBooks and _loadBookMP of the seven loaders'), ('parallel exports', 'BibleOrgSys/BibleWriter.py doAllExports')],
 'differential monitor: state and files after parallel runs against a sequential run', EXPL + 'Interleavings are those the operating system produces.', observe=['book objects', 'discovery results', 'exported files'])

prop('C12', 'Books loaded on demand or again equal a complete fresh load',
 'A USFM Bible whose books are loaded on demand, in any order and mixed with any queries, ends up with the same content and gives the same answers as one whose books were all loaded at once. Reloading a book after its file changed gives exactly what a fresh load of the changed files gives, and leaves the other books alone. Loading or processing a book again does not duplicate anything.',
 ['histories', 'inputs'], 'all orders of load, reload and query calls on all Bibles',
 'No stable test loads a Bible; the property is about all histories of calls.',
 [IB, IBB, 'BibleOrgSys/Formats/USFMBible.py'], [('on-demand loading', IB + ' loadBookIfNecessary, loadBook, reloadBook, reProcessBook'), ('loading', 'BibleOrgSys/Formats/USFMBible.py preload, loadBook, loadBooks')],
 'history monitor: random load/reload/query histories against a fresh complete load', EXPL, observe=['entries, discovery results and query answers after each history'])

prop('C13', 'Aligned (unfoldingWord) USFM keeps its text and every alignment',
 'Loading USFM with unfoldingWord alignment milestones (\\zaln-s … \\zaln-e) gives every verse and psalm title its exact words and punctuation with no milestone left in it, whatever the line layout, nesting, paragraph breaks, chunk markers and unaligned words. Every alignment keeps its verse, its source words with their attributes in order, and exactly its own translated words with their occurrence numbers, discontiguous parts being joined with an ampersand at the first of them. The exported alignment tables (by book, form, lemma, Strongs and translated word, for the whole Bible and for each testament) and the text-only USFM agree with those alignments.',
 ['inputs'], 'all aligned USFM books in any line layout',
 'No stable test loads an aligned text; the line-by-line state machine has to be right for every layout and nesting.',
 ['BibleOrgSys/Formats/USFMBibleBook.py', IBB, IB], [('milestones', 'BibleOrgSys/Formats/USFMBibleBook.py load, handleUWEncoding'), ('alignments', IBB + ' cleanUWalignments'), ('tables', IB + ' analyseAndExportUWalignments')],
 'conservation monitor: generated aligned texts against the loaded text, alignments and exported tables', EXPL, observe=['verse texts', 'alignments', 'tables'])

prop('C20', 'Writing USFM and reading it back preserves the Bible',
 'Exporting a loaded Bible to USFM 2 or USFM 3 and loading the exported files gives the same books with the same lines, text, notes and attributes (only the non-standard \\str Strongs numbers are left out), and exporting that again gives the same files byte for byte. The ESFM and pseudo-USFM exports hold every word of the Bible at its verse, in order. Export options (line endings, removing verse bridges) change what they name and nothing else, and the archives contain exactly the files exported.',
 ['inputs'], 'all loaded Bibles with any mix of markup, bridges, notes and attributes; all export options',
 NOFORMAT + '; a round trip has to hold for every combination of markup.',
 [WR, IB, IBB], [('USFM exports', WR + ' toUSFM2, toUSFM3, toESFM, toPseudoUSFM'), ('putting notes back', 'BibleOrgSys/Internals/InternalBibleInternals.py getFullText')],
 'round-trip monitor: export, reload with the real loader, compare, export again', EXPL, observe=['exported files', 'reloaded books'])

prop('C27', 'Exporting is read-only, repeatable, and independent of earlier work',
 'Every exporter, run on a loaded Bible, completes, reports success, and leaves the Bible as it was. The files it writes are the same (dates apart) whether it is run first, again to the same folder, or after any other exporters and analyses have run on the same Bible object.',
 ['inputs', 'histories'], 'all loaded Bibles; all histories of exports and analyses',
 NOFORMAT + '; exporters share one Bible object and module-level state, so that any of them can disturb any other.',
 [WR, IB], [('exporters', WR + ' to… methods and doAllExports'), ('formats written elsewhere', 'BibleOrgSys/Formats/*.py create… functions')],
 'state-unchanged monitor and differential monitor over all 28 exporters and random histories', EXPL + 'The Sword module writer says itself that it does not handle split verses; these are left out for it.', observe=['Bible state before and after', 'exported files', 'result flags'])

prop('C21', 'Exported USX says exactly what the Bible says, and USX loads as the same USFM',
 'Exporting a loaded Bible to USX gives one well-formed file per book, in which every word of text, headings and notes is found once, in order, in its verse, with its note kind, paragraph style and character style, every chapter and verse milestone stands where the chapter or verse begins, and every opened milestone is closed. Loading the exported files gives a Bible with the same lines, text and notes (USX 3 also the word attributes and reference targets), and exporting that again gives the same files. USX written elsewhere (indented or not, attributes in any order, with tables, figures, published numbers, optional breaks and verse ends) loads to the same Bible as the USFM that says the same.',
 ['inputs'], 'all loaded Bibles with any mix of markup except figures; all layouts of a USX file',
 NOFORMAT + '; an export has to be right for every combination and nesting of markup.',
 ['BibleOrgSys/Formats/USXXMLBible.py', 'BibleOrgSys/Formats/USXXMLBibleBook.py', WR], [('export', WR + ' toUSXXML, toUSX2XML'), ('loading', 'BibleOrgSys/Formats/USXXMLBibleBook.py load')],
 'independent ElementTree reader of the exports against the generated text; round-trip and differential load monitors', EXPL + 'Figures are not written to USX and are left out; note callers and the closing of note parts are not compared.', observe=['exported USX files', 'Bibles loaded from USX'])

prop('C22', 'OSIS, USFX, Zefania, Haggai, OpenSong exports say what the Bible says',
 'Exporting a loaded Bible to OSIS, USFX, Zefania, Haggai or OpenSong XML gives well-formed XML in which every verse of the Bible occurs once, in order, under its own book, chapter and verse number (bridges and split verses included), with exactly the words, punctuation and spacing of its text and no text outside the verses. OSIS and USFX also hold every heading and introduction paragraph in order, and OSIS, USFX and Zefania every note in its verse. OSIS chapter and verse milestones are properly paired.',
 ['inputs'], 'all loaded Bibles with any mix of markup, headings, notes, bridges and special characters',
 NOFORMAT + '; an export has to be right for every combination of markup.',
 [WR, 'BibleOrgSys/InputOutput/MLWriter.py'], [('exports', WR + ' toOSISXML, toUSFXXML, toZefaniaXML, toHaggaiXML, toOpenSongXML'), ('escaping and layout', 'BibleOrgSys/InputOutput/MLWriter.py')],
 'independent ElementTree readers of the exported files against the generated text', 'Part of the Bibles are densely marked: every chapter has notes, headings, lists and nested character styles. ' + EXPL + 'Haggai and OpenSong hold no notes; Haggai leaves character markers in the text (documented in the code), which are ignored.', observe=['exported files'])

prop('C23', 'Bible module exports hold each verse text in the record of that verse',
 'Exporting a loaded Bible to a theWord, MySword, e-Sword or MyBible module gives a module in which the record of each verse (KJV numbering) holds exactly the words, punctuation and spacing of that verse; the text of a verse bridge is in the record of each of its verses, and all parts of a split verse are in its record. No verse is stored twice or holds text of another, notes stand in their verse (except in e-Sword, which has none), and section headings of the text are kept as headings.',
 ['inputs'], 'all loaded Bibles with any mix of markup, headings, notes, bridges and split verses',
 NOFORMAT + '; the records depend on every combination of markup and numbering.',
 [WR, 'BibleOrgSys/Formats/theWordBible.py', 'BibleOrgSys/Formats/MySwordBible.py', 'BibleOrgSys/Formats/ESwordBible.py', 'BibleOrgSys/Formats/MyBibleBible.py'],
 [('composing a verse', 'BibleOrgSys/Formats/theWordBible.py theWordComposeVerseLine, theWordAdjustLine'), ('databases', 'BibleOrgSys/Formats/MySwordBible.py createMySwordModule; ESwordBible.py createESwordBibleModule; MyBibleBible.py createMyBibleModule')],
 'independent readers of the modules (line file and sqlite3) against the generated text', 'Part of the Bibles are densely marked: every chapter has notes, headings, lists and nested character styles. ' + EXPL + 'Spaces next to formatting codes in e-Sword are not compared.', observe=['module records'])

prop('C24', 'VPL, SwordSearcher, Drupal and text exports hold each verse once, in place',
 'Exporting a loaded Bible to VPL (Forge for SwordSearcher), SwordSearcher, DrupalBible or plain text gives one entry per verse, in order, under its book, chapter and verse number (DrupalBible: the first number of a bridge), holding exactly the words, punctuation and spacing of that verse without markup, notes or headings. The numbers of chapters listed are right, and the archives contain exactly the files exported.',
 ['inputs'], 'all loaded Bibles with any mix of markup, headings, notes, bridges and split verses',
 NOFORMAT + '; any marker that is not handled ends up in, or loses, verse text.',
 [WR], [('exports', WR + ' toVPL, toSwordSearcher, toDrupalBible, toText')],
 'independent line readers of the exported files against the generated text', 'Part of the Bibles are densely marked: every chapter has notes, headings, lists and nested character styles. ' + EXPL, observe=['exported files and archives'])

prop('C26', 'HTML5, Markdown and TeX exports hold every verse, note and heading in place',
 'Exporting a loaded Bible to HTML5, Markdown or TeX gives one page or file per book in which every verse occurs once, in order, with exactly the words, punctuation and spacing of its text, every note in its verse, and every title, introduction paragraph and section heading in order (TeX: without psalm titles and reference ranges). The HTML tags are properly nested, ids unique, special characters escaped, and every link to a note, back to its verse, or to another book leads to it; braces and special characters of the TeX files are right, and its file of all books equals the files of the books. The archives hold exactly the pages or files.',
 ['inputs'], 'all loaded Bibles with any mix of markup, lists, headings, notes and special characters',
 NOFORMAT + '; any marker or order of paragraphs, lists and headings that is not handled breaks the page or loses text.',
 [WR], [('exports', WR + ' toHTML5, toMarkdown, toTeX')],
 'independent HTML tree, Markdown line and TeX group readers against the generated text', 'Part of the Bibles are densely marked: every chapter has notes, headings, lists and nested character styles. ' + EXPL + 'Links of section references to verses which the text does not have are not followed.', observe=['exported pages and files'])

prop('C25', 'BibleDoor, pickled and verse-file exports hold and index the whole Bible',
 'In the BibleDoor package (Bibles without lists) every verse occurs once, in order, with exactly its text and notes, and every heading, in the section HTML and in the plain text; the index entries cover the files exactly and give the first and last verse of their section, decompressing gives the uncompressed book, the JSON books are the lines of the Bible and the chapter files make up the book, and checksums, book list, divisions, chapter and section counts are right. A pickled Bible (folder or archive) and a folder of verse files (one file per verse) load back with exactly the same lines, notes and index, and the archives hold exactly the files written.',
 ['inputs'], 'all loaded Bibles with any mix of markup, headings, notes, bridges and split verses',
 NOFORMAT + '; offsets and section breaks depend on every combination of markup.',
 [WR, 'BibleOrgSys/Formats/PickledBible.py', 'BibleOrgSys/Formats/BCVBible.py', IBB], [('package', WR + ' toBibleDoor, _toBibleDoorJSONCHTML, _toBibleDoorText'), ('pickles', 'BibleOrgSys/Formats/PickledBible.py createPickledBible, PickledBible'), ('verse files', IBB + ' writeBOSBCVFiles; BibleOrgSys/Formats/BCVBible.py')],
 'independent readers of the package against the generated text; round trips through the real loaders', EXPL + 'Lists in BibleDoor sections give tags that are not properly nested and are left out.', observe=['package files', 'reloaded Bibles'])

VR = 'BibleOrgSys/Reference/VerseReferences.py'
prop('C30', 'A verse key names exactly the verses its text says and gives the text back',
 'A verse key made from any valid internal text (SimpleVerseKey, SimpleVersesKey, VerseRangeKey or FlexibleVersesKey: a verse such as "SA2_12:9", with part "!b" or index "!7"; a list of two to nine verses, or of two or three chapter:verse; a range of verses of one chapter; the supported mixtures of these) names exactly the verses of that text in order, each with its part or index. getVerseKeyText() gives the same text back, keys made from parts equal keys made from text (with equal hashes), and keys of different verses, parts or indexes are never equal. Text which is not in the notation is refused with TypeError by SimpleVerseKey.',
 ['inputs'], 'all books, chapters and verses up to 199, parts a to d, indexes 0 to 999, and all supported shapes',
 'The parser has one hand-numbered regular expression per shape of reference; tests use a handful.',
 [VR], [('keys', VR + ' SimpleVerseKey, SimpleVersesKey, VerseRangeKey, FlexibleVersesKey')],
 'keys generated from the notation and expanded by the generator itself; monitor of included verses, text, equality and hashing', EXPL + 'OSIS texts of keys and ranges over chapter ends (whose length is not known without a versification) are left out.', observe=['verse keys'])

BR = 'BibleOrgSys/Reference/BibleReferences.py'
prop('C31', 'A typed Bible reference gives exactly the verses that were written',
 'A reference list typed with the book names, abbreviations and punctuation of an organisational system (several books, chapters and verses, ranges of verses and over the ends of chapters, verse parts such as 5b, single-chapter books with or without the chapter, book names of several words) is parsed by BibleReferenceList to exactly those references in order, whatever the object parsed before; getFirstReference, getReferenceList(expanded=True), getOSISRefList and containsReference agree with it. BibleSingleReference and BibleSingleReferences give the same for one verse. A list with a chapter or verse which the versification does not have is never reported as successful.',
 ['inputs', 'histories'], 'all books of seven organisational systems in English, Matigsalug and Russian, every list shape of up to three books',
 'The parser is a hand-written state machine of ten states; no test of it runs.',
 [BR], [('parser', BR + ' BibleSingleReference, BibleSingleReferences, BibleReferenceList')],
 'texts written by a generator which knows the verses meant; monitor of parsed, expanded and rendered references on one long-lived parser per system', EXPL + 'A whole chapter followed by more references, and ranges between books with names of several words, are not supported by the parser and left out.', observe=['lists', 'single', 'refused', 'contains'])

prop('C32', 'An OSIS reference gives exactly its verses and leaves no trace in the parser',
 'BibleReferenceList.parseOSISReferenceString reads any list of OSIS references to verses and ranges of verses (over chapters and books too) of the system as exactly those references, including the output of getOSISRefList. Unknown books, books which the system does not have, and chapters or verses which do not exist are refused (first item of the result False, no exception). After any of these the same object still parses typed references as before, and containsReference with a list or range of verses is True exactly if one of them is in the parsed list.',
 ['inputs', 'histories'], 'all books with OSIS codes of seven organisational systems',
 'Parsing OSIS swaps the punctuation and name lookup of the object and must put them back; no test of it runs.',
 [BR, 'BibleOrgSys/Reference/BibleBooksCodes.py'], [('parser', BR + ' BibleReferenceList.parseOSISReferenceString')],
 'texts written by a generator which knows the verses meant, interleaved with typed references on one long-lived parser per system', EXPL + 'Ranges of whole chapters in OSIS notation are not supported by the parser and left out.', observe=['osis', 'refused', 'vernacular-after', 'round-trip', 'contains-list'])

BBC = 'BibleOrgSys/Reference/BibleBooksCodes.py'
prop('C38', 'Text in tables stays in its verse and in the exports that support tables',
 'In a Bible loaded from USFM with tables (rows with header and normal cells, verses beginning inside cells), every word of every cell belongs, in order, to the verse in which it stands. The exports BCV, USFM2, USFM3, ESFM, Text, VPL, Markdown, BibleDoor, DrupalBible, USX and USFX hold every word of every table cell exactly once and in order, and no export loses text outside the tables because of a table.',
 ['inputs'], 'all Bibles with tables of any shape at any place between paragraphs', 'No test loads a book with a table; rows come in every shape and next to every kind of paragraph.',
 [WR, 'BibleOrgSys/Internals/InternalBibleBook.py'], [('rows', 'BibleOrgSys/Internals/InternalBibleBook.py processLines'), ('exports', WR)],
 'workload of Bibles whose words are all different; the words of each verse and of each export file are compared with the generated ones', EXPL + 'The other exports drop table rows (they say so in the log) and the USX and USFX files with some tables are not well-formed: both are recorded as known findings.', observe=['verse data', 'export files'])

prop('C39', 'A Bible loaded from any format is exported to every other format, verse by verse',
 'A Bible that was loaded from theWord, MySword, e-Sword, MyBible, OSIS, USFX, Zefania, Haggai, OpenSong, VerseView, CSV, VPL, Forge, Unbound, Drupal or YET files is exported by every exporter without an exception. Each export of running text (USFM, USX, USFX, OSIS, Zefania, Haggai, OpenSong, theWord, MySword, e-Sword, MyBible, SwordSearcher, VPL, Drupal, text, HTML5, Markdown, TeX) holds exactly the verses of the source file, in order, each with the words, punctuation and spacing it has there, and where both formats have notes, each note in its verse.',
 ['inputs'], 'all Bibles of verses with inline styles, notes, paragraphs and line breaks, in all loadable formats', 'No test converts a Bible: the loaders produce line sequences (no paragraphs, text without markers, several lines per verse) that USFM files never have.',
 [WR, 'BibleOrgSys/Bible.py', 'BibleOrgSys/Internals/InternalBibleBook.py'], [('loading', 'BibleOrgSys/Formats/*Bible.py'), ('exports', WR)],
 'end-to-end conversion workload: independent writers of the sources and independent readers of the exports, compared verse by verse', EXPL + 'toSwordModule is left out.', observe=['conversions', 'verses compared'])

prop('C40', 'Book codes agree with their source table in both directions, and sort in order',
 'For every book in BibleBooksCodes.xml each field given by BibleBooksCodes (numbers, all abbreviation systems, names, expected chapters, single-chapter books, section, alternatives) is that of the table, whether loaded from XML, a written pickle or written JSON, and each lookup by number or abbreviation, in any letter case, gives one book which has that abbreviation. getSequenceList puts any list of books in sequence-number order, and sortBCVReferences any references in order of book number, chapter and verse (and verse part). getBBBFromText finds every code, and the first English name, OSIS and USFM abbreviation of the 66 books; tidyBBB gives different books different codes.',
 ['inputs'], 'all 241 books, all fields, all lookups; random lists of books and references',
 'Tests check a few codes each; shared abbreviations and high chapter and verse numbers are not among them.',
 [BBC, 'BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py', 'BibleOrgSys/DataFiles/BibleBooksCodes.xml'], [('codes', BBC), ('tables', 'BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py')],
 'the source table read independently by the check; monitor of every lookup and of sorted lists', EXPL, observe=['fields', 'inverse', 'sorted', 'text', 'loaded'])

prop('C33', 'An anchor of a note matches exactly if it names the verse of the note',
 'BibleAnchorReference reads an anchor of a note or cross-reference (chapter:verse or chapter.verse, lists of verses, a bridge of verses in one chapter, verse parts such as 5b, the verse alone in single-chapter books) as exactly the verses it names. matchesAnchorString is True if the anchor names the chapter and verse where the note is, or if it is a bridge which starts or ends at that verse, also with a trailing colon or note letter, and if it names the last verse of a note in a verse bridge; it is False if it names another chapter, or only other verses (and no bridge around that verse).',
 ['inputs'], 'all books, chapters to 150 and verses to 176, all shapes of anchors',
 'The parser is a hand-written state machine; no test of it runs.',
 [BR], [('anchors', BR + ' BibleAnchorReference parseAnchorString, matchesAnchorString')],
 'anchors written by a generator which knows the verses meant; monitor of parsed references and of matches', EXPL + 'The inside of a bridge and ranges over chapter ends are not decided.', observe=['match', 'differ', 'parsed', 'single'])

BVS = 'BibleOrgSys/Reference/BibleVersificationSystems.py'
prop('C42', 'A versification system has exactly the verses of its source table',
 'For every versification system the books, chapters, numbers of verses and omitted verses are those of its XML source, and isValidBCVRef is true of a reference exactly if its chapter and verse exist there and are not omitted (with extended=True also chapter 0, and verse 0). expandCVRange gives every verse from the first to the last in order, once, over ends of chapters and (given a book order) of books, without omitted verses, and gives None for a range which is reversed or whose ends do not exist. Matching a set of chapters and verses against the systems counts as exact matches exactly those systems which agree with it.',
 ['inputs'], 'all systems, books and chapters; random references and ranges',
 'Tests check a few references of a few systems.',
 [BVS, 'BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py'], [('systems', BVS + ' BibleVersificationSystems, BibleVersificationSystem'), ('tables', 'BibleOrgSys/DataFiles/VersificationSystems')],
 'the XML sources read independently by the check; monitor of every lookup, validity and expanded range', EXPL + 'Ranges over books whose source lacks chapters are left out.', observe=['book', 'chapter', 'reference', 'range', 'range-books', 'omitted', 'refused-range', 'match'])

BOS = 'BibleOrgSys/Reference/BibleOrganisationalSystems.py'
prop('C43', 'Absolute verse numbers count the verses of a system one by one and back',
 'In every organisational system getAbsoluteVerseNumber numbers the verses of its books, in the order of its books, 1, 2, 3 … without gap or repetition (31102 for the KJV), and convertAbsoluteVerseNumber turns every number back to the same verse. Both give None for verses which do not exist and numbers outside the range. This does not depend on which other systems have been asked before.',
 ['inputs', 'histories'], 'all verses of all systems with different books and versifications, asked in any order',
 'Tests check a few verses of one system.',
 [BOS, BVS], [('numbers', BOS + ' getAbsoluteVerseNumber, convertAbsoluteVerseNumber')],
 'verses counted by the check from the XML sources; monitor of number and back for each verse, systems asked in turn', EXPL, observe=['number', 'back', 'systems', 'missing', 'alternated'])

BBO = 'BibleOrgSys/Reference/BibleBookOrders.py'
prop('C44', 'A book order puts its books in the order of its source, seen from any side',
 'For every book order the list, positions, book at a position, next and previous book (None at the ends), membership and number of books agree with the XML source and with each other. correctlyOrdered is true of two of its books exactly if the first stands before the second. A list of books matches exactly those orders of which it is a subsequence in the same order.',
 ['inputs'], 'all orders, all books, all pairs of books; random lists of books',
 'Tests check a few books of a few orders.',
 [BBO, 'BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py'], [('orders', BBO), ('tables', 'BibleOrgSys/DataFiles/BookOrders')],
 'the XML sources read independently by the check; exhaustive monitor of positions, neighbours and pairs', EXPL, observe=['book', 'pair', 'absent', 'match'])

prop('C45', 'An organisational system answers with its own or rightly inherited values',
 'Every organisational system is found by its full name, its combined name, or its abbreviation; each value is that of BibleOrganisationalSystems.xml, or, if it has none, that of the text it uses or is derived from. Its book list, next and previous book, containsBook and alternative books follow its book order restricted to the books it includes; isValidBCVRef follows its versification and books, and getPunctuationValue its punctuation system. This holds in whatever order the systems are made.',
 ['inputs', 'histories'], 'all systems, values, books; all pairs of book and alternatives; random references',
 'Tests check a few values of a few systems.',
 [BOS, 'BibleOrgSys/Reference/BiblePunctuationSystems.py'], [('systems', BOS), ('punctuation', 'BibleOrgSys/Reference/BiblePunctuationSystems.py'), ('tables', 'BibleOrgSys/DataFiles/BibleOrganisationalSystems.xml')],
 'the XML sources read independently by the check; monitor of every value, neighbour, alternative and reference', EXPL, observe=['value', 'inherited', 'system', 'neighbour', 'reference', 'alternative', 'punctuation'])

BBN = 'BibleOrgSys/Reference/BibleBooksNames.py'
prop('C41', 'A book name or unambiguous short form gives its book, an ambiguous one none',
 'For every book names system and list of books, each name and abbreviation in the XML source (in any letter case, and not shared by two listed books) gives its book; so does each shorter form: the beginning of a name, with inner spaces left out, and with a leader like "1" or "Saint" exchanged for its alternatives, if it fits only one listed book. Forms which fit several listed books are not taken for one of them by the names system (only the book codes are asked). Default names and abbreviations, division names and lists of books are those of the source (BBB for books without a name), no two books have the same default name, a whole name is found over all systems, and systems do not influence each other.',
 ['inputs', 'histories'], 'all names systems, the whole and random lists of books, all names and all their short forms',
 'There are about 10000 short forms for one list of books; tests look at a few.',
 [BBN, 'BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py', 'BibleOrgSys/DataFiles/BookNames'], [('short forms', BBN + ' expandBibleNamesInputs'), ('systems', BBN + ' BibleBooksNamesSystems, BibleBooksNamesSystem')],
 'the XML sources read and the short forms counted independently by the check; monitor of every lookup', EXPL + 'Short forms which fit both a book and a division, or come from names shared by two books, are not decided.', observe=['name', 'short', 'ambiguous', 'foreign', 'division', 'any-system', 'no-name', 'organisational'])

UM = 'BibleOrgSys/Reference/USFM3Markers.py'
prop('C46', 'USFM marker tables answer as their source, and a text gives exactly its markers',
 'For the USFM 2 and USFM 3 tables every question about a marker (newline, internal, note, deprecated, compulsory, numberable, nesting, printed, closure, content, raw and standard form, place, name, description) and every list of markers agrees with the XML source, also for numbered markers, and strings which are not markers are refused. For a text of newline markers, character markers (nested with +), notes and text, getMarkerListFromText gives exactly its markers in order with their positions, kind, text, context of open markers and the index of the entry which closes them; markers and text fields put together give the text.',
 ['inputs'], 'all markers of both tables and strings near to them; random texts with markers nested up to three deep',
 'Tests ask about a few markers; the splitting of texts has no test of contexts or closing.',
 [UM, 'BibleOrgSys/Reference/USFM2Markers.py', 'BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py', 'BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py'], [('markers', UM + ' USFM3Markers'), ('texts', UM + ' getMarkerListFromText')],
 'the XML sources read independently; texts written by a generator which knows the markers, contexts and closings', EXPL + 'The same marker opened again while it is open is not decided.', observe=['marker', 'not-marker', 'list', 'text', 'closed', 'context'])

prop('C47', 'Reference tables are the same from XML, pickle, JSON or exported Python',
 'Versification systems, book orders, punctuation systems, book names, organisational systems, USFM markers, ISO 639-3 languages and book codes say exactly the same whether loaded from their XML sources, a pickle or (where it is supported) a JSON file written by their converter, or the tables in the repository (the four kinds with a folder of sources). A pickle or JSON file older than its XML source is not used, a newer pickle is. Exported Python files run, and the tables in them are those of the source.',
 ['inputs', 'faults'], 'all tables; present, missing, older and newer derived files',
 'Which file is loaded depends on what files exist and their times; tests load one of them.',
 ['BibleOrgSys/Reference/Converters', 'BibleOrgSys/Reference'], [('loading', 'BibleOrgSys/Reference/*.py loadData'), ('exports', 'BibleOrgSys/Reference/Converters/*.py importDataToPython, pickle, exportDataToJSON, exportDataToPython')],
 'everything the loaded objects say compared over ways of loading, marked pickles with set times, exported files executed and compared with the sources read by the check', EXPL + 'C exports, and Python exports of book codes and names, are not finished in the repository and left out.', observe=['xml', 'pickle', 'json', 'standard', 'python', 'old-pickle', 'new-pickle', 'written'])

prop('C48', 'ISO 639-3 languages answer as their source and are found by any part of a name',
 'For every code of the ISO 639-3 table, validity, name, scope, type and part 1 and part 2 codes are those of the XML source; every name in any letter case gives its code, and getNameMatches gives exactly the names which contain the text in any letter case. Codes and names which do not exist are not found.',
 ['inputs'], 'all 7874 codes and names; random parts of names; random missing ones',
 'Tests check a few codes.',
 ['BibleOrgSys/Reference/ISO_639_3_Languages.py', 'BibleOrgSys/Reference/Converters/ISO_639_3_LanguagesConverter.py'], [('languages', 'BibleOrgSys/Reference/ISO_639_3_Languages.py')],
 'the XML source read independently; exhaustive monitor of lookups', EXPL, observe=['code', 'name', 'part', 'missing'])

UB = 'BibleOrgSys/UnknownBible.py'

prop('C28', 'A folder of a Bible is recognised as its format and left as it was',
 'UnknownBible.search of a folder with a Bible in USFM 2 or 3, ESFM, USX, USFX, OSIS, Zefania, Haggai, OpenSong, VerseView, theWord, MySword, e-Sword, MyBible, CSV, VPL, Forge, Unbound, Drupal, YET, EasyWorship or pickled form (also one folder down, or beside files which are no Bible) gives the name of that format, with autoLoad or autoLoadAlways a Bible object of its class, and with autoLoadBooks its books. Two Bibles of one format in two folders are reported as two of it, of different formats as many types, and a folder without a Bible as none. Searching and loading change nothing in the folder.',
 ['inputs'], 'all well-formed Bibles in 26 styles of 22 formats, all arrangements of folders and other files',
 'Each of some 30 detectors looks at all files of all others; tests run none of them.',
 [UB, FM], [('search', UB + ' UnknownBible.search'), ('detectors', FM + '*.py …BibleFileCheck')],
 'Bibles written by independent writers or the exporters among decoy files; monitor of the answer and of all files before and after', EXPL, observe=['type', 'object', 'loaded', 'two', 'many', 'unchanged', 'folder-of-no-bible'])

prop('C29', 'All USFM and USX book files of a folder, and no others, are found as books',
 'USFMFilenames finds every USFM file of a folder under the book of its id line, whether it is named in Paratext style (with digits, book code and language in either order), Bibledit or OEB style, by the book code, or in no way like its book, in any mixture with files of other kinds, backups and files with or without byte order mark; USXFilenames finds files named 040MAT.usx, 41-MAT.usx, MAT.usx and mat.usx. The files are listed in book order, the others as unused, and exactly these books are then available and loaded by USFMBible and USXXMLBible with the text of their own file. A strict check leaves out exactly the files whose id line names a different book.',
 ['inputs'], 'all books, sets of books, thirteen styles of USFM and five of USX names, beside any other files',
 'The name pattern is guessed from the first fitting file of the folder; tests find no files.',
 ['BibleOrgSys/InputOutput/USFMFilenames.py', 'BibleOrgSys/InputOutput/USXFilenames.py', FM + 'USFMBible.py', FM + 'USXXMLBible.py'], [('USFM', 'BibleOrgSys/InputOutput/USFMFilenames.py'), ('USX', 'BibleOrgSys/InputOutput/USXFilenames.py')],
 'folders written file by file with the book known; monitor of found, unused, available and loaded books and of a word of each', EXPL, observe=['usfm', 'usx', 'pattern', 'wrong-id', 'loaded'])

prop('C34', 'A loaded theWord, MySword, e-Sword or MyBible module has all its verses',
 'Loading a theWord (UTF-8 with or without byte order mark, Latin-1), MySword, e-Sword or MyBible module, directly or by UnknownBible, gives exactly the books of the module and every verse of them which has text, once, in order, with its text, whatever added words, words of Jesus, italics, notes and paragraphs it has; getVerseText answers the same. Where the module gives its name, version or description, the Bible has them. This holds for modules which lack verses or chapters too, and books can be loaded one by one with the same result.',
 ['inputs', 'histories'], 'all well-formed modules of 1 to 66 books in these formats',
 'Tests load no module.',
 [FM + 'theWordBible.py', FM + 'MySwordBible.py', FM + 'ESwordBible.py', FM + 'MyBibleBible.py'], [('loaders', FM + 'theWordBible.py, MySwordBible.py, ESwordBible.py, MyBibleBible.py'), ('theWord markup', FM + 'theWordBible.py handleLine')],
 'modules written by independent writers from verse-level models; monitor of every verse of the loaded books', EXPL, observe=['theword', 'mysword', 'esword', 'mybible', 'one-book', 'information', 'gaps'])

prop('C36', 'A loaded Zefania, Haggai, OpenSong or VerseView Bible has all verses of its file',
 'Loading a Zefania, Haggai, OpenSong or VerseView XML file, directly or by UnknownBible, gives exactly the books of the file, and exactly its verses, once, in order, each with its whole text, whatever styles, notes, line breaks and paragraphs are in it, and with or without indentation. getVerseText answers the same.',
 ['inputs'], 'all well-formed files of 1 to 66 books in these formats',
 'Tests load no such file.',
 [FM + 'ZefaniaXMLBible.py', FM + 'HaggaiXMLBible.py', FM + 'OpenSongXMLBible.py', FM + 'VerseViewXMLBible.py'], [('loaders', FM + '*XMLBible.py load')],
 'files written by independent writers from verse-level models; monitor of every verse of the loaded books', EXPL + 'VerseView files start with Genesis and leave out no book in between, as their books are counted.', observe=['zefania', 'haggai', 'opensong', 'verseview', 'asked'])

prop('C37', 'A loaded CSV, VPL, Forge, Unbound, Drupal or YET file has all its verses',
 'Loading a CSV (quoted, bare or with bars), VPL (three kinds), Forge for SwordSearcher, Unbound, Drupal or YET file, directly or by UnknownBible, gives exactly the books of the file, and exactly its verses, once, in order, each with its text without markup of added words, words of Jesus and paragraphs. Footnotes (and cross-references in Forge files) are kept at their verse. getVerseText answers the same.',
 ['inputs'], 'all well-formed files of 1 to 66 books in twelve styles of these formats',
 'Tests load no such file.',
 [FM + 'CSVBible.py', FM + 'VPLBible.py', FM + 'ForgeForSwordSearcherBible.py', FM + 'UnboundBible.py', FM + 'DrupalBible.py', FM + 'YETBible.py'], [('loaders', FM + '*Bible.py load')],
 'files written by independent writers from verse-level models; monitor of every verse and note of the loaded books', EXPL, observe=['csv-quoted', 'vpl-names', 'forge', 'unbound-9', 'drupal', 'yet', 'note'])

prop('C35', 'A loaded OSIS or USFX Bible has all verses and notes of its file',
 'Loading an OSIS XML file (verse milestones in paragraphs or poetry lines, verse containers in chapter containers, or verse milestones in chapter containers) or a USFX file, directly or by UnknownBible, or a folder with one OSIS file per book, gives exactly the books of the file, and exactly its verses, once, in order, each with its whole text and the spaces as in the file around and inside transChange, divineName, hi, name, q, w and lb (OSIS) or add, nd, wj, it, bd and w (USFX) elements. Each footnote and cross-reference is kept at its verse with its whole text, once, also with other styles inside a USFX footnote.',
 ['inputs'], 'all well-formed OSIS and USFX files with these elements (whitespace just before an inline element being spaces, not newlines)',
 'Tests load no such file.',
 [FM + 'OSISXMLBible.py', FM + 'USFXXMLBible.py'], [('loaders', FM + 'OSISXMLBible.py and USFXXMLBible.py load')],
 'files written by independent writers from verse-level models; monitor of every verse and note of the loaded books', EXPL, observe=['usfx', 'osis-milestones', 'osis-containers', 'osis-chapters', 'osis-folder', 'asked', 'note'])

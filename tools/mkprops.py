"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)


p('C01', 'Simulated typing accounts for every character of the text, in order',
  'Typing any character stream on any layout yields events whose typed strings and skipped characters, concatenated in order, are exactly the stream: nothing is lost, duplicated, reordered or made up, wherever the reads of the stream happen to be cut. Typing ends at the end of the stream and nowhere else.',
  ['inputs', 'histories'], 'every text, every layout, every way the reader splits the text into chunks',
  'tests type a handful of short strings from in-memory buffers that always return everything asked for',
  ['lulua/writer.py'], [('buffer refill, match, cut', 'Writer.type'), ('unknown characters', 'SkipEvent')], ['Writer.type'])

p('C02', 'Text is matched by the longest string the layout can type',
  'At every position the typed string is the longest of the layout\'s strings that the remaining text starts with, however long that string is, and the reported combination is one the layout offers for it. A character is skipped exactly when no string of the layout starts there.',
  ['inputs', 'configurations'], 'every text and every layout, with strings of any length on any layer',
  'tests use layouts whose strings are one or two characters long and a few inputs',
  ['lulua/writer.py', 'lulua/layout.py'], [('longest-prefix lookup', 'KeyboardLayout.__call__'), ('look-ahead size', 'KeyboardLayout.__init__ bufferLen'), ('lookup on the look-ahead', 'Writer.type')], ['Writer.type', 'KeyboardLayout.__call__'])

p('C03', 'The typist picks the best of the offered combinations',
  'Of the combinations a layout offers for a string the typist uses one of them: the one with the fewest keys, among those the one splitting its keys most evenly between the hands, then the one balancing best against the combination typed just before, the earliest on ties. The combination remembered as previous is always the last one that was typed.',
  ['inputs', 'histories'], 'every list of alternatives and every preceding combination',
  'tests try a few hand-picked keys on one layout',
  ['lulua/writer.py'], [('scoring', 'Writer.chooseCombination'), ('memory of the last combination', 'Writer.press')], ['Writer.chooseCombination', 'Writer.type'])

p('C04', 'A layout bound to a keyboard keeps every string, key and layer',
  'Binding a layout to a keyboard loses nothing: for every layer, every alternative modifier set of it and every key carrying text, looking up the text offers that combination, and looking up the combination returns that text and that layer; nothing else is offered.',
  ['configurations'], 'every layout description and every keyboard',
  'tests check single entries of shipped layouts',
  ['lulua/layout.py'], [('lookup tables', 'KeyboardLayout.__init__'), ('binding', 'GenericLayout.specialize'), ('reverse lookup', 'KeyboardLayout.getText, modifierToLayer, isModifier, getButtonText')], ['KeyboardLayout'])

p('C05', 'Merging statistics adds up every count and loses none',
  'Merging one set of statistics into another gives, for every quantity every collector counts, the sum of both sides, keeping entries that only one side has, and leaves the merged-in side unchanged. Combining a stream of stored results merges every collector of every record, however many there are.',
  ['inputs', 'histories'], 'every pair of collected statistics, every number and order of stored records',
  'tests merge a few small collections and compare them with the equality under test',
  ['lulua/stats.py'], [('recursive merge', 'updateDictOp'), ('per-collector merge', '*Stats.update'), ('record loop', 'combine, unpickleAll')], ['Stats.update', 'lulua-analyze combine'])

p('C06', 'Every keystroke, combination and skipped character is counted once',
  'For every event of a text the basic statistics grow by exactly one for the typed combination and by exactly one for each key it consists of (modifiers included), or by exactly one for the skipped character, and by nothing else. Anything that is not such an event is rejected.',
  ['histories'], 'every sequence of events',
  'tests feed a few events',
  ['lulua/stats.py', 'lulua/layout.py'], [('counting', 'SimpleStats.process'), ('keys of a combination', 'ButtonCombination.__iter__, __len__')], ['SimpleStats.process'])

p('C07', 'Run lengths are credited to the hand and finger that typed the run',
  'When consecutive typed keys change hand (or finger), exactly one run is recorded: for the hand (or finger) that just ended, with the exact number of keys it typed in a row. A skipped character discards the run in progress, so that no run extends across it.',
  ['histories'], 'every sequence of typed and skipped characters',
  'tests compare merged hand totals only and never look at finger runs',
  ['lulua/stats.py'], [('state machine', 'RunlenStats.process')], ['RunlenStats.process'])

p('C08', 'Triads are exactly the windows of three typed keys, reset by skips',
  'Every window of three consecutive typed combinations that are not whitespace keys (space, return, tab) or backspace is counted exactly once, in typing order and overlapping by two; those keys do not interrupt a window, a skipped character does. Nothing else is counted as a triad.',
  ['histories'], 'every sequence of typed and skipped characters',
  'tests only check that processing does not crash and that merged results are equal',
  ['lulua/stats.py'], [('sliding window', 'TriadStats.process')], ['TriadStats.process'])

p('C09', 'Words are exactly the delimited runs of letters and marks',
  'Every maximal run of letters (Unicode category Lo) and non-spacing marks (Mn) that is followed by another typed character is counted exactly once as a word, with its characters in order; a skipped character discards the run in progress. A delimiter never ends an empty word, and a run is never counted twice.',
  ['histories'], 'every sequence of typed and skipped characters',
  'tests count words in one short text',
  ['lulua/stats.py'], [('word state machine', 'WordStats.process')], ['WordStats.process'])

p('C10', 'Every text extracted from the corpus is typed and counted exactly once',
  'Every text the selected filters extract from every corpus item is normalised, typed by a fresh typist into fresh collectors of every kind, all its events reach each of them, and each is merged exactly once into the result of the worker; no state is carried from one text to the next. Filters are chained in the order given, each applied to all outputs of the one before.',
  ['inputs', 'histories'], 'every sequence of corpus items, every number of texts per item, every chain of filters',
  'the worker is never run by the tests',
  ['lulua/text.py'], [('per-text loop', 'writeWorker'), ('filter chain', 'apply'), ('collector set', 'stats.allStats, makeCombined')], ['lulua-write'])

p('C11', 'Each worker answers exactly once and errors are never lost',
  'On every path, failing ones included, a corpus worker sends exactly one answer: its merged result if it processed anything, otherwise an empty answer or the error that stopped it. The main process sends one end marker per worker, collects one answer per worker, stores every result exactly once and re-raises a worker\'s error.',
  ['schedules', 'fault_sequences', 'histories'], 'every sequence of items and every point at which a filter or collector fails',
  'no test starts workers or makes one fail',
  ['lulua/text.py'], [('answer on all paths', 'writeWorker'), ('collection loop', 'write')], ['lulua-write'])

p('C12', 'The optimizer only ever permutes the keys it was given',
  'Whatever sequence of steps the optimizer takes, randomised or not, the assignment it works on stays a one-to-one mapping of the initial positions onto themselves: each step exchanges two different positions and touches nothing else. The initial assignment is the identity on all letter keys that are not modifiers, on all layers.',
  ['histories', 'schedules'], 'every sequence of random choices and every layout',
  'tests run the generic annealer on a toy state, never the layout optimizer',
  ['lulua/optimize.py'], [('swap', 'LayoutOptimizer.mutate'), ('initial assignment', 'optimize')], ['lulua-optimize'])

p('C13', 'Pinned keys and layers never move',
  'No optimizer step, randomisation included, changes what is assigned to a pinned key, and a step never brings an assignment from another layer onto a pinned layer. Every pin pattern the user gives pins all keys matching it on that layer.',
  ['histories', 'configurations'], 'every set of pins and every sequence of random choices',
  'tests do not pin anything',
  ['lulua/optimize.py'], [('acceptance test', 'LayoutOptimizer._acceptMutation'), ('step', 'LayoutOptimizer.mutate'), ('expansion', 'parsePin, optimize')], ['lulua-optimize'])

p('C14', 'Incremental effort updates equal recomputing from scratch',
  'A step of the optimizer withdraws exactly the triads that use one of the two exchanged positions, as typed before the exchange, and adds the same triads with the same weights as typed after it, so the running effort stays that of all triads under the current assignment. The change in effort it reports is the effort after minus the effort before the step.',
  ['histories'], 'every triad set, every assignment and every sequence of steps',
  'tests never compare incremental and full evaluation',
  ['lulua/optimize.py'], [('affected triads', 'LayoutOptimizer.__init__ stateToTriad'), ('update', 'LayoutOptimizer.mutate'), ('full evaluation', 'LayoutOptimizer._resetEnergy'), ('mapping of a combination', 'mapButton')], ['LayoutOptimizer.mutate'])

p('C15', 'Annealing returns the best state seen and undoes rejected steps',
  'The annealer returns a private copy of the accepted state with the lowest energy it has reached together with that energy, the initial state included. A rejected step restores state and energy to what they were before it; improvements are never rejected; states handed out or kept are never changed by later steps.',
  ['histories'], 'every step count and every sequence of energy changes',
  'tests run one toy problem and check that it improves',
  ['lulua/optimize.py', 'lulua/carpalx.py'], [('acceptance and snapshots', 'Annealer.run'), ('independent copies', 'LayoutOptimizerState.copy, Carpalx.copy')], ['Annealer.run'])

p('C16', 'The optimized layout written is the best one found and loses no text',
  'The layout written after optimization has every string of every layer of the source layout exactly once, at the position the best assignment found gives it (keys outside the assignment stay put), with all modifiers of every layer. The energy reported with it is the energy of that layout.',
  ['histories', 'configurations'], 'every layout and every outcome of the optimization',
  'the command is not run by the tests',
  ['lulua/optimize.py'], [('output loop', 'optimize')], ['lulua-optimize'])

p('C17', 'The effort total is the weighted mean of the triads put in',
  'After any sequence of additions, removals, resets and copies the effort is the weighted mean of the efforts of the triads currently in, zero if their weight is zero; removing what was added undoes the addition. Caching never changes a result, and a copy and its origin do not influence each other.',
  ['histories'], 'every sequence of operations',
  'tests add a few triads and compare with constants',
  ['lulua/carpalx.py'], [('accounting', 'Carpalx.addTriad, removeTriad, addTriads, reset, effort, copy'), ('cache', 'Carpalx._triadEffort')], ['Carpalx.effort'])

p('C18', 'Stroke paths are classified by the published rules for every triad',
  'For every triad of keys the hand, row and finger categories are those of the carpalx rules: hand use alternating/one-handed/other, the eight row progressions and the eight finger progressions, with the documented precedence. Every possible triad gets a category; none is left unclassified.',
  ['inputs'], 'every combination of three hands, three rows and three fingers, with or without repeated keys',
  'tests classify a selection of triads',
  ['lulua/carpalx.py'], [('decision lists', 'Carpalx._strokePath, _strokePathHand, _strokePathRow, _strokePathFinger')], ['Carpalx._strokePath'])

p('C19', 'Triad effort follows the typing effort model for every triad',
  'The effort of a triad is the weighted sum of its base effort, its penalty effort and its cheapest stroke path; base and penalty efforts are the nested product over the three combinations in order, where each combination contributes the sum over all its keys plus a surcharge per additional key. A key\'s penalty is the weighted sum of a constant and its hand, row and finger penalties.',
  ['inputs', 'configurations'], 'every triad of combinations and every set of model parameters',
  'tests evaluate a few triads with one model',
  ['lulua/carpalx.py'], [('formula', 'Carpalx._triadEffort, _baseEffort, _penalty, madd')], ['Carpalx.addTriad'])

p('C20', 'Every key that can be typed has a finger, a row and an effort',
  'Each key of the shipped keyboard has exactly one hand and finger, and its hand is the one of the keyboard half it lies on; from the outer edge towards the middle of a letter row the fingers go from little finger to index finger without going back. Every key that a shipped layout can contribute to a triad has an effort in every model, every model has penalties for all hands, rows and fingers.',
  ['configurations', 'inputs'], 'every key of the keyboard, every layout, every model',
  'tests type single strings and so look up a few of the keys',
  ['lulua/writer.py', 'lulua/carpalx.py', 'lulua/stats.py', 'lulua/data'], [('finger table', 'writer.defaultFingermap'), ('models', 'carpalx.models'), ('keys excluded from triads', 'TriadStats')], ['Writer.getHandFinger', 'Carpalx'])

p('C21', 'Shipped layouts are well-formed and can be typed',
  'Every shipped layout names only keys of the shipped keyboard, assigns non-empty strings, and gives every layer at least one modifier set, none shared by two layers. The layouts the tools and the documentation name exist, and a key that alone switches layers carries no text. A layout is named like its file, and its first layer needs no modifier.',
  ['configurations'], 'every layout file, layer and key',
  'tests only load the layouts',
  ['lulua/data/layouts', 'lulua/layout.py'], [('layout files', 'data/layouts/*.yaml'), ('loader', 'GenericLayout.deserialize')], ['lulua-render', 'lulua-write'])

p('C22', 'Physical key codes are complete and unambiguous on every platform',
  'On each platform no two physical keys of the shipped keyboard share a key code, except the two halves of the space bar and the generic modifier codes of Keyman. Every key that carries text in an exported layout has a code for that platform, the codes of one key denote the same physical key on all platforms, and key names are unique.',
  ['configurations'], 'every key, platform and layout',
  'tests check the parser, not the data',
  ['lulua/data/keyboards/ibmpc105.yaml', 'lulua/winkbd.py'], [('key codes', 'data/keyboards/ibmpc105.yaml')], ['lulua-render'])

p('C23', 'Generated Windows drivers switch layers as the layout says',
  'In a generated Windows driver, holding any modifier of a layer of the exported layout selects that layer\'s column of characters, and combinations of modifiers without a layer select nothing. Every key carrying text is listed with its characters in layer order under the virtual key its scancode produces.',
  ['configurations'], 'every modifier, layer and key of the layout, every modifier bit pattern',
  'no test generates a driver',
  ['lulua/winkbd.py', 'lulua/render.py'], [('modifier bits', 'winkbd.vkToBitsTable, charModifiers'), ('character table', 'renderWinKbd, vkToWchar'), ('scancode map', 'renderWinKbd')], ['lulua-render winkbd'])

p('C24', 'Generated driver tables are terminated, sized and consistent',
  'Every table of a generated Windows driver that the system scans for an end marker has one, declared counts match the number of entries, every symbol used is defined, and every scancode is mapped to the virtual key given for it. The standard scancodes and virtual keys have their published values.',
  ['inputs', 'configurations'], 'every scancode map and character map passed to the generator',
  'no test generates a driver',
  ['lulua/winkbd.py'], [('table writers', 'scancodeToVkTables, scancodeToName, vkToBits, charModifiers, vkToWchar, makeDriverSources')], ['lulua-render winkbd'])

p('C25', 'Exported layouts contain every key and layer under its own code',
  'Each export format writes, for every layer it supports and every key with text, that text under the key\'s code for that platform and under that layer\'s modifiers, and writes nothing for other keys. Output attributes prepared for a key or row are the ones written, and the output is well-formed for its format. Layouts of single characters whose layers are switched by single keys are accepted.',
  ['configurations'], 'every layout, layer, key and export format',
  'no test runs an exporter',
  ['lulua/render.py'], [('writers', 'renderXmodmap, renderKeyman, renderAsk, renderKeylayout, renderKlavaro, renderSvg')], ['lulua-render'])

p('C26', 'Keys and combinations are identified by name, also across processes',
  'Two keys are equal exactly if they have the same name, equal keys and equal combinations have equal hashes, and combinations are equal exactly if their modifiers and keys are. This survives storing statistics in one process and loading them in another, whatever keys either has seen before. A keyboard finds each of its keys by name, lists each once and knows its row.',
  ['histories', 'configurations'], 'every pair of keys or combinations, every order in which processes create keys',
  'tests compare keys created in one process',
  ['lulua/keyboard.py', 'lulua/layout.py'], [('interned names', 'Button.__init__, __eq__, __hash__, name'), ('combinations', 'ButtonCombination.__eq__, __hash__, __getstate__, __setstate__')], ['pickled statistics'])

p('C27', 'Saving and loading keyboards and layouts is lossless and side-effect free',
  'Loading what was saved gives an equal keyboard, key or layout with every field preserved, and loading or saving changes neither the object nor the data it was given. Copies of a layout are equal to it and independent of it; layouts are equal exactly if all their layers are.',
  ['inputs', 'histories'], 'every keyboard, key kind and layout',
  'tests round-trip one object each and never look at it again',
  ['lulua/keyboard.py', 'lulua/layout.py'], [('keys', 'Button.serialize, deserialize and subclasses'), ('keyboards', 'PhysicalKeyboard.serialize, deserialize'), ('layouts', 'GenericLayout.serialize, deserialize, KeyboardLayout.copy')], ['Button.serialize', 'GenericLayout.serialize'])

p('C28', 'Command line options take effect and documented commands exist',
  'Every option a command accepts influences what it does: in particular the keyboard and layout the user selects are the ones used throughout. Options that stand for numbers reach the program as numbers, and switches are off unless given. The optimizer runs the number of steps, on the number of triads, with the pinned keys, the effort model and the starting point (randomized or not) asked for, and the triad table is cut off, limited, sorted and reversed as asked. Every command line in the documentation and build scripts is accepted by the command it invokes, with the values given there; every command can show its help; every installed command exists, and the layouts, keyboards and resource files the commands name are part of the package.',
  ['configurations'], 'every subcommand and option, every documented command line',
  'tests call functions directly and never go through the command line',
  ['lulua/stats.py', 'lulua/render.py', 'lulua/text.py', 'lulua/optimize.py', 'lulua/plot.py', 'lulua/report.py', 'setup.py', 'gen.sh', 'README.rst'], [('argument parsers', 'main, render, write, optimize, importFrom'), ('entry points', 'setup.py')], ['command line'])

p('C29', 'The report page only uses data that its inputs provide',
  'Everything the report page refers to (variables, filters, fields of layout and corpus statistics, names of layouts, downloads, pictures and plots) is provided whenever the documented pipeline produced the inputs, also when some hand or finger is unused or a corpus has no item count. Each figure shown is the one computed for the layout, hand, finger or corpus it stands with: shares of hands and fingers, asymmetry, words and characters per corpus and their totals over all corpora given. Large numbers are shown rounded to one decimal with the unit that keeps them below 1000 (up to billions), in the language of the text, with Arabic-Indic digits in Arabic text. Files named after a layout are built from the statistics of that layout.',
  ['inputs', 'configurations'], 'every statistics file the tools can produce',
  'the page is never rendered by the tests',
  ['lulua/report.py', 'lulua/stats.py', 'lulua/data/report/index.html', 'gen.sh'], [('page context', 'report.render'), ('number formats', 'report.approx, arabnum, numspace, fraction'), ('layout statistics', 'stats.layoutstats, corpusStats'), ('template', 'data/report/index.html'), ('build targets', 'gen.sh')], ['lulua-report'])

p('C30', 'Stream readers deliver everything and stop at the end of the stream',
  'The corpus readers hand on every byte or character of the stream exactly once and in order, whatever the chunk sizes, and stop when the stream ends, also when it is cut short. The archive reader delivers exactly the bytes of every member and resumes at the next block boundary.',
  ['inputs', 'fault_sequences'], 'every stream, including truncated ones, and every read size',
  'tests read a few small intact streams',
  ['lulua/text.py', 'lulua/stats.py'], [('readers', 'iterchar, BrotliFile.read, filterTar, unpickleAll')], ['lulua-write filters'])

p('C31', 'Character normalisation is per-character, complete and stable',
  'Normalisation replaces each character that has a replacement and keeps every other character, in order and independent of its neighbours; normalising a normalised text changes nothing. Replacements are fully decomposed, and can be typed on the shipped layout they are made for. Replaced are at least: Arabic letters that decompose canonically into typeable ones (hamza, madda), the isolated lam-alef ligatures (plain, hamza above or below), ASCII digits and ASCII punctuation with an Arabic counterpart, and the no-break space; each by its decomposition or Arabic counterpart.',
  ['inputs'], 'every text',
  'tests normalise a few characters',
  ['lulua/text.py'], [('table', 'charMap'), ('application', 'mapChars')], ['mapChars'])

p('C32', 'Document filters extract all text of the selected parts and no markup',
  'The document filters return all character data of the elements they select, in document order, and none from scripts, styles, markup or outside the selection, regardless of how elements nest (HTML, e-books), or all text directly inside the sentence elements of the text (XML corpora; CDATA is text). Paragraphs, blocks and sentences stay apart, inline elements do not split words. Items a filter cannot read are reported, not silently replaced; the plain filters deliver items as they are.',
  ['inputs'], 'every document tree',
  'tests extract from one or two hand-written documents',
  ['lulua/text.py'], [('selection', 'Select.__iter__'), ('serialisation', 'HTMLSerializer.serialize'), ('XML', 'getText, filterTEI2, filterOpenSubtitles')], ['lulua-write filters'])

p('C33', 'Reported statistics are derived from all stored counts',
  'The analysis commands derive their figures from every stored count: totals are the sums over all entries, per-hand and per-finger figures add up all keys of that hand or finger, heat maps list every pressed key with its count, and letter and triad tables accumulate all combinations that type the same text. Shares are relative to the matching total.',
  ['inputs'], 'every statistics file',
  'no test runs the analysis commands',
  ['lulua/stats.py', 'lulua/plot.py'], [('figures', 'layoutstats, keyHeatmap, corpusStats, pretty, latinImeDict, letterfreq, triadfreq, triadEffortData')], ['lulua-analyze'])

p('C34', 'Layout import maps every key of a project file to its own position',
  'Importing a Microsoft layout project (UTF-16, columns none, shift, ctrl, shift and ctrl, alt gr, shift and alt gr, virtual keys of a US keyboard) assigns every key position listed there to the physical key of the shipped keyboard at that position, and keeps each character, decomposed, on the layer of its column, whatever other cells are empty and whatever comments (// and ;) and sections surround the layout. The layers written are reached by the modifiers of their column, which are keys of the keyboard.',
  ['inputs', 'configurations'], 'every project file',
  'tests do not import projects',
  ['lulua/layout.py'], [('virtual key table and line parser', 'GenericLayout.fromKlc'), ('output', 'importKlc')], ['lulua-import klc'])

p('C35', 'Named layouts and keyboards are found in the documented order',
  'Looking up a layout or keyboard by name tries a file of that name first and then the shipped resources with and without extension, returns the first that exists (a file that is no YAML text counts as not existing), and reports an unknown name as such. Listing yields every shipped definition exactly once, and nothing else.',
  ['configurations'], 'every name and every set of files',
  'tests look up names that exist',
  ['lulua/util.py'], [('search', 'YamlLoader.__getitem__'), ('listing', 'YamlLoader.__iter__')], ['defaultLayouts', 'defaultKeyboards'])

p('C36', 'Keyboard drawings show every key once, in place, with its texts',
  'A drawing of a layout has one cap for every key, in its row and in order, as wide as the key, inside the drawing and not overlapping another; the text of each layer (up to four) is shown once, at the place and in the style of that layer, and invisible or combining texts by a visible substitute. Layer switches show the arrow of their layer; a key is coloured by its hand and finger and drawn as unused only if it has no text. Marked keys are marked, and heat highlights are proportional to the most pressed key.',
  ['configurations', 'inputs'], 'every layout, keyboard and heat map',
  'tests render shipped layouts without looking at the drawing',
  ['lulua/render.py'], [('drawing', 'Renderer.render, _addButton'), ('visible text', 'displayText, buttonKeyMap')], ['lulua-render svg'])

p('N01', 'Optimization finds layouts that are good to type',
  'For a realistic corpus the optimizer returns a layout whose effort is close to the optimum, and more steps never give a worse expected result.',
  ['histories', 'schedules'], 'every corpus, seed and step count',
  'a statistical statement about convergence; tests run one toy problem',
  ['lulua/optimize.py'], [('cooling schedule', 'Annealer.run')])

p('N02', 'Accumulated rounding never makes the running effort unreliable',
  'Over any number of optimizer steps the running effort deviates from the recomputed effort by less than the tolerance the final plausibility test uses.',
  ['histories'], 'every sequence of floating point additions and removals',
  'needs error bounds over unbounded sequences of floating point operations',
  ['lulua/optimize.py', 'lulua/carpalx.py'], [('running sums', 'Carpalx.addTriad, removeTriad')])

p('N03', 'Corpus processing always finishes, whichever worker dies when',
  'The corpus command ends, with a result or an error, under every schedule of its processes and wherever one of them is killed; it never hangs.',
  ['schedules', 'crash_points'], 'every interleaving and every crash of a worker',
  'depends on queue capacities, operating system scheduling and killed processes',
  ['lulua/text.py'], [('bounded queues', 'write, writeWorker')])

p('N04', 'Rendered keyboards look right',
  'In rendered keyboard images no key or label overlaps another, labels fit their keys, and right-to-left text is displayed correctly.',
  ['configurations'], 'every layout and style sheet',
  'a visual property of font metrics and renderers',
  ['lulua/render.py'], [('geometry', 'Renderer')])

if __name__ == '__main__':
    for x in P:
        print(json.dumps(x, ensure_ascii=False))

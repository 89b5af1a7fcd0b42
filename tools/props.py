NOTES = ("Every check rebuilds libginga from /repo's working tree with ASan/UBSan and runs the generators in /verif/src. "
         "No hooks in /repo are needed: the library's own classes are driven directly.")
NOT_APPLICABLE = []
LOCK_T = 'model-based testing: random NCL documents and random sequences of ticks, keys and actions run in lock step against a reference interpreter; every event state, property, time, focus and script message compared after every step; failures shrunk'
LOCK_N = 'Random search over documents of up to about ten objects and histories of up to about 25 steps; documents whose links loop for ever are discarded; the order of independent reactions is taken from the implementation (object sets are unordered).'
LOCK_O = ['Event states, object properties and times, Player focus and messages to scripts, read through Document/Formatter after every step']
PROPS = [
 dict(id='C01', title='Events follow the NCL event state machine',
  statement='An event sleeps, occurs or is paused; start takes it from sleeping or paused to occurring, pause from occurring to paused, resume from paused to occurring, stop and abort from occurring or paused to sleeping, and any other transition is refused and has no effect at all (no state, property, link or counted action); a paused media or switch that is started goes on from where it was (a context starts its ports again at the next tick). Attribution, selection and look-at events of medias are never paused, contexts take only presentation and attribution, switches only presentation. An action requested on an event reports how many events were changed directly or by links, and the state of every event after any sequence of actions is the one these rules give.',
  over=['histories','programs'], quant='all sequences of start/stop/pause/resume/abort over presentation, attribution, selection and look-at events of medias, contexts and switches of generated documents, mixed with ticks and keys',
  why='Unit tests try each transition of each type from a fresh state; the interplay of histories (pause, start again, abort while paused, with links reacting) is unbounded.',
  files=['lib/Event.cpp','lib/Media.cpp','lib/Context.cpp','lib/Switch.cpp','lib/Document.cpp'], mech=[('Event::transition and before/afterTransition of each object class','lib/Event.cpp'),('evalAction','lib/Document.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C02', title='A presentation starts, runs, ends by itself and can be presented again',
  statement='Starting a document starts its body, with the body ports started at the first tick, and the settings object; ticks and keys are accepted exactly while it is presented. The body ends at the first tick at which nothing in it but the settings object is awake, a body that sleeps is noticed at the next tick or key, and from then on the player is stopped and refuses ticks and keys; stopping it earlier works at any moment and stopping it twice is refused. Presenting the same document again on the same player behaves as the first time, whatever happened before.',
  over=['histories','programs'], quant='all generated documents and histories, with the end reached naturally, by actions or by stop, and a second session on the same player',
  why='Tests run a handful of fixed documents to their end, once.',
  files=['lib/Formatter.cpp','lib/Context.cpp','lib/Document.cpp'], mech=[('Formatter::start/stop/sendTick/sendKey, end-of-presentation flag','lib/Formatter.cpp'),('Context::sendTick','lib/Context.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C03', title='Contexts start their ports, contain their children and end with them',
  statement='A context started as such starts each of its presentation ports at its next tick; a child started while its context sleeps starts the context (and so on upwards) without starting its ports. Stop, abort, pause and resume of a context do the same to every child; no child is awake while its context sleeps; and a context none of whose children is awake stops at its next tick. A port that maps a port of an inner context denotes what that one denotes.',
  over=['programs','histories'], quant='all nestings of contexts (up to four levels) with ports to medias, anchors, properties, contexts and inner ports, under all histories of actions, ticks and links',
  why='Tests use one or two nested contexts and one history each.',
  files=['lib/Context.cpp','lib/Composition.cpp','lib/Media.cpp','lib/Switch.cpp'], mech=[('Context::beforeTransition/afterTransition, _awakeChildren, "fromport"','lib/Context.cpp')],
  state=[('awake children','how many children of a context are not sleeping','lib/Context.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C04', title='A link is triggered exactly when one of its conditions happens',
  statement='Whenever an action carries out a transition on its event, every link of an occurring context in scope (the one of the object, those that see it through ports, those that refer to it, and the object\'s own context for its own events) with a condition on that event and transition runs all its actions, in the order of its binds, before anything else goes on, once per transition; transitions that were refused, or that only come with another one (of the children or the parent of a context, the component of a switch, or the media and other anchors of an anchor that is started), trigger nothing. Links of sleeping or paused contexts are not triggered. Compound conditions trigger on any of their simple conditions, and links that share a connector act only on their own binds.',
  over=['programs','histories'], quant='all generated connectors (reserved and custom roles, several conditions and actions, several binds per role, compound nesting), links in every context, and histories of actions, ticks and keys',
  why='Each upstream test uses one link shape; order, multiplicity, scope and cascades of links need generated programs.',
  files=['lib/Document.cpp','lib/Context.cpp','lib/Parser.cpp'], mech=[('evalAction, evalActionInContext','lib/Document.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C05', title='Delayed actions are carried out at their time and only then',
  statement='An action of a link that has a delay (a constant, a parameter or the value a property has when the link is triggered) is carried out at the first tick at which the time of the link\'s context has advanced by at least the delay, in the order of the link among those due, and exactly once; actions without delay are carried out at once. The time of a context does not advance while it is paused, so neither do its pending actions, and they are forgotten when it stops or is aborted.',
  over=['programs','histories'], quant='all generated delays (fractions, H:M:S, references), tick lengths that hit, miss or jump over them, and pause/stop/restart of the context in between',
  why='Tests use one delay and regular ticks.',
  files=['lib/Object.cpp','lib/Document.cpp','lib/Context.cpp'], mech=[('addDelayedAction, Object::sendTick','lib/Object.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C06', title='Temporal anchors begin and end at their times within the media',
  statement='While a media occurs, each of its anchors with begin or end starts at the first tick at which the media has run for at least the begin (0 by default) and stops at the first at which it has run for the end, once per presentation; labelled anchors are not timed. Time does not pass for a paused media, its anchors are paused and resumed with it, and none is awake while it sleeps. Starting an anchor of a sleeping media starts the media at the begin of that anchor: anchors in progress at that point start too, those in the past are dropped, later ones keep their distance up to the end of the anchor, and the media then lasts until that end.',
  over=['programs','histories'], quant='all sets of up to three anchors per media (open, closed, overlapping, nested, labelled), tick lengths, and histories of actions on media and anchors',
  why='Tests use one anchor and ticks of fixed length.',
  files=['lib/Media.cpp','lib/Object.cpp'], mech=[('anchor scheduling and seek in beforeTransition/afterTransition','lib/Media.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C07', title='A media lasts its explicit duration and pausing freezes it',
  statement='A media with an explicit duration (property explicitDur, or else duration, own or from the descriptor; while it runs, the last one set) stops naturally at the first tick at which it has run for more than that; without one, only an action, its end of content or its parent stops it, and a change of the duration while it runs counts from its beginning. Time a media spends paused does not count, and starting or resuming it goes on from the frozen time. Each new presentation begins at time zero with the properties as last set.',
  over=['programs','histories'], quant='all durations and tick lengths, with pauses, restarts and changes of the duration at any point',
  why='Tests use one duration and no pause in between.',
  files=['lib/Media.cpp','lib/Player.cpp','lib/Object.cpp'], mech=[('Media::sendTick, Player::setDuration, Player::pause/resume','lib/Media.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C08', title='Attributions set the value a role, parameter or property reference denotes',
  statement='Starting an attribution sets the property to the action\'s value: a constant, or for "$" the value at that moment of the bind or link parameter of that name (bind parameters first), of the property bound to a role of that name, or of the property of the named object. The attribution event stops after the duration of the action, in the time of the object (at its next tick for no duration, at once if the object sleeps). The value is kept across presentations of the object, read by rules and tests at once, and given to the player when it runs (also at once, except for what can be animated over the duration).',
  over=['programs','histories'], quant='all chains of parameters and references in values and durations, over properties of medias, settings and contexts, from links and as direct actions',
  why='Tests set one constant each; parameter resolution has many shapes.',
  files=['lib/Document.cpp','lib/Parser.cpp','lib/Media.cpp','lib/MediaSettings.cpp','lib/Context.cpp','lib/Object.cpp'], mech=[('evalPropertyRef','lib/Document.cpp'),('resolveParameter','lib/Parser.cpp'),('afterTransition, attribution','lib/Media.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C09', title='Keys select exactly the objects that wait for them',
  statement='Pressing (releasing) a key starts (stops) exactly those selection events of medias that are not sleeping whose key is that key, and those without a key of the media that has the focus if the key is ENTER; the links on them are triggered then. The key of a selection may come from a parameter of the bind or link (one that nothing resolves is no key); several selections may wait for the same key. Key events are passed on to the focused script and to no other.',
  over=['programs','histories'], quant='all sets of selection conditions with and without keys, focus, and sequences of presses and releases interleaved with actions and ticks',
  why='Tests press one key in one document.',
  files=['lib/Media.cpp','lib/Formatter.cpp','lib/Parser.cpp'], mech=[('Media::sendKey','lib/Media.cpp'),('Formatter::sendKey','lib/Formatter.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C10', title='The focus starts at the lowest index and follows cursor keys and the settings',
  statement='At most one focus index is current; it is the value of the settings property service.currentFocus, which an attribution changes at once, and a media is focused exactly while it occurs and its focus index is the current one. Whenever a media with a focus index starts, the focus goes at the next tick of the settings to the smallest index among the occurring medias. A press of a cursor key while a media is focused moves the focus at the next tick to the index its moveUp, moveDown, moveLeft or moveRight property names, if any; links on the property see these changes.',
  over=['programs','histories'], quant='all assignments of focus indices and moves (missing, shared and dangling ones) and sequences of keys, ticks, starts, stops and attributions',
  why='Tests move the focus along one fixed path.',
  files=['lib/MediaSettings.cpp','lib/Media.cpp','lib/Player.cpp'], mech=[('scheduleFocusUpdate, updateCurrentFocus, getNextFocus','lib/MediaSettings.cpp'),('Player::isFocused','lib/Player.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C11', title='Conditions and rules are evaluated on the current values',
  statement='A link with assessment statements runs its actions only if they hold at that moment on the current property values and constants; a rule of a switch is evaluated when the switch starts. Comparators eq, ne, lt, lte, gt, gte compare as text; and, or, not and isNegated have their usual meaning at any nesting, as do composite rules. A link with a compound condition tests the statements beside and above the simple condition that happened, and a rule compares the property of the settings object with the value.',
  over=['programs','histories','inputs'], quant='all nested statements over property values and constants (numbers, words, empty), in links and rules, with values changing during the history',
  why='Tests evaluate a few fixed predicates.',
  files=['lib/Document.cpp','lib/Predicate.cpp','lib/Parser.cpp','lib/Switch.cpp'], mech=[('evalPredicate','lib/Document.cpp'),('solvePredicate, obtainPredicate','lib/Parser.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C12', title='A switch presents the first component whose rule holds',
  statement='Starting a switch starts its first bound component whose rule holds, the default component being tried last; if none holds or the component does not start, the switch does not start. While it is awake it has exactly that component selected, is paused, resumed, stopped and aborted with it in both directions, and ends when it ends; the next start selects anew. Starting a switch port chooses only among its mapped components and starts the mapped interface; the port event and the mapped event follow each other, and links on the port see the transitions of the mapped event.',
  over=['programs','histories'], quant='all switches over medias, contexts and switches with overlapping rules, defaults and ports (partial, empty), under all histories of actions and settings values',
  why='Tests cover single-level switches with one or two rules.',
  files=['lib/Switch.cpp','lib/Document.cpp'], mech=[('Switch::beforeTransition/afterTransition','lib/Switch.cpp'),('evalAction, switch ports','lib/Document.cpp')],
  state=[('selected component','the component chosen by the last start, none while the switch sleeps','lib/Switch.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C13', title='References to an object act on and observe that object',
  statement='An element that refers to a media or to the settings is that same object under another name: it has the same events, anchors and properties (those declared on the reference are added to it), actions through any of the names act on the one object, and links of the context of any name see its transitions as long as that context occurs, each link once per transition. The order of declaration of object and references does not matter.',
  over=['programs','histories'], quant='all placements of one or several references in any context, before or after the object, used by ports, links and parameters',
  why='Tests refer once, in one context.',
  files=['lib/Parser.cpp','lib/Document.cpp','lib/Object.cpp'], mech=[('referMap resolution','lib/Parser.cpp'),('aliases in evalAction','lib/Document.cpp')],
  observe=LOCK_O, technique=LOCK_T, note=LOCK_N),
 dict(id='C16', title='A parsed document denotes exactly what its text says',
  statement='For every valid document the parser yields exactly the objects, nesting, aliases, anchors (with times and labels), properties (own ones over those of the descriptor and its region and transitions), ports, switch rules and mappings, and links (conditions, statements and actions with parameters resolved) that the text declares, and nothing else. This holds for elements in any order the language allows, forward references, shared connectors and descriptors and nested regions.',
  over=['programs','inputs'], quant='all generated documents (up to 14 objects) in random element order, with regions, descriptors, transitions, rules, connectors and references',
  why='Tests parse fixed fragments and check a few fields each.',
  files=['lib/Parser.cpp'], mech=[('push*/pop* functions, popNcl','lib/Parser.cpp')],
  observe=['the Document built by Parser::parseFile, read through its public accessors'],
  technique='property-based testing: typed random documents, printed as XML and compiled to their denotation independently; the parsed document is compared with it exhaustively; failures shrunk',
  note='Random search; invalid documents are the subject of C14 and C15, imports of C17.'),
 dict(id='C20', title='Attribute notations denote the documented values and malformed ones are refused',
  statement='For every string, the parsers of booleans (any letter case), colours (CSS names, #rgb, #rrggbb, rgb(), rgba(); the empty string is transparent black), separated lists (items stripped, between min and max of them), Lua-like tables ({key=\'value\', ...}) and times (N, Ns or H:M:S, fractions allowed) yield exactly the value the notation denotes, and they refuse a malformed string. When they refuse, the caller\'s result is not touched (colours excepted), and the result pointer may be null. Numbers and percentages convert to the nearest integer of the given base clamped to the given range, and pixels to 0..255 with 100% being 255.',
  over=['inputs'], quant='all strings of the documented notations, and single-fault corruptions of them; all bases and ranges of a percentage',
  why='The unit tests compare a dozen literals; the notations have unbounded spellings (white space, case, fractions, list lengths, limits).',
  files=['lib/aux-ginga.cpp'], mech=[('try_parse_*, parse_percent, parse_pixel, xstrtodorpercent','lib/aux-ginga.cpp')],
  observe=['return values of try_parse_*/parse_* in lib/aux-ginga.h'],
  technique='property-based testing: structured generators print a known value in a random spelling, parse it back and compare; single-fault corruptions must be refused',
  note='Random search over the notations; colour spelling is limited to CSS forms; rounding of exact halves is not fixed.'),
 dict(id='C21', title='String utilities convert, strip, split and compare exactly',
  statement='Converting a numeral in any base to an integer type gives its exact value, saturated at the limits of the type when it does not fit (leading white space and trailing garbage are ignored), and the non-asserting conversions refuse text that does not start with a number without touching the result. Stripping removes exactly the leading and trailing white space; splitting undoes joining; prefix, suffix and case-insensitive comparison agree with their definitions; formatting into a string yields the full text whatever its length and returns that length. Two reals are equal up to epsilon exactly when their distance is at most |epsilon|.',
  over=['inputs'], quant='all numerals around every type limit in bases 2, 8, 10, 16 and 36; all ASCII strings',
  why='Unit tests use a few literals per function; overflow, truncation and separator corner cases need exploration.',
  files=['lib/aux-ginga.cpp'], mech=[('_xstrto*, xstrto*, xstrstrip, xstrsplit, xstrbuild, xstrassign, xstrhas*, xstrcasecmp, floateq','lib/aux-ginga.cpp')],
  observe=['return values of the functions of lib/aux-ginga.h'],
  technique='property-based testing against arithmetic in 128 bits and reference definitions, and split/join round trips',
  note='Random search; unsigned conversions are exercised with non-negative numerals only.'),
 dict(id='C22', title='Path and URI helpers compose, round-trip and read contents exactly',
  statement='Joining a base and a relative path gives exactly one separator between them, and basename and dirname take the result apart again; making a path absolute keeps absolute paths and prefixes the current directory to relative ones (also for the base "."). A string is taken for an URI exactly when it starts with a scheme of at least two characters; the URI made from a source keeps URIs, and otherwise is a file URI, escaped, whose path is the source made absolute against the base, and converting it back yields that path byte for byte. Reading the contents of an URI yields exactly the bytes of the file, and fails without touching the result for a missing file, a directory or a plain path.',
  over=['inputs'], quant='all paths (with characters that need escaping), bases and file contents (with null bytes, up to 100 kB)',
  why='The tests use fixed ASCII paths and small text files.',
  files=['lib/aux-ginga.cpp'], mech=[('xpath*, xurifromsrc, xpathfromuri, xurigetcontents','lib/aux-ginga.cpp')],
  observe=['return values of the functions of lib/aux-ginga.h'],
  technique='property-based testing: build/take-apart and path/URI/path round trips over generated paths, and write/read round trips over generated contents',
  note='Random search on this file system; segments ".", ".." and empty ones are not generated.'),
 dict(id='C29', title='User data attached to an object is kept and cleaned up exactly once',
  statement='After any history of setting and removing user data, reading a key returns the last value set and whether there is one. Each value set with a clean-up function has it called exactly once: when it is overwritten, when it is removed or when the holder is destroyed, and never while it is still attached. Setting returns whether the key was absent, and removing an absent key has no effect.',
  over=['histories'], quant='all sequences of set, overwrite, remove and get over several keys, with and without clean-up functions',
  why='The unit test performs one fixed sequence.',
  files=['lib/aux-ginga.cpp'], mech=[('UserData','lib/aux-ginga.cpp')], observe=['UserData::getData/setData and calls of the clean-up functions'],
  technique='model-based testing: random operation histories against a map with clean-up counts',
  note='Random search over histories of up to about 50 operations on four keys.'),
 dict(id='C14', title='Any text is parsed into a document or refused with a message',
  statement='For every text given as a document, from well-formed NCL to damaged, hostile or non-XML bytes, the parser neither crashes, hangs nor corrupts memory, and yields either a document or, instead of it, a message. An accepted document is well formed: unique ids, every object but the root inside one composition, every event of its own object, and links, ports, rules and switches that refer only to events and objects of that document; it can be described as text and destroyed. Parsing the same text again gives the same result.',
  over=['inputs','programs'], quant='all mutations (structure, attribute values, ids, nesting, numbers, references) of generated valid documents, and damage to the bytes of their text',
  why='Tests feed a few dozen malformed fragments; crashes and broken invariants hide in combinations of features.',
  files=['lib/Parser.cpp','lib/Document.cpp','lib/aux-ginga.cpp'], mech=[('push*/pop* functions, error handling, id generation','lib/Parser.cpp')],
  observe=['result and error message of Parser::parseFile','the Document read through its public accessors','AddressSanitizer and UndefinedBehaviorSanitizer'],
  technique='structure-aware and byte-level fuzzing of generated documents under sanitizers, with invariants of accepted documents and reparsing as oracle; failures shrunk',
  note='Random search. Parsing calls the fatal ERROR() nowhere on the inputs explored; inputs are up to a few kilobytes.'),
 dict(id='C15', title='An invalid document is refused, and the message names the fault',
  statement='A document with a fault is refused: unknown elements or attributes, elements out of place, missing required attributes or children, empty, malformed or repeated ids, references to things that do not exist, are out of scope or of the wrong kind, exclusive attributes, malformed times, comparators, operators and booleans, wrong or incomplete roles, roles without bind, interfaces that do not fit their role, failing imports and fonts, and text that is not well-formed XML. The message gives the URI of the file, and for a fault in an element its tag and line, and the attribute and value, the child or the parent at fault.',
  over=['inputs','programs'], quant='all single faults of 31 kinds injected anywhere in generated valid documents, and seven kinds of malformed XML',
  why='Tests check each message once in a minimal document; that every occurrence is checked, in any context, needs generated documents.',
  files=['lib/Parser.cpp'], mech=[('checkNode, getAttr*, errElt* functions','lib/Parser.cpp')],
  observe=['result and error message of Parser::parseFile'],
  technique='property-based testing by fault injection: a generated valid document is accepted, one known fault is put in, and the document must be refused with the message of that fault; failures shrunk',
  note='Random search; single faults only; the exact wording after the location is compared only up to the attribute, value, child or parent at fault.'),
 dict(id='C17', title='Imported bases mean the same as bases written in place',
  statement='A document whose region, descriptor, connector, rule and transition bases are imported from other documents, at any depth, denotes the same as the document with those elements in place, where an element of an import is known by its id prefixed with the aliases of the imports and "#". This holds for relative (to the importing document), absolute and file URI addresses in any directory. Elements of an imported document refer to each other by their own ids, and what is not imported or not referred to adds nothing.',
  over=['programs','inputs'], quant='all ways to move parts of the bases of generated documents into (nested) imported documents, with all forms of address',
  why='Tests import one connector base and one region base from the same directory.',
  files=['lib/Parser.cpp'], mech=[('pushImportBase, aliases in ParserState ids','lib/Parser.cpp')],
  observe=['the Document built by Parser::parseFile, read through its public accessors'],
  technique='metamorphic and model-based testing: bases of generated documents are split into imported files; the parsed document is compared with the denotation of the original; failures shrunk',
  note='Random search; nesting up to three imports. Fonts are left out.'),
 dict(id='C30', title='Presenting any document the parser accepts is safe',
  statement='Whatever document the parser accepts, starting it on a player and sending any ticks, keys and actions on its events neither crashes, hangs nor corrupts memory, and without links every reaction ends after a bounded number of transitions. At every step no child is awake while its context sleeps and no anchor is awake while its media sleeps. A document that cannot be started is reported with a message, and the player can be stopped and destroyed at any moment.',
  over=['programs','histories'], quant='all accepted structural mutations of generated documents (odd nestings, missing parts, self references, strange roles), with random histories',
  why='The parser accepts far more than sensible documents; tests present only sensible ones.',
  files=['lib/Formatter.cpp','lib/Document.cpp','lib/Context.cpp','lib/Switch.cpp','lib/Media.cpp','lib/MediaSettings.cpp','lib/Parser.cpp'], mech=[('evalAction, evalPredicate, evalPropertyRef','lib/Document.cpp'),('before/afterTransition','lib/Media.cpp')],
  observe=['Document/Formatter state after every step','AddressSanitizer and UndefinedBehaviorSanitizer','a count of transitions per step'],
  technique='fuzzing: structurally mutated documents that the parser accepts are presented under sanitizers with random histories; safety, termination and containment invariants; failures shrunk',
  note='Random search; documents whose links trigger each other for ever are only required not to crash (they are cut after a bound); values that ginga rejects with its fatal ERROR() by design are not generated.'),

 dict(id='C18', title='Media appear where their region or geometry properties place them',
  statement='A media is drawn in the rectangle that its properties left, top, width, height, right, bottom, bounds, location and size denote, in pixels or as percentages of the screen (right and bottom count from the opposite edge; without any, it fills the screen), rounded to whole pixels, and nowhere else; a region denotes the rectangle it has within its parent regions. Setting one of these properties while the media is presented moves or resizes exactly what it names, and a media with no area, that is sleeping or whose visible is false is not drawn. When the screen is resized, percentages are taken of the new screen and pixels are kept.',
  over=['inputs','histories'], quant='all nestings of regions, geometry properties in pixels and percentages, screen sizes, and histories of attributions, starts, stops and resizes',
  why='Tests check a few property values and never the pixels drawn; placement depends on combinations of units, nesting and later changes.',
  files=['lib/Player.cpp','lib/Parser.cpp','lib/Formatter.cpp','lib/Media.cpp','lib/PlayerImage.cpp','lib/PlayerText.cpp'], mech=[('doSetProperty, redraw','lib/Player.cpp'),('pushRegion','lib/Parser.cpp'),('resize','lib/Formatter.cpp')],
  observe=['pixels of the frames drawn by Formatter::redraw on a cairo surface','Media::getProperty'],
  technique="model-based testing: generated documents of boxes, pictures and texts are presented with random histories and every frame is compared, pixel by pixel, with a painter's model; failures shrunk",
  note='Random search. Halves of pixels, where the rounding is not determined, are left out; OpenGL drawing is not exercised; left/top are clamped to the screen.'),
 dict(id='C19', title='Frames show the media stacked in order with their colours and opacity',
  statement='A frame shows the background colour given to the player (black without one) and over it every occurring or paused visible media, in order of zIndex and, for the same zIndex, of zOrder (the order of the regions in the document). Each one is its background colour under its content (pictures and the canvases that scripts paint stretched to fill the rectangle, text placed as its alignment says), blended with what is below according to its transparency, and the focused one bears a border of its focusBorderColor (yellow by default) and focusBorderTransparency. Changes of these properties and starts, stops, pauses and resumes show in the next frame, and nothing else does.',
  over=['inputs','histories'], quant='all sets of overlapping boxes, pictures, texts and scripts with random colours, transparencies, zIndex, visibility and focus, and histories of changes',
  why='No test looks at a frame; the order of drawing and blending matters for every overlap.',
  files=['lib/Formatter.cpp','lib/Player.cpp','lib/PlayerImage.cpp','lib/PlayerText.cpp','lib/PlayerLua.cpp','lib/Parser.cpp'], mech=[('redraw, zcmp','lib/Formatter.cpp'),('redraw, doSetProperty','lib/Player.cpp')],
  observe=['pixels of the frames drawn by Formatter::redraw on a cairo surface'],
  technique="model-based testing: every frame of a random history is compared, pixel by pixel, with a painter's model; failures shrunk",
  note='Random search. Colour components may differ by 4 of 255; pixels at edges of scaled pictures and focus borders are not compared; of text only where it lies is checked; background colours are opaque.'),
 dict(id='C28', title='Animated properties and transitions progress linearly to their values',
  statement='A left, top, width, height, bounds, location, size, background or transparency set with a duration changes linearly in the time of the media from its former value (or, if it had none, from what is shown at the next frame) to the new one, which it has exactly when the duration is over and keeps, also when the screen is resized; a later change of the same property takes over, and animations of different properties do not disturb each other. The entry transition of a media (fade, or barWipe leftToRight or topToBottom, or diagonalWipe topLeft) uncovers it progressively, so that what it has not reached is not shown, and leaves it as it would be without one. Pausing the media freezes its animations, and stopping it ends them.',
  over=['inputs','histories'], quant='all animatable properties, values and durations, overlapping animations, entry transitions, tick lengths and pauses',
  why='Animations depend on frame times and on each other; no test animates anything and looks at the result.',
  files=['lib/PlayerAnimator.cpp','lib/Player.cpp','lib/Media.cpp'], mech=[('schedule, doSchedule, update, scheduleTransition, AnimInfo','lib/PlayerAnimator.cpp')],
  observe=['pixels of the frames drawn by Formatter::redraw on a cairo surface'],
  technique="model-based testing: every frame of a random history with animations is compared, pixel by pixel, with a painter's model that interpolates; failures shrunk",
  note='Random search. The front of a wipe is compared with a margin of a few pixels; its second diagonal half may lag one frame; transitions on exit are not implemented by ginga and not checked.'),

 dict(id='C24', title='Lua tables are read as the NCL document they describe',
  statement='A Lua script that returns a table in NCL-ltab yields the document the table describes: its contexts, switches and media with their ids and parents, their properties (a src is made a URI relative to the script, an effect table becomes the value of transIn or transOut), anchors with their times, ports, links with their conditions, predicates, actions, values and delays, and rules, all in the order given; it is presented as the same document in XML would be. This holds for any way of writing the same table in Lua, from a file or a buffer. A script that fails, or whose table is malformed (unknown tags, transitions, operators, references or times, repeated ids, missing or wrongly typed parts), is refused with a message, without a crash.',
  over=['programs','inputs','histories'], quant='all tables for generated documents in any spelling, 22 kinds of single faults anywhere in them, and random mutations of the tables',
  why='Tests read a handful of tables and look at a few counts; the reader walks the Lua stack by hand, so any combination of optional parts may go wrong.',
  files=['lib/ParserLua.cpp','lib/Formatter.cpp'], mech=[('l_parse_* functions, getEventStringAsEvent','lib/ParserLua.cpp')],
  observe=['the Document built by ParserLua::parseFile and parseBuffer, read through its public accessors','document state after every step of a presentation','error messages'],
  technique='model-based testing: documents of the reference model are printed as Lua tables, read, compared and presented in lock step with the model; fault injection and structural mutation of the tables; failures shrunk',
  note='Random search. Formatter is compiled with WITH_LUA=1, which no build configuration of the repository sets; ids are alphanumeric; references to aliases, settings, switch ports and look-at events have no notation in the tables.'),

 dict(id='C25', title='Scripts run beside their media and act on it through posted events',
  statement='The script of an NCLua media is opened when the media starts, told of its start, pause, resume and stop, of starts and stops of its labelled anchors, of properties set while it occurs and of keys while it is focused; it is opened and run, once per redraw and once before it is closed, with its own directory as the current one, which is restored afterwards. Each event a script has posted by a redraw is carried out as an action at the next tick of its media, in order: presentation of the whole media or of the anchors with that label, or attribution of a property it has with the given value; events naming anything unknown are ignored. Every script that is opened is closed exactly once, when its media stops or the presentation ends.',
  over=['histories','programs'], quant='all documents with scripts in several directories, and histories of actions, keys, redraws and posted events, well-formed and not',
  why='NCLua is not part of the test build, so no test runs a script at all; the bridge is a history of messages both ways.',
  files=['lib/PlayerLua.cpp','lib/Media.cpp','lib/Player.cpp'], mech=[('PlayerLua::start/stop/redraw, event conversion','lib/PlayerLua.cpp'),('sendPresentationEvent, addDelayedAction','lib/Media.cpp')],
  observe=LOCK_O+['calls of the ncluaw interface, with the current directory of each'], technique=LOCK_T,
  note='Random search. NCLua itself is a stand-in that records calls and posts the generated events.'),
 dict(id='C26', title='The web services let other devices act on the document and take part in it',
  statement='While the webservices option is on, a POST to /current-service/apps/APP/DOC/NODE whose JSON body has the action select (key in value), lookAt or lookAway (optional interface, default the whole object) and names an event the node of the presented document has, starts and stops that selection, starts that look-at event or stops it, and is answered 200; any other request there, malformed, nested too deeply or naming something absent, is answered 404 and changes nothing. /location is answered 200 with the base URLs; a valid registration at /remote-mediaplayer is answered 200 exactly if the document has remote medias (type application/x-ncl360 or a device property), gives its location to those of its device type or formats, and remote medias tell their location their starts, pauses, resumes and stops; other paths are answered 404. The services start and stop with the option any number of times, outlive documents, are announced exactly while they run, and move on to the next port while theirs is busy.',
  over=['histories','inputs'], quant='all request bodies (valid, single-faulted, random, deeply nested), paths and registrations, interleaved with histories of the presentation and of the option',
  why='No test exercises the services; requests come from other devices and may be anything at any moment.',
  files=['lib/WebServices.cpp','lib/PlayerRemote.cpp','lib/Formatter.cpp','lib/Document.cpp','lib/Object.cpp'], mech=[('handlers of the paths, start/stop','lib/WebServices.cpp'),('PlayerRemote messages','lib/PlayerRemote.cpp')],
  observe=LOCK_O+['HTTP answers on a loopback address','messages sent to other devices','announcements (ssdp)'],
  technique='model-based testing: random requests (structured, faulted, random) over real HTTP and random histories in lock step with the reference interpreter; answers and effects compared; failures shrunk',
  note='Random search. gssdp is a stand-in that records; the server listens on a free loopback port instead of its own.'),

 dict(id='C27', title='Each media gets the player of its type, and audio and video follow their media',
  statement='A media is played by the player of its type, which is its property type if given and otherwise follows from the extension of its source (after the last dot, in lower case as in the table; without a known one it is a timer), and its property type tells it then. A video or audio plays the URI of the media, is playing, paused or released exactly while the media occurs, is paused or sleeps, shows each frame stretched over the rectangle of the media until the next one, ends the media at the next tick once its content ended unless freeze is true, follows the sound properties (volume, mute, balance, bass, treble), and goes to each time (N, +N, -N, or the begin of the anchor it is started by) and takes each rate that is set, in that order, if need be when its content is ready. A signal generator plays the wave, freq and volume last set, and is playing, paused or released as its media.',
  over=['histories','inputs'], quant='all types and source names, and all histories of actions, ticks, property changes, frames, ends of content and messages over one or two videos, audios and signal generators whose content is there at once or later',
  why='No test can play videos without sound card and files, and the order in which content, messages and actions come is up to the schedule.',
  files=['lib/PlayerVideo.cpp','lib/PlayerSigGen.cpp','lib/Player.cpp','lib/Media.cpp'], mech=[('createPlayer, mime table','lib/Player.cpp'),('pipeline, bus callback, stacked actions','lib/PlayerVideo.cpp')],
  observe=['class and type of the player','state, URI, seeks, sound elements and life time of the pipeline','sampled pixels of frames','event states and links'],
  technique='model-based testing: random histories of actions, property changes and content events against a reference model; the content comes from a stand-in for playbin, all other elements are those of GStreamer; failures shrunk',
  note='Random search. Errors of the content end ginga by design and are not generated; positions while playing backwards are not compared.'),

 dict(id='C23', title='A player keeps its options and refuses what does not fit its state',
  statement='A player (libginga handle) keeps each option as last set or as given at its creation (800x600 and all off without any), readable by name and as a whole; width, height and resize change the screen, background its colour, and debug shows a banner and sets G_MESSAGES_DEBUG to all, restoring the former value when turned off. Starting returns true exactly if the player is stopped and the file is a valid document, and otherwise changes nothing, with a message for an invalid file; stop, keys and ticks return true exactly while it plays, which lasts from a start to a stop or the end of the document, and a stopped player draws nothing and has no document. Nothing of a presentation (such as the focus) is carried over to the next one, and several players at the same time do not affect each other.',
  over=['histories'], quant='all histories of start (valid, invalid and missing files), stop, keys, ticks, redraws, resizes, option changes, destruction and creation over up to three players',
  why='The tests of the interface call each function once on a fresh handle, with a single player, and most do not run offline.',
  files=['lib/Formatter.cpp','lib/Ginga.cpp','lib/Player.cpp','lib/MediaSettings.cpp'], mech=[('start/stop/sendKey/sendTick, option table','lib/Formatter.cpp'),('isFocused','lib/Player.cpp')],
  observe=['return values and options of Ginga/Formatter','focus and state of two medias','sampled pixels of frames','G_MESSAGES_DEBUG'],
  technique='model-based testing: random histories over several players against a model of each one; failures shrunk',
  note='Random search; two-media documents (documents of all kinds are the subject of C01-C13); what debugging draws is checked only by its banner and only on wide screens; the opengl option is left off.'),

 dict(id='C31', title='The program ginga plays each file and passes frames, sizes and keys on',
  statement='The program ginga creates the player with the size (800x600 by default), background, debug, ws and experimental flags that its options tell, and plays each file in turn until its presentation ends, Escape is pressed or SIGTERM comes; a file that does not start is reported on stderr and the exit status is the number of these, while unknown options, sizes without two positive numbers and (without --ws) a lack of files are refused with a message before a player is created. Each frame gives the player a tick with the time since the first and since the previous frame of that file and the number of the frame, and draws it; each resize gives it the new size, F10 toggles its option debug, F11 the full screen, and closing the window ends the program. Any other key gives the player, as pressed or released as the case may be, its NCL name: F1 to F5 RED, GREEN, YELLOW, BLUE and INFO, Return ENTER, arrows CURSOR_UP and so on, asterisk and numbersign * and #, and otherwise the name GTK gives it, in capitals if it is longer than a character; a key without name is ignored.',
  over=['inputs','histories'], quant='all command lines, and histories of frames, keys, resizes, exposures, signals and ends over one to four files',
  why='No test runs the program: it needs a display, and what it passes on depends on clocks, keyboards and the order of files.',
  files=['src/ginga.cpp'], mech=[('keyboard_callback, tick_callback, resize_callback, main','src/ginga.cpp')],
  observe=['calls of the interface of Ginga','state of the window','stderr and exit status'],
  technique='model-based testing: the program, linked with stand-ins for GTK and for the player, is run on random command lines and scripts of window events, and the calls that reach the player are compared with a model; failures shrunk',
  note='Random search. GTK and the player are stand-ins; options of OpenGL and negative sizes are not generated.'),
 dict(id='C32', title='OpenGL draws the same frames as cairo and looks after its textures',
  statement='When the library is built with OpenGL and a player has its option opengl, each frame drawn through OpenGL shows, pixel by pixel up to rounding, what is drawn without it: the background, every media with its place, order, colours, opacity, animations, picture, text or script canvas, and the debugging information. (Focus borders and wipes are not drawn with OpenGL.) The contents of a media are kept in at most one texture, which is never used after it is deleted nor deleted twice, and once the media are stopped no texture is left.',
  over=['inputs','histories'], quant='all documents of boxes, pictures, texts and scripts, and histories of changes, starts, stops, resizes and frames',
  why='No test draws with OpenGL, which needs a display, and its pictures depend on what was drawn before.',
  files=['lib/aux-gl.cpp','lib/Formatter.cpp','lib/Player.cpp','lib/PlayerImage.cpp','lib/PlayerText.cpp','lib/PlayerLua.cpp'], mech=[('GL','lib/aux-gl.cpp'),('redraw, redrawDebuggingInfo','lib/Player.cpp')],
  observe=['pixels drawn by a software stand-in for OpenGL','its textures and misuses','pixels drawn by a second player without OpenGL'],
  technique="differential and model-based testing: the same random history is presented with OpenGL (a software stand-in) and without, and every frame is compared with the other and with the painter's model; failures shrunk",
  note='Random search. OpenGL is a stand-in that follows its specification and knows what the shaders compute by the declarations in their text only; pixels at edges of scaled pictures and of scaled text are not compared; videos are not shown with OpenGL and not generated.'),
 dict(id='C33', title='The window program plays what is chosen, remembers it and passes input on',
  statement='The program ginga-gui plays the file named in its entry when Play is clicked, and at once a file that is opened or picked from the history (which also goes into the entry), until Stop is clicked, the presentation ends or the window is closed; Play, the entry, Open and the history are enabled exactly while nothing plays, and a file that does not end in .ncl or does not start is reported in a bar with its name and leaves them enabled. The history lists the .ncl files opened, picked or given as argument, latest first, each once and at most six after an addition, and is there again with the aspect ratio and the theme when the program is run again, whatever its settings file contains or lacks; the entry starts with its first line. While a document plays, each frame gives it a tick with the time since the first and since the previous frame of that presentation, each key its name as in ginga (Escape, Ctrl and Meta, and b, d, f and r with them, belong to the window: full screen, console and remote control) and each button of the remote control its name as pressed and released; the player has the size of the view or, in full screen, of the monitor, what it draws is squeezed to 3/4 of the width (4:3), 9/16 (16:9) or 10/16 (16:10) of the height or not at all and centred on black, and the console lists its messages in full.',
  over=['inputs','histories'], quant='all histories of clicks, file names, keys, frames, resizes and messages over several runs of the program, and settings files',
  why='No test runs the window program: it needs a display, and what it does depends on what was done before, also by former runs.',
  files=['src/gingagui/MainWindow.cpp','src/gingagui/Draw.cpp','src/gingagui/SaveLoadSettings.cpp','src/gingagui/TvControlWindow.cpp','src/gingagui/FullscreenWindow.cpp','src/gingagui/gingagui.cpp'], mech=[('play_pause_button_callback, insert_historicbox, keyboard_callback','src/gingagui/MainWindow.cpp'),('save_settings, load_settings','src/gingagui/SaveLoadSettings.cpp'),('update_draw_callback, draw_callback','src/gingagui/Draw.cpp')],
  observe=['calls of the interface of Ginga','what is shown, enabled and listed','pixels around the picture','state after further runs with the same settings file'],
  technique='model-based testing: the program, linked with stand-ins for GTK and for the player, is run one to three times on random scripts of user acts with one settings file, and the calls that reach the player and what the user sees after every act are compared with a model; failures shrunk',
  note='Random search. GTK and the player are stand-ins; the help and the about windows are not exercised.'),
 dict(id='C34', title='The presentation mode shows the listed applications and plays the chosen one',
  statement='Started with --bigpicture, ginga-gui shows the applications (elements app with a src) that the ncl-apps element of ncl-apps.xml in its data directory lists, in their order and full screen, and ends if there is no such list: the chosen one, at first the first, has its thumbnail of 300x169 pixels in the middle, 100 pixels above the bottom, in a white frame, the others have theirs every 320 pixels to its left and right, the fainter the nearer to the edge (the distance to it as a part of half the width, plus 0.3, is the opacity), and over them are the title, the description and, from the middle, the cover of the chosen one (default pictures stand for missing thumbnails and covers). While nothing plays, releasing Left or Right chooses the former or the next application, if there is one, and all move to their new places within a second, and releasing Return starts the chosen one, which, if it starts, is shown in a full screen window of its own with the size of the monitor. While it plays, each frame gives it a tick and each key its name as in ginga, without changing what is chosen; releasing Escape stops it and shows the list again, and releasing Escape at the list, as well as the end of the presentation, ends the program.',
  over=['inputs','histories'], quant='all lists of applications (attributes missing, pictures missing, other elements), monitor sizes and histories of keys and frames',
  why='No test runs the presentation mode: it needs a display.',
  files=['src/gingagui/BigPictureWindow.cpp','src/gingagui/MainWindow.cpp','src/gingagui/FullscreenWindow.cpp','src/gingagui/Draw.cpp'], mech=[('loadApplicationsXML, carrousel_rotate, update_bigpicture_callback, draw_bigpicture_callback','src/gingagui/BigPictureWindow.cpp'),('keyboard_callback','src/gingagui/MainWindow.cpp')],
  observe=['pixels and texts drawn','calls of the interface of Ginga','windows in full screen','end of the program'],
  technique='model-based testing: the program, linked with stand-ins for GTK and for the player, is run on random lists and scripts of keys and frames; sampled pixels, texts, calls that reach the player and windows are compared with a model; failures shrunk',
  note='Random search. GTK and the player are stand-ins. Pixels are sampled when nothing moves (a second after the last key); the exit status is not asserted.'),
]

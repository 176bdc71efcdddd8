#!/usr/bin/env python3
# Writes ../properties.jsonl. Run by hand when a property's text changes.
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

SEG="segment/segment.go"
p("C01","Segmentation is lossless and terminates",
 "For every text delivered by a reader that fails with nothing but io.EOF, and every set of breakers, the segments a segmenter delivers are non-empty and their concatenation, in order, is exactly the text (ill-formed bytes appear as U+FFFD, as the reader reports them), however long the text and its segments are up to the documented maximum segment length. After the last segment the segmenter reports the end of input: no character, and in particular no end-of-text marker of its own, is lost, repeated, reordered or invented.",
 ["inputs","configurations"],"all texts, all readers that signal io.EOF, all sequences of penalties and match lengths the breakers may report",
 "Tests segment a handful of short ASCII sentences; they cannot cover all texts, all breakers or the growth and wrap-around of the look-ahead queue.",
 [SEG,"segment/deque.go"],
 [("reading runes, inserting penalties, delivering the front of the look-ahead queue","segment/segment.go: next, readEnoughInput, readRune, getFrontSegment"),("ring buffer","segment/deque.go")],
 [("look-ahead queue","runes read but not yet delivered","segment/segment.go: Segmenter.deque")],["Next, Bytes, Text, Runes"])
p("C02","Breaks happen at the first feasible position, with the breakers' penalties",
 "Every segment boundary before the end of the text is a position where the accumulated penalty of the primary breaker, or of the other breakers taken together, permits a break (below the infinite penalty and non-zero unless breaking on zero was asked for), and no earlier position inside the segment permits one. Penalties a breaker reports for a position accumulate over all reports made while the position is still undecided, into a slot decided by whether the breaker is the first one, and the penalties reported for a delivered segment are exactly the accumulated ones of its boundary.",
 ["inputs","configurations"],"all texts, all breaker sets (including several instances of one breaker type) and all penalties / match lengths they report",
 "Tests use one or two built-in breakers on a few strings and look at segment texts only; the quantification over breakers is out of reach.",
 [SEG],
 [("accumulating penalties","segment/segment.go: insertPenalties"),("finding a break","segment/segment.go: findBreakOpportunity, isPossibleBreak"),("look-ahead control by longest active match","segment/segment.go: readEnoughInput")],None,["Next, Text, Penalties"])
p("C03","Reading protocol: end of input, errors, overlong segments, re-initialisation",
 "Next returns false with a nil error exactly at the end of the text, and keeps doing so; it returns false with the reader's error if the reader fails, with a not-initialised error if no reader has ever been set, and with the too-long error if a segment exceeds the maximum length – never panicking and never delivering a truncated segment as if it were whole. Initialising a segmenter again makes it start over with the new text, forgetting text, position, segment and error of the old one, and asking for a configuration change in use is refused.",
 ["inputs","histories","fault_sequences"],"all call sequences of the segmenter's public operations, all positions of a reader error, all segment lengths around the limit",
 "Tests never inject reader errors, never reach the length limit and never re-use a segmenter after an error.",
 [SEG],
 [("error state","segment/segment.go: setErr, Err, Init, next"),("length limit","segment/segment.go: runewrite, getFrontSegment")],None,["Next, Err, Init, Buffer, Text"])
p("C04","Bounded segmentation stops at the bound and loses nothing",
 "Segmenting with a bound (a count of characters from the start of the text) never delivers text beyond the bound: it delivers the segments before the bound, then the rest up to the bound as a last fragment even where no break is possible, and then returns false with the bound-reached error as long as text is left. Calling it with a larger bound, or continuing without a bound, resumes exactly where it stopped: over any mix of bounded and unbounded calls the segments still concatenate to the text.",
 ["inputs","histories"],"all texts, all sequences of bounded and unbounded calls, all bounds",
 "Tests contain two bounded runs over one sentence.",
 [SEG],[("bound handling","segment/segment.go: BoundedNext, next, boundDistance, readEnoughInput")],[("position","number of runes consumed so far","segment/segment.go: Segmenter.pos")],["BoundedNext, Next, Text, Err"])
p("C05","The look-ahead queue behaves like a double-ended sequence",
 "The queue of characters with penalties behaves, for every sequence of operations and at every size, like a plain sequence: pushing and popping at either end, reading or overwriting by index, counting, clearing and iterating see every element exactly once, in order and unchanged by growing, shrinking and wrap-around. Reading or popping what is not there panics, and no operation writes outside its own storage.",
 ["histories","inputs"],"all operation sequences, all queue sizes and head positions",
 "Tests push 70 elements and pop them; they cannot reach all combinations of head, size and capacity.",
 ["segment/deque.go"],[("ring buffer arithmetic","segment/deque.go: next, prev, resize, growIfFull, shrinkIfExcess")],[("head, tail, count, buf","position of first element, of first free slot, number of elements, storage","segment/deque.go: deque")])
p("C06","A rune publisher serves every subscriber once and sums their penalties",
 "For every set of subscribers and each published rune, a publisher calls every current subscriber exactly once; the penalties it returns are, position by position, the sums of those the subscribers returned, and the longest distance it returns is the maximum match length of the subscribers not done after the event (0 if there are none). After the event exactly the done subscribers have been removed, each being told once that it has been unsubscribed, and all others are still subscribed.",
 ["inputs","histories"],"all numbers of subscribers, all patterns of becoming done, all penalty lists, all sequences of events and subscriptions",
 "Tests publish a few runes to a few subscribers; the order-maintaining swaps depend on which of n subscribers become done in which order.",
 ["automata.go","prioq.go"],[("publishing","automata.go: PublishRuneEvent"),("partition of active and done subscribers","prioq.go: Fix, bubbleUp, bubbleDown, Push, Pop, PopDone")],[("gap","border between active and done subscribers","prioq.go: DefaultRunePublisher")])
p("C07","Recognizers run their automaton step by step and come clean from the pool",
 "A recognizer calls its current state function exactly once per rune while it has one, continues with the function returned, is done exactly when there is none, and hands out penalties exactly when it is done with an accepted (non-empty) match: those of its accepting call. Accepting and aborting end the match with, respectively, a match one longer and an empty match; a recognizer taken from the pool starts with the given class and state function and nothing left over from its previous use.",
 ["inputs","histories"],"all state functions, all classes, all event sequences, all pool histories",
 "Tests exercise two fixed automata and never inspect pooled recognizers after re-use.",
 ["automata.go"],[("event step","automata.go: RuneEvent, DoAccept, DoAbort, Done"),("pooling","automata.go: NewPooledRecognizer, releaseIntoPool, Unsubscribed")])
p("C08","The simple word breaker breaks exactly at edges of whitespace",
 "A segmenter with the default breaker splits every text (without U+0000) into maximal runs of white space and maximal runs of other characters, alternating. The penalty at the end of a word is positive and that at the end of a run of white space negative.",
 ["inputs"],"all texts without U+0000",
 "Tests split two sentences.",
 ["segment/simplewordbreak.go",SEG],[("whitespace state","segment/simplewordbreak.go: StartRulesFor, ProceedWithRune, Penalties")])
p("C09","Grapheme breaks follow UAX#29 at every position of every text",
 "With the grapheme breaker, a segmenter splits every text (without U+0000) between two characters if and only if the extended grapheme cluster rules GB3–GB13 and GB999 of UAX#29, applied to the library's own character classes, put a boundary there.",
 ["inputs"],"all texts without U+0000, of any length",
 "The Unicode test file has 672 short samples; longer contexts (runs of regional indicators, of extenders, chains of joiners) and combinations of overlapping rules are unbounded.",
 ["grapheme/grapheme.go","grapheme/graphemeclasses.go"],[("rule automata","grapheme/grapheme.go: StartRulesFor, rule_GB…"),("classes","grapheme/grapheme.go: ClassForRune")])
p("C10","Word breaks follow UAX#29 at every position of every text",
 "With the word breaker, a segmenter splits every text (without U+0000) between two characters if and only if the word boundary rules WB3–WB16 and WB999 of UAX#29, applied to the library's own character classes, put a boundary there.",
 ["inputs"],"all texts without U+0000, of any length",
 "The Unicode test file has 1823 short samples; look-ahead over arbitrarily long runs of ignored characters and overlapping rules are unbounded.",
 ["uax29/uax29.go","uax29/uax29classes.go"],[("rule automata","uax29/uax29.go: StartRulesFor, ruleW…"),("classes","uax29/uax29.go: UAX29ClassForRune")])
p("C11","Code-point classification agrees with the range tables",
 "For each code point, the grapheme, word-break and emoji classifications return the class whose range table contains it, and the documented default class (Any, Other, -1) when none does; the grapheme and word-break breakers put otherwise unclassified pictographs of the emoji tables into a class of their own. The tables are those of Unicode 11: no two tables of the grapheme (word-break) classification contain the same code point, while an emoji may be in several tables and the first in their order counts. U+0000 is classified as the end-of-text marker.",
 ["inputs"],"all 1,114,112 code points (and the invalid rune values around them)",
 "Tests look up a few characters.",
 ["grapheme/grapheme.go","grapheme/graphemeclasses.go","uax29/uax29.go","uax29/uax29classes.go","emoji/emoji.go","emoji/emojiclasses.go"],[("table lookup","grapheme/grapheme.go: ClassForRune, CodePointClassFor; uax29/uax29.go: ClassForRune, CodePointClassFor; emoji/emoji.go: EmojisClassForRune"),("table set-up","grapheme/graphemeclasses.go: setupGraphemeClasses; uax29/uax29classes.go: setupUAX29Classes; emoji/emojiclasses.go: setupEmojisClasses")])
p("C12","Grapheme strings index exactly the grapheme clusters of the text",
 "A grapheme string over a text (of at most 65534 bytes and without U+0000) reports as many graphemes as the text has clusters and returns the n-th cluster for each index in range; concatenated, they are the text from its first legal rune up to the first ill-formed byte after it, or to its end. The representations for short and longer texts cannot be told apart, an index out of range panics, String returns the text unchanged, and an empty or wholly illegal text has no graphemes (its index 0 gives the empty string).",
 ["inputs"],"all byte strings up to the maximum length accepted, all indices",
 "Tests take three strings; limits between representations (255, 65535 bytes) and illegal bytes are not covered.",
 ["grapheme/string.go"],[("choice of representation","grapheme/string.go: StringFromString, StringFromBytes, prepareBreaking"),("slicing","grapheme/string.go: Nth, Len")])
p("C13","The first legal rune of a byte string is found, or its absence reported",
 "For every byte string the position returned is that of the first byte where a well-formed UTF-8 encoding of a character starts (U+FFFD itself counting as well-formed), together with a copy of exactly the bytes before it; if there is none, the position is -1 and the prefix is the whole string. The call always returns.",
 ["inputs"],"all byte strings",
 "Tests try two strings.",
 ["uax.go"],[("search loop","uax.go: PositionOfFirstLegalRune")])
p("C14","Display widths follow East Asian Width and add up",
 "The width of a grapheme is decided by its first character: 2 en for emoji (other than the narrow digits, # and *) and for the East Asian Width classes wide and full-width, 1 en for narrow and half-width, and for ambiguous and neutral characters 2 en in an East Asian context and 1 en in any other; an empty grapheme, or one that starts with an ill-formed byte, has width 0. A missing context is a Latin one, a context that forces East Asian is East Asian, and otherwise its script or locale decides. The width of a grapheme string is the sum of the widths of its graphemes. Widths depend on nothing but the text and the context: neither on earlier calls nor on other contexts.",
 ["inputs","configurations","histories"],"all graphemes, all contexts, all grapheme strings",
 "Tests measure a few characters in three contexts.",
 ["uax11/width.go"],[("width rule","uax11/width.go: Width, graphemeWidth, resolveToNarrow, resolveToWide"),("context","uax11/width.go: evaluateContext, findResolver, ContextFromEnvironment"),("sum","uax11/width.go: StringWidth")])
p("C15","Bracket pairing follows the stack algorithm of BD16",
 "For every sequence of opening and closing brackets up to the maximum nesting depth, the pairs found are exactly those of definition BD16 of UAX#9: a closing bracket is paired with the nearest preceding unpaired opening bracket of the same kind that has not been discarded, and everything opened after that one is discarded. Every bracket of the Unicode bracket list is recognised with its partner.",
 ["inputs"],"all bracket sequences up to the nesting limit",
 "Tests check four sequences.",
 ["bidi/brackets.go","bidi/bracketpairs.go"],[("bracket stack","bidi/brackets.go: push, popWith, findPair, FindBracketPairing")])
p("C16","Bidi rules re-classify text without losing or inventing any of it",
 "Every resolver rule replaces the runs of classified text it matched by runs that cover exactly the same text range without gap or overlap, and classifies each according to the rule's table entry in UAX#9; it never touches runs it did not match. Consequently the resolved levels of a paragraph cover each byte of the text exactly once, whatever the text.",
 ["inputs"],"all matched sequences of runs, all texts",
 "Tests apply a few rules to one hand-made sequence each.",
 ["bidi/actions.go","bidi/resolver.go","bidi/scrap.go"],[("rule actions","bidi/actions.go"),("combining scraps","bidi/scrap.go: collapse, appendRuns"),("rule application","bidi/resolver.go: reduce, apply")])
p("C17","Bidi weak types and neutrals resolve as UAX#9 says",
 "For every paragraph of characters without explicit formatting, the direction resolved for each character is the one the rules W1–W7, N0–N2 and I1–I2 of UAX#9 give for the chosen base direction.",
 ["inputs","configurations"],"all sequences of bidi classes, both base directions",
 "Tests resolve about a dozen sentences.",
 ["bidi/scanner.go","bidi/resolver.go","bidi/actions.go"],[("scanner with strong-type context","bidi/scanner.go"),("rules","bidi/actions.go")])
p("C18","Splitting resolved text at a position keeps everything on its side",
 "Splitting resolved bidirectional text at any position into two yields two parts that cover the text before and the text from that position, with the same resolved direction for every character as before the split. This includes nested isolates and positions inside them, and any number of successive splits (as for wrapping lines).",
 ["inputs","histories"],"all texts with isolates, all split positions, all sequences of splits",
 "Tests split two samples at one position each.",
 ["bidi/reordering.go","bidi/resolver.go","bidi/scrap.go"],[("splitting","bidi/reordering.go: Split, split, shiftzero")])
p("C19","Reordering is a permutation of the text, in visual order",
 "Reordering resolved levels yields an ordering of the directional runs in which every byte of the text, at any depth of nested isolates, occurs exactly once. Among the runs of the paragraph itself, those of the paragraph's direction keep their places, and every maximal stretch of other runs (text of the opposite direction and numbers) appears in reversed order (rule L2). This holds for whole paragraphs and for the lines a paragraph is split into. Reordering does not change the text's resolved levels, and works for every resolved paragraph.",
 ["inputs"],"all resolved paragraphs, both base directions",
 "Tests reorder a few paragraphs.",
 ["bidi/reordering.go"],[("reversal and flattening","bidi/reordering.go: Reorder, reorder, flatten")])
p("C20","Iterating over a run yields its text segments in display order",
 "The segment iterator of a run visits each part of the run exactly once, in the order the run is displayed, and then ends; it leaves the run as it was, so a second iterator sees the same.",
 ["inputs","histories"],"all runs of a reordered paragraph",
 "Tests print one run.",
 ["bidi/reordering.go"],[("iterator","bidi/reordering.go: SegmentIterator, Next, Segment")])
p("C21","The hash trie finds exactly the keys that were stored",
 "For keys over the categories 0 to n-1 of a trie for n categories: after any sequence of insertions, inserting a stored key again, looking it up once the trie is frozen, and stepping through it with an iterator all give the same position, which is not 0; every prefix of a stored key is found too; different keys have different positions; and a key of two or more categories that is neither stored nor the prefix of a stored key is not found (position 0) once the trie is frozen. Look-ups in a frozen trie change nothing. Running out of space is reported (by a panic 'abort find') and loses no stored key; a number of categories that is too large is reported as an error.",
 ["histories","inputs"],"all sets and insertion orders of keys, all table sizes and category counts",
 "Tests insert a handful of keys.",
 ["bidi/trie/hashtrie.go","bidi/trie/primes.go"],[("insertion, relocation of families, iteration","bidi/trie/hashtrie.go: AllocPositionForWord, advanceToChild, insertFirstbornChildAndProgress, insertChildIntoFamily, moveFamily, Iterator.Next")],[("link, sibling, ch","the hash table of trie nodes","bidi/trie/hashtrie.go: TinyHashTrie")])
p("C22","Concurrent bidi resolution is race-free and deterministic",
 "The bidi scanner and parser run concurrently; for every schedule the resolved levels of a paragraph are the same, and no data race occurs.",
 ["schedules"],"all interleavings of the scanner and parser goroutines, and of several resolutions in parallel",
 "A test run sees one schedule.",
 ["bidi/scanner.go","bidi/resolver.go","bidi/brackets.go"],[("pipe channel and mutexes","bidi/scanner.go: Scan; bidi/brackets.go: mx; bidi/resolver.go: parse")])
p("C23","Line wrap opportunities follow UAX#14",
 "With the line wrap breaker, a segmenter permits a line break exactly where the rules of UAX#14 permit one.",
 ["inputs"],"all texts",
 "The package cannot even be compiled at this commit (its generated class table is missing), so no test reaches it.",
 ["uax14/uax14.go","uax14/rules.go"],[("rule automata","uax14/rules.go")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

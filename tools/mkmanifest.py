#!/usr/bin/env python3
# Writes ../MANIFEST.json from the table below and ../properties.jsonl.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
TECH="contract-based deductive verification of the real Go code (govc: verification conditions from go/ssa, z3/cvc5)"
claims={
 "C01":"The segmenter's main loop (Next, BoundedNext, next, readEnoughInputAndFindBreak, readRune, findBreakOpportunity, getFrontSegment, insertPenalties), output buffer and initialisation are under contract, loop invariants tie the queue to the reader's text and to the accumulated penalties (ghost state); all obligations discharged for every text, reader and set of breakers. Assumed: readers as modelled by the contract of io.RuneReader.ReadRune, breakers do not touch the segmenter and report a match length >= 0, texts up to 2^60 characters; Bytes() and Text() only in the bounded driver (random breakers, texts, buffers).",
 "C02":"The segmenter's main loop (Next, BoundedNext, next, readEnoughInputAndFindBreak, readRune, findBreakOpportunity, getFrontSegment, insertPenalties), output buffer and initialisation are under contract, loop invariants tie the queue to the reader's text and to the accumulated penalties (ghost state); all obligations discharged for every text, reader and set of breakers. Boundaries, [first] and [penalties] are stated over ghost arrays that accumulate what the breakers report. Assumed: as C01; penalty sums wrap like Go ints. Bounded driver: random breakers with an account of their own.",
 "C03":"The segmenter's main loop (Next, BoundedNext, next, readEnoughInputAndFindBreak, readRune, findBreakOpportunity, getFrontSegment, insertPenalties), output buffer and initialisation are under contract, loop invariants tie the queue to the reader's text and to the accumulated penalties (ghost state); all obligations discharged for every text, reader and set of breakers. Error protocol, stickiness, too-long, initialisation and refusal to reconfigure are postconditions. Assumed: as C01. Bounded driver: failing readers, small buffers, re-initialisation half way.",
 "C04":"The segmenter's main loop (Next, BoundedNext, next, readEnoughInputAndFindBreak, readRune, findBreakOpportunity, getFrontSegment, insertPenalties), output buffer and initialisation are under contract, loop invariants tie the queue to the reader's text and to the accumulated penalties (ghost state); all obligations discharged for every text, reader and set of breakers. Bound, last fragment, bound-reached and resumption are postconditions of BoundedNext/next. Bounds are counts (>= 0). Assumed: as C01. Bounded driver: random mixes of bounded and unbounded calls.",
 "C08":"The segmenter's main loop (Next, BoundedNext, next, readEnoughInputAndFindBreak, readRune, findBreakOpportunity, getFrontSegment, insertPenalties), output buffer and initialisation are under contract, loop invariants tie the queue to the reader's text and to the accumulated penalties (ghost state); all obligations discharged for every text, reader and set of breakers. For the default breaker the queue carries an invariant placing penalties exactly at edges of white space, from which Next's postconditions give maximal runs and penalty signs; the breaker's own methods are under contract and justify the conditional interface contract (one-step composition argued in DESIGN.md). Assumed: unicode.IsSpace is an arbitrary predicate false for U+0000. Bounded driver: exhaustive short texts, runs of every length.",
 "C05":"Every exported and unexported operation of the queue is under contract and all obligations are discharged for all sizes, head positions and contents (machine integers as mathematical integers with range checks; allocation never fails). A bounded driver additionally replays random operation sequences against a slice model.",
 "C06":"Every method of the publisher and its queue is under contract (the event round with three loop invariants) and all obligations are discharged for any number of subscribers, penalties and lists; subscribers are arbitrary implementations constrained by an assumed interface contract (an event concerns its receiver only; penalty lists do not alias the sum). A bounded driver replays random scripts against a list model.",
 "C07":"RuneEvent, Done, MatchLength, DoAccept, DoAbort, both constructors and the release into the pool are under contract for arbitrary state functions (function-type contract with a ghost call protocol); the third-party object pool is trusted to hand out objects exclusively. Bounded driver: random automata.",
 "C13":"PositionOfFirstLegalRune is under contract with a loop invariant, all obligations discharged for every string; trusted: contracts of unicode/utf8 (legality is DecodeRune's). Bounded driver: exhaustive short strings against an independent decoder.",
}
claims["C11"]="The look-up functions (three classifications, two breakers) and the three set-up functions are under contract, all obligations discharged for every rune; that a table holds the right code points is data, checked exhaustively for all code points against a reference table of Unicode 11 classes (bounded layer, complete for the code space). Assumed: unicode.Is is membership, rangetable.New returns a new table; sync.Once runs the set-up."
claims["C14"]="Width, StringWidth (loop invariant: partial sum), graphemeWidth, both resolvers, both context constructors, evaluateContext and findResolver are under contract; all obligations discharged. Assumed: golang.org/x/text supplies East Asian Width classes, scripts and language matching; a context's resolver is one of the two resolver functions; grapheme strings as in C12. Which scripts and locales count as East Asian is checked by the bounded driver (60 contexts, every code point)."
claims["C09"]="Every rule function of the grapheme breaker, the start of recognizers, the processing of a character, the default penalty, the rule table built by NewBreaker and the classification are under contract; a lemma over those penalties (all classes, both kinds of context) says that they add up to a break exactly where GB3-GB13/GB999 put a boundary; all obligations discharged. Assumed: the publisher behaves as its interface contract (proved for the implementation under C06), recognizers as C07; that the recognizer alive at a boundary is the one the context says is argued in DESIGN.md. Bounded driver through the segmenter: every class sequence up to length 4, long rules deeper, random texts."
claims["C10"]="Every rule function of the word breaker, the start of recognizers, the processing of a character, the default penalty, the rule table built by NewWordBreaker and the classification are under contract; a lemma over those penalties (all classes, two classes of context on the left, one on the right) says that they add up to a break exactly where WB3-WB16/WB999 put a boundary; all obligations discharged. Assumed: as C09. Bounded driver through the segmenter: every class sequence up to length 4, long rules with any number of ignored characters, random texts."
claims["C12"]="StringFromString, StringFromBytes, both constructors (loop invariants: the breaks stored are the positions of the segmenter), Len, Nth, String of both representations, the reader over the string and the set-up of the breaker are under contract on top of the segmenter's and the classifiers' contracts; all obligations discharged. Assumed (reported): the reader's runes stand for the bytes of the string part it was given (definition of the ghost text), utf8 contracts, sync.Once. That the segments are the clusters is C09 with C01/C02; the driver compares the composition with an independent cluster oracle."
claims["C15"]="Both steps of BD16 (push, popWith with canonical equivalence, pushOpening, findPair incl. the list insertion, the scanner's dispatch prepareRuleBD16), the look-up FindBracketPairing and the update by rule N0 are under contract with a handler invariant (open brackets in text order, pairs opening before closing); all obligations discharged for every state. That the steps iterated over a text are BD16, and that isolates get their own handler, follows the code of Scan (goroutine and channel, outside the verifier's reach) and is compared with an independent BD16 by the bounded driver, as is the bracket list (data)."
claims["C20"]="SegmentIterator (loop invariant: outer part reversed, rest copied), Next, EOF, Segment and IsOpposite are under contract with empty or minimal frames (the run is never written); all obligations discharged for all runs. Bounded driver on random runs and reordered paragraphs."
claims["C21"]="NewTinyHashTrie, setInitialValues, correct, insertFirstbornChildAndProgress, insertChildIntoFamily, advanceToChild, AllocPositionForWord, Freeze, Iterator and Next are under contract: a structural invariant of the hash table (headers, families, links in both directions, sibling lists) is preserved, a look-up in a frozen trie changes nothing and follows exactly the stored edges, a position has one parent only, an insertion without relocation leaves every stored edge alone, and running out of space leaves the table unchanged; all obligations discharged. The contract of moveFamily (relocation) is assumed by the verifier, and its invariant and the dictionary as a whole are compared with a model by the bounded driver; the bounded part is not counted as proved."
claims["C16"]="Every rule of the resolver (constructors and action closures: W4-W7, N0-N2, merging of equal runs), the helpers on runs (collapse, children), the application of a rule (reduce), both passes, the parsing of isolating run sequences incl. unclosed ones, the treatment of bracket pairs and ResolveLevels are under contract: each action covers exactly the text of the runs it matched, with the class of its table entry, and runs adjoin from the start to the end of the text throughout; all obligations discharged for all inputs. Assumed: the scanner (other end of the channel) delivers adjoining runs, the trie look-up of a rule (matchRulesLHS) returns a rule with the matched left hand side, the scanner goroutine does not interfere; both checked, bounded, by the driver (exhaustive look-ups, random and exhaustive short texts through the whole pipeline). Termination of the passes is not proved."
claims["C18"]="Split, split (for nested isolates by recursion), shiftzero, irsContains, validcharpos and contains are under contract: for every position the left part ends at it and the right part starts at it, both are gapless and consist of the runs of the original in order and with their classes, isolate openers are repeated, shifting lowers every bound by the position, and nothing but the run split and isolates below it is written; all obligations discharged. Assumed (reported): runs and their isolates are gapless, not empty, and their storage is disjoint. Which side each isolate goes to is bounded: driver over random texts and series of splits."
claims["C19"]="level, reverse and reverseWithoutIsolates (mirror image of a part, rest unchanged), copyScraps, findEmbeddingDir, directionFromBidiClass and cutScrapAt are under contract, all obligations discharged. The recursion over isolates (reorder, flatten and joining of runs) is out of the verifier's reach so far and decided by a bounded driver only: random texts with isolates, lines, and all sequences of up to 6 runs against rule L2."
levels={"C19":"other"}
na={
 "C17":"The rules are applied by a scanner goroutine (context of strong types, W1-W3) and a table-driven parser; that the class each character ends up with is the one of W1-W7, N0-N2 needs a simulation argument across that channel. The contracts of C15/C16 decide each rule application; the end-to-end equality is known to fail in corner cases (DESIGN.md, limits), so it is not claimed.",
 "C22":"Needs reasoning over schedules of two goroutines; the verifier is sequential and no concurrent deductive verifier for Go is available here.",
 "C23":"Package uax14 does not compile at this commit (its generated class table is missing), so there is no real code to put under contract.",
}
todo="Contracts for this property are not finished."
m={"version":1,"setup_cmd":"./check.sh setup","checks":[],"not_applicable":[]}
for i in ids:
    if i in claims:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":TECH,"level":levels.get(i,"proof"),"level_note":claims[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,todo)})
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)

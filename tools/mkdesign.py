import json, re
V='/verif/'
head=open(V+'DESIGN.md').read().split('The per-property section is filled in below')[0].split('\n## Per property')[0].rstrip()+'\n'
props={}
for l in open(V+'properties.jsonl'):
    d=json.loads(l); props[d['id']]=d['title']
import glob,os
seeds={}
for f in sorted(glob.glob(V+'seeded/*/meta.json')):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((f.split('/')[-2],d['needs']))
kf=json.load(open(V+'known_findings.json'))
N={}
N['C01']=dict(spec="start/end of every returned caption = the instant an independent exact (rational) reading of the time-stamp grammar gives, as linear forms over symbolic digits; cue count, order and association with the text; the exact set of accepted spellings.",
 bounds="1-4 cues; every lexical form of the stamps (hour widths 1-4, fraction lengths 0-12, frames, every offset metric, sync ms, declared rates, time shift); digits unbounded.",
 why="a digit string is a symbol, so all 10^k stamps of a form are one obligation; float truncation is kept as an inexact term with a valuation that shows the wrong microsecond.",
 cost="2 s")
N['C02']=dict(spec="the output, read by an independent grammar, holds floor(t/1000) (MicroDVD: floor(25 t/10^6)) for each start and end, fields in range and width, cues in order and one per caption except for the permitted merges.",
 bounds="1-3 captions in 1-2 languages, symbolic instants below 24 h (integer or fractional), every order/overlap/coincidence.",
 why="carries at 999 ms/59 s/59 min, zero, sub-millisecond and fractional instants are all inside the one symbolic t.", cost="10 s")
N['C03']=dict(spec="an independent parser of the written format (strict XML, HTML tokenizer, WebVTT cue grammar, SRT blocks, MicroDVD lines) recovers exactly the caption's lines and number of cues.",
 bounds="every triple of metacharacters, every pair of printable ASCII, entity/tag/comment/cue look-alikes as and in lines, every arrangement of up to five nodes.",
 why="the escape context of every position of the output is decided for whole classes of text; tests have a handful of strings.", cost="5 s")
N['C04']=dict(spec="TEXT and BREAK nodes spell the displayed lines that an independent serialiser knows by construction.",
 bounds="constructs (references to every printable character in three notations, reference-building references, comments, CDATA, tags and nestings, breaks, source wraps) alone, at each end, in the middle, and every ordered pair adjacent or separated.",
 why="decoding order and double decoding need pairs of constructs that no test document holds.", cost="32 s")
N['C05']=dict(spec="captions = screen of an independent CEA-608 decoder (sa/cea.py): glyphs, italic flag per glyph, rows/groups, (row, column) position, balanced style nodes.",
 bounds="every preamble x tab offset x single/doubled/paired; every ordered pair of preambles in one and across two captions; every token sequence up to a length; every byte of the basic, special and extended tables as finite sets.",
 why="the tables are audited completely through the code that uses them (12 wrong or missing entries were found), and the control-code state machine over all short programs.", cost="62 s",
 notes="Not asserted: backspace directly after a mid-row code; rows sent bottom to top; two preambles for one row; an extended character after an extended character needs its stand-in; a mid-row blank may be omitted next to a blank, before .!?, and at row ends; doubled PAC + tab is sent PAC TO PAC TO.")
N['C06']=dict(spec="start/end of captions as linear forms in the symbolic timecode digits, offset and inter-line gaps against a reference that counts code words; gap closing below five frames; timing errors raised for impossible durations; drop and non-drop frame.",
 bounds="one to four lines of loads/EOC/EDM/filler, single and doubled.", why="all timecodes and offsets at once, exact rational arithmetic.", cost="55 s",
 notes="Not asserted: gaps of exactly five frames, durations within 1 µs of 0.05 s (the floats decide them).")
N['C07']=dict(spec="the abstract output parsed by a strict XML 1.0 parser: namespaces, unique ids that are NCNames, one div per language with its language, one p with begin/end per caption (per run of concurrent ones in the merging writer), every style and region reference resolves to exactly one definition, every region is referenced.",
 bounds="names with every ASCII character at first/later position, every small graph of style references, layouts at every level in every combination, writer options, sets returned by readers.",
 why="reference integrity is a whole-output property over combinations of layouts, names and styles.", cost="70 s",
 notes="Not asserted (false alarms corrected): control characters, which XML cannot hold; white space in language codes; captions without nodes; px layouts with relativize=False and fit_to_screen=True (raises by design).")
N['C08']=dict(spec="after a chain: same languages, cues, normalised text, starts/ends = floor to the coarsest resolution; after the chain a second time: identical terms (a fixed point, hence no drift in any number of passes).",
 bounds="all chains of up to 3 of the 5 formats with 1-3 cues and symbolic instants; all 120 permutations of five; all pairs plus three long chains for the text families; chains of DFXP and SAMI with 2-3 languages.",
 why="reader/writer pairs are composed symbolically; nested floors are normalised, so idempotence is proved for every microsecond.", cost="80 s",
 notes="Cues start at different units of the coarsest resolution and last at least one; SAMI: the last end is not asserted, the last start is at most 24 h - 4 s; no '|' in MicroDVD; cues that WebVTT splits by position are joined again.")
N['C09']=dict(spec="structural snapshot of the caption set before = after each write (also when it raises); output of a second write / fresh writer / used writer / other hash seed equal as string template.",
 bounds="histories of up to ten writes over writers x options x sets.", why="effect analysis: instance, class, module and default-argument state is part of the abstract heap and is carried along the history.", cost="45-70 s")
N['C10']=dict(spec="result of a read equals the first read of the document after any history; no editable object is reachable from two results or created at import time (alias rule); options act only on their reader; hash-seed independence.",
 bounds="histories of up to a dozen operations over readers, documents, options, writes and edits; other hash seed = reversed set order and renamed hash unknowns.",
 why="leaks need sequences of calls, which tests never run in one process by design.", cost="13-30 s", notes="Geometry objects are values, sharing them is allowed.")
N['C11']=dict(spec="markup balanced and properly nested in every output; flags per visible character found by an independent parser = flags of the caption; flags after reading back; balanced style nodes from every reader incl. SCC.",
 bounds="all arrangements of up to seven text/break/span nodes; spans with combinations of flags given directly, by class(es), or mixed.",
 why="state machine of open spans over all short node sequences.", cost="55 s", notes="Flags of white space and Caption.style flags are not compared; DFXP carries italics only.")
N['C12']=dict(spec="every visible text piece comes back with the layout given by node -> caption -> language -> default (fitted if asked); WebVTT: cue settings = linear forms of edge plus padding, raw settings verbatim, one cue per run of equal layout.",
 bounds="layouts none/A/B/C at all four levels, pairs differing in one component, all alignment pairs/padding subsets, one symbolic component at a time.", why="the inheritance and region-sharing code is exercised for all combinations of levels.", cost="15 s",
 notes="A DFXP region used only by a div is not fitted (pinned by test_empty_cue); caption_set-level layout has no region in DFXP; 'cell' units without dimensions are not asserted.")
N['C13']=dict(spec="written length within 0.005 of the exact percentage (linear form), at most two decimals, unit %, for every element, level and writer; RelativizationError iff a needed dimension is missing; fitted regions inside the safe area.",
 bounds="symbolic lengths (reals), five concrete video sizes, all units.", why="all lengths at once.", cost="30 s")
N['C14']=dict(spec="each language lists its paragraphs in document order (readers); SAMI SYNC blocks non-decreasing with every paragraph in the block of its start under its language, DFXP divs in language order, selected language only (writers); read back equal.",
 bounds="1-4 languages, up to 7 grid instants in every relative order, symbolic times for small sets.", why="block placement depends on the relative order of cues of several languages: enumerated completely.", cost="20 s",
 notes="Not asserted: language inheritance into a nested div without xml:lang; force naming an absent language; lang attributes shortened to two letters are pinned (KF-C14-1 for the collision); SRT/MicroDVD concatenation of languages.")
N['C15']=dict(spec="CaptionLineLengthError iff a transmitted row exceeds 32 characters, and its message names every such row.",
 bounds="rows of every length 0-40 in pop-on, roll-up, paint-on; captions sharing a start because of the screen, the timecode or the offset, in every order.", why="grouping by start time x length x order.", cost="22 s",
 notes="simulate_roll_up joins rows with a blank by design: only the limit on returned lines is asserted there.")
N['C16']=dict(spec="glyphs of all captions in order = transmitted rows (each row within one line of one caption); captions ordered, start before end, each ends when the next begins.",
 bounds="1-8 lines, 2-4 roll-up rows, symbolic digits and gaps; erase/carriage-return/mode switches.", why="buffer hand-over at every command in every short program.", cost="35 s",
 notes="Not asserted: roll-up followed by paint-on chaining; re-addressed rows; times symbolic for up to two lines.")
N['C17']=dict(spec="output decoded by an independent line-21 decoder (header, hex words, odd parity, row/column, line breaks at blanks only, order), time codes = start times as linear forms, SCCReader returns the same words.",
 bounds="each character over the whole basic table; words 1-40, lines up to 80, 1-4 lines; spacings from just feasible to sparse.", why="the character and row tables are audited completely; pre-roll arithmetic is symbolic.", cost="9 s",
 notes="Excluded: more than fifteen rows (infeasible); words over 32 columns may be split; a cue is feasible when its words fit after the previous cue's load.")
N['C18']=dict(spec="==/!=/hash decide component equality; from_string accepts exactly the grammar with the decimal value; printing within 0.005, at most two decimals, stable under re-reading; padding shorthand order; no transformation changes its receiver.",
 bounds="all layouts over none/first/second per component; token strings up to 3 (5) tokens; symbolic magnitudes.", why="pairs of values are exhaustive over the component lattice.", cost="3 s")
N['C19']=dict(spec="adjust_caption_timing: survivors = affine image of the input, order and nodes kept, negative starts dropped; merge_concurrent_captions: groups = maximal runs of equal times, nodes joined by breaks by identity and content.",
 bounds="1-6 captions, 1-3 languages, symbolic skew/offset/times, all patterns of equality.", why="sign cases of a symbolic affine map.", cost="2 s", notes="layout_info dropped by merging is not asserted.")
N['C20']=dict(spec="no exception escapes detect/detect_format; result = first accepting reader in the documented order; each writer's output is detected as its format and read.",
 bounds="all token strings up to a length, truncations and insertions of documents.", why="totality over a token language that covers every branch of the sniffers.", cost="5 s",
 notes="DFXP text that looks like another format's marker, and SinglePositioningDFXPWriter, are outside.")
FA=['C07: captions without nodes, control characters, px + relativize=False + fit_to_screen (see above).',
'C14: `force` naming an absent language falls back by design in the legacy writer; check dropped.',
'C15: joined roll-up rows are longer than 32 by design; only returned lines are limited.',
'C05: rows addressed twice and bottom-to-top order are not within "the CEA-608 screen" the reader models; BS after a mid-row code is ambiguous in the standard.',
'C08: two cues with the same times joined by SAMI/WebVTT; cue over within one frame (a real defect: KF-C08-1) separated from the timeline rule.',
'C20: texts equal to another format\'s marker are ambiguous input, not a defect.']
out=[head]
out.append('''
Analysed code: whatever the obligations reach (the evidence lists functions,
call sites, paths).  External state such as files or the network does not occur.

Refactorings: obligations are stated on the public API (`XReader.read`,
`XWriter.write`, `detect_format`, `CaptionSet`, `geometry`), so extracted
helpers, reordered statements, rewritten loops or renamed internals are simply
interpreted.  Constructs the interpreter does not model give UNDECIDED (quiet).

Running: `python3 check.py CNN` (environment VERIF_TIER=quick|thorough); eight worker
processes; one scenario that exceeds its time budget is UNDECIDED.

`quick` and `thorough` differ in the bounds (longer chains, more cues, more
orderings); both decide in the same way.

## Per property
''')
for k in sorted(props):
    n=N[k]
    out.append('### %s %s\n'%(k,props[k]))
    out.append('* specified (oracle): %s\n* bounds: %s\n* beyond tests: %s\n* cost (quick, idle machine): %s\n'%(n['spec'],n['bounds'],n['why'],n['cost']))
    if 'notes' in n: out.append('* limits: %s\n'%n['notes'])
    if k in seeds: out.append('* planted bugs caught by %s: %s\n'%(k,'; '.join('%s (%s)'%s for s in seeds[k])))
    f=[x for x in kf['findings'] if x['property']==k]
    for i in sorted({(x['id'],x['what']) for x in f}): out.append('* known finding %s: %s\n'%i)
    n_fix=[x for x in kf['fixed'] if 'property=%s '%k in x]
    if n_fix: out.append('* defects repaired: %d (see known_findings.json)\n'%len(n_fix))
    out.append('\n')
out.append('''## Not applicable

None: every property is phrased over documents, caption sets or histories whose
skeleton can be enumerated and whose contents can be abstract, so each has an
obligation family this technique decides.  What lies outside the bounds is in the
`limits` lines and in the evidence's assumptions; it is not claimed.

## Corrected false alarms

'''+''.join('* %s\n'%x for x in FA))
out.append('''
## Trust base

The interpreter's model of Python and of the libraries (`sa/interp.py`,
`sa/builtins_.py`, `sa/models.py`, `sa/soup.py`), the domains (`sa/num.py`,
`sa/strs.py`), the reference parsers (`sa/refs.py`) and the CEA-608 reference
(`sa/cea.py`).  Validation while building: every defect listed as fixed was first
confirmed by running the real code on the reported input; all planted bugs are
confirmed by their demonstrations; behaviour-preserving edits (helpers extracted,
loops rewritten, statements reordered) were analysed and stayed quiet.
''')
open(V+'DESIGN.md','w').write(''.join(out))

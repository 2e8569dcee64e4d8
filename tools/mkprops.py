#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

q="promq/prom/query.go"
p("C01","Stored samples read back complete, in time order and never mixed up",
 "After any history of loaded batches, reading a series back yields exactly the samples that were loaded for its label set (since they were last expired), each with its own value, in ascending timestamp order and in arrival order among equal timestamps, no matter how the samples were batched or how late they arrived. Samples of different label sets are never mixed, even if the label sets hash to the same value. Seeking while reading moves to the first remaining sample at or after the target time and never moves backwards.",
 ["inputs","histories"],"every sequence of batches over any label sets, timestamps and values, and every sequence of next/seek calls while reading",
 "The existing storage test loads one sorted batch; ordering depends on the whole arrival history, and hash collisions never occur in it.",
 [q,"promq/prom/map.go"],[("in-order append or insertion at the position found by binary search",q+":LoadData"),("label-set comparison behind the hash lookup","promq/prom/map.go:seriesHashmap"),("sample iterator",q+":blockSeries")],
 [("samples per series","sorted list of (timestamp, value)",q+":seriesData.data")],["storage.Querier.Select on the range storage"])
p("C02","Selectors return exactly the series that every matcher accepts",
 "For every set of stored series and every non-empty combination of equality, inequality, regex and negative-regex label matchers, selection terminates and returns exactly the stored series whose label values are accepted by all matchers, each once. A label a series does not have counts as the empty value.",
 ["inputs","histories"],"all sets of stored series (in any loading order) and all combinations of matchers over known and unknown labels, including matchers that accept the empty value",
 "The only selection test uses one name matcher; the interplay of missing labels, matcher kinds and several matchers is a product space.",
 [q,"promq/prom/postings.go"],[("postings intersection/merge/complement",q+":memQuerier.Select"),("postings lists per label pair","promq/prom/postings.go:memPostings")],
 [("postings","series references per label pair","promq/prom/postings.go:memPostings.m")],["storage.Querier.Select"])
p("C03","Expiring old samples removes exactly those, and nothing else is forgotten",
 "Cleaning with a cut-off removes exactly the samples with timestamps before the cut-off, in every series. A series left without samples disappears from selection and label listings, and appears again with exactly its new samples when any are loaded later. All other samples, series and lookups are unaffected.",
 ["histories"],"every interleaving of loads and cleans with any cut-offs, including cleaning everything and re-loading the same label sets",
 "No existing test cleans the storage at all; the defects live in histories of load, clean and load again.",
 [q,"promq/prom/postings.go","promq/prom/map.go"],[("per-series truncation and removal of empty series",q+":Clean"),("postings deletion","promq/prom/postings.go:memPostings.Delete")],None,["storage.Querier.Select, LabelNames, LabelValues"])
p("C04","Label listings name exactly the labels of the stored series",
 "At any point of any history of loads and cleans, the listed label names are exactly the label names of the series currently stored, and the listed values of a label are exactly the values it has in those series, without duplicates or internal names.",
 ["histories"],"every history of loads and cleans over any label sets, and every label name (known or not)",
 "No existing test lists labels.",
 [q,"promq/prom/postings.go"],[("iteration over the postings",q+":LabelNames, LabelValues")],None,["storage.Querier.LabelNames, LabelValues"])
x="promq/prom/indexer.go"
p("C05","The completion index holds exactly the metrics, labels and values ingested",
 "After any sequence of ingested series, the index reports exactly the metric names seen, for each metric exactly the label names (other than the metric name itself) seen with it, and for each metric and label exactly the values seen. Series without a metric name contribute nothing, repeats change nothing, and labels or values of one metric never show up under another.",
 ["histories","inputs"],"every sequence of ingested series, with repeats and in any order",
 "The existing tests ingest a handful of series once and in one order.",
 [x],[("nested metric/label/value store",x+":UpdateMetric"),("seen-hash filter",x+":isMetricPresent")],[("store","metric -> label -> values",x+":indexer.store")],["Indexer.GetMetricNames, GetStoredDimensionsForMetric, GetStoredValuesForMetricAndDimension"])
p("C06","Index reads are atomic snapshots that never interfere with ingestion",
 "Concurrent readers of the index see every series either completely or not at all within one read, see everything whose ingestion finished before the read began and nothing whose ingestion began after it ended. A returned collection never changes afterwards, and changing a returned collection never changes what the index reports. No schedule of concurrent reads and ingestion crashes or races.",
 ["schedules"],"every interleaving of concurrent ingestion and reads, with results kept and modified by the readers",
 "The existing tests use the index from one goroutine only.",
 [x],[("reader/writer lock",x+":metricNameMu"),("returned copies",x+":Get*")],None,["Indexer methods, race detector"])
m="promq/prom/multi.go"
p("C07","A failed scrape changes nothing, and every failure is reported",
 "When fetching data fails, the scrape returns an error wrapping the cause, stores none of the data (not even data that came with the error), indexes nothing and does not run the result callback; later successful scrapes behave as if the failed one had never happened. When evaluating the query or the callback itself fails, the scrape returns an error wrapping that cause, and the data fetched by it stays stored.",
 ["fault_sequences"],"every sequence of successful and failing scrapes, with failures of the source, of the query evaluation and of the callback in any order",
 "The existing tests have no failing data source or callback.",
 [m],[("early return before storing",m+":Scrape"),("error wrapping",m+":Scrape, ManuallyExecuteQuery")],[("storage","samples scraped so far",m+":PeriodicData.storage")],["return value of Scrape, callback invocations, query results, GetIndex"])
p("C08","Each successful scrape reports one result, over all data scraped so far",
 "Every scrape whose data could be fetched and whose query can be evaluated runs the result callback exactly once, before it returns, with the result of the query in force when its data had been stored, evaluated over exactly the data of all scrapes that stored theirs up to and including its own: an instant query at that moment, a range query at every interval of the configured window that ends at that moment. Concurrent scrapes never overlap: neither fetching nor reporting of one happens while another is fetching or reporting. No schedule of scrapes and query changes deadlocks or races.",
 ["schedules","histories"],"every interleaving of concurrent scrapes and query changes, at every point where the source or the callback is still busy; every window, interval and position of samples in it",
 "The existing tests run one scrape at a time from one goroutine.",
 [m],[("storage lock held over fetch, store and report",m+":Scrape"),("query lock",m+":queryMu")],None,["data source and callback invocations"])
p("C09","Changing the query is all-or-nothing and takes effect from then on",
 "Setting a query that is not valid PromQL returns an error and leaves the query in force unchanged; setting a valid one succeeds, never waits for a scrape that is busy fetching data or running its callback, and is the query every later result is computed from, until the next successful change.",
 ["inputs","schedules","histories"],"every sequence of valid and invalid query changes interleaved with scrapes (including while a scrape is in progress)",
 "The existing tests set one query once.",
 [m],[("validation before assignment",m+":SetQuery")],[("query","the query in force",m+":PeriodicData.Query")],["return value of SetQuery, results passed to the callback"])
d="cmd/metrics/metrics.go"
p("C10","Samples of several targets stay apart, and one bad target fails the scrape",
 "Every sample obtained from a target carries that target's URL as its instance label, replacing any instance label of its own, so the same series exposed by several targets stays distinct, and all samples of all targets are present. If any target cannot be fetched, answers with a status other than 200, or returns malformed data, the whole scrape fails with an error and none of its data is used or printed.",
 ["configurations","fault_sequences"],"any number of targets (also the same metrics on all of them), with any combination of healthy and failing targets over successive scrapes",
 "No existing test covers the HTTP sources or several targets.",
 [d,"promq/prom/parse.go"],[("sequential scrape with early return",d+":DataSources.ScrapePrometheusEndpoint"),("instance label",d+":httpSource")],None,["output and error of the command's Run"])
pa="promq/prom/parse.go"
p("C11","Exposition text is parsed all-or-nothing, with exact timestamps and labels",
 "Parsing an exposition yields one sample per sample line, in order, with the line's labels and value, its explicit timestamp if it has one and otherwise the scrape time in milliseconds; comments, metadata and blank lines yield nothing. Additional labels are set on every sample, replacing labels of the same name (an empty value removes the label). If any line is malformed the whole text is rejected, without any sample.",
 ["inputs"],"every sequence of valid and malformed lines (with and without labels, timestamps, comments, type and help lines) and every set of additional labels",
 "The existing tests parse two fixed documents; position and kind of a malformed line and label overrides are not varied.",
 [pa],[("loop over parser entries",pa+":ParseTextDataWithAdditionalLabels"),("label builder",pa+":ParseTextDataWithAdditionalLabels")],None,["ParseTextData, ParseTextDataWithAdditionalLabels"])
o="promq/prom/output.go"
p("C12","Every output format renders every sample of the result, or reports the error",
 "For each supported output format, rendering a result yields text from which the same samples (labels, timestamps and values, in order) can be read back, whether colored or not. A failed result yields its error and no text in every format, and an unknown format is rejected. Rendering never changes the result.",
 ["inputs"],"all results over small label sets, sample counts and values (including none, NaN and infinities where the format can express them), for every format",
 "The existing tests render a few fixed vectors in the prometheus format.",
 [o],[("format dispatch",o+":ToPrettyFormat"),("renderers",o+":ToPrettyJson, ToYaml, ToPrometheusFormat")],None,["ToPrettyFormat"])
p("C13","One-shot and list runs print exactly the scraped metrics, once",
 "Listing prints one line per distinct combination of metric name and label names found on the targets (leaving out the metric name and instance labels), sorted and without duplicates. A one-shot query prints exactly one rendered result, of the given query (everything, if none was given) over the targets' current samples, in the requested format, and nothing more is printed or fetched once the command has returned. If the targets, the query or the format are bad, an error is returned and nothing is printed.",
 ["configurations","inputs","schedules"],"all flag combinations (list, query, format, targets) over varying target contents, also with targets that answer slowly",
 "No existing test runs the command.",
 [d],[("command driver",d+":Run"),("name listing",d+":outputMetricNames")],None,["output stream and error of the command's Run, requests seen by the targets"])
e="promq/autocomplete/earley/earley.go"
p("C14","Completions do not depend on what was completed before",
 "The suggestions for a query and cursor position depend only on that query, that position and the current index: any sequence of earlier completion requests in the process (edits, deletions, unrelated or malformed queries, other completers) leaves them unchanged.",
 ["histories"],"every sequence of completion requests over arbitrary queries, including incremental typing, deleting, replacing and queries that cannot be tokenized",
 "The parser is incremental and shared; existing tests check a few hand-picked two-step edits, not arbitrary histories.",
 [e,"promq/autocomplete/earley/chart.go","promq/autocomplete/earley/luthor.go"],[("reuse of the chart of the common token prefix",e+":GetSuggestedTokenType"),("chart truncation","promq/autocomplete/earley/chart.go:resetChartBeforeIndex"),("token comparison","promq/autocomplete/earley/luthor.go:Compare")],[("chart and words","state sets and tokens of the previous request",e+":Earley")],["PromQLCompleter.GenerateSuggestions"])
g="promq/autocomplete/earley/promql.go"
p("C15","Suggested keywords and operators are exactly those the grammar allows next",
 "For every query prefix made of complete tokens, the offered aggregations, functions, operators, keywords and metric names are exactly those of the token kinds that some derivation of the supported PromQL grammar allows right after the prefix. After a prefix that the grammar does not allow, nothing is offered.",
 ["inputs","programs"],"every token sequence, viable or not, over all token kinds of the grammar",
 "Existing tests pin some dozens of prefixes; nesting and ambiguity make the set of prefixes infinite.",
 [g,e,"promq/autocomplete/earley/chart.go","promq/autocomplete/earley/stateset.go","promq/autocomplete/earley/luthor.go"],[("grammar rules",g+":promQLGrammar"),("predict, scan, complete",e),("valid terminals of a state set","promq/autocomplete/earley/chart.go:GetValidTerminalTypesAtStateSet"),("token classification","promq/autocomplete/earley/luthor.go:mapParserItemTypeToTokhanType")],None,["PromQLCompleter.GenerateSuggestions"])
c="promq/autocomplete/earley/completer.go"
p("C16","Label and value suggestions come from the metric and label they apply to",
 "Where a label name is expected, exactly the indexed label names of the metric the query refers to there (the last one named before) are offered; where a label value is expected, exactly the quoted indexed values of that metric and label; and nothing if the metric or label is unknown. With a partially typed word, exactly those offers that start with it remain, at metric, label, value and keyword positions alike, and a time unit is offered exactly after a bare number where a duration is expected.",
 ["inputs","histories"],"every query with label positions (selectors, grouping, matching clauses; several metrics) over every index content and every partial word",
 "Existing tests use one index and a few queries; the context is carried through the whole derivation of the query.",
 [c,"promq/autocomplete/earley/completion_context.go",e],[("context built while scanning","promq/autocomplete/earley/completion_context.go:BuildContext"),("index lookups and prefix filtering",c+":GenerateSuggestions")],None,["PromQLCompleter.GenerateSuggestions"])
p("C17","Completion is total: any text, any cursor, and only the text before it counts",
 "For every text and every cursor position in it, completion terminates without crashing, whatever characters the text contains and however malformed it is. The result does not depend on the text after the cursor, and apart from time units every offer starts with the partial word before the cursor.",
 ["inputs"],"arbitrary texts (any Unicode, unbalanced, unterminated, unlexable) with the cursor after any character",
 "Existing tests only complete well-formed ASCII queries, mostly at their end.",
 [c,"promq/autocomplete/earley/luthor.go",e],[("partial word extraction",c+":getPrefix"),("tokenizing around lexer errors","promq/autocomplete/earley/luthor.go:extractTokensWithOffset")],None,["PromQLCompleter.GenerateSuggestions"])
ad="cmd/metrics/autocompleter.go"
p("C18","Accepting a completion only ever extends the text typed so far",
 "In the interactive prompt, completion is requested for the text before the cursor regardless of the width or encoding of its characters, and everything offered is shown in the offered order with its details. Accepting any offer replaces only the partial word before the cursor, such that the text typed so far stays in place and is merely extended, and an empty input offers nothing.",
 ["inputs"],"every text (with multi-byte, wide and combining characters and any operators) and every cursor position in it",
 "No existing test covers the adapter between the prompt and the completer.",
 [ad,c],[("cursor translation",ad+":Complete"),("word separators",ad+":PromQLTokenSeparators")],None,["metrics.Completer.Complete on prompt documents"])
f="promq/autocomplete/filter.go"
p("C19","Filtering returns exactly the matching items, unchanged",
 "Prefix filtering returns exactly the items that start with the given text and fuzzy filtering exactly those that contain its characters in order, in the items' original spelling; ignoring case affects only the comparison. An empty text keeps everything, the given collection is not modified, and quoting maps each item to its quoted form.",
 ["inputs"],"all small sets of strings (mixed case, multi-byte), all filter texts, both modes",
 "The existing test filters two names once.",
 [f],[("filterSet",f)],None,["FilterPrefix, FilterFuzzy, Enquote"])
w="promq/term/wrapper.go"
p("C20","The prompt's text area behaves like a terminal of its size",
 "Text written to the prompt's area wraps at the right edge and scrolls the content up when it passes the last row; combining marks stay with their base character, control characters are dropped, wide characters are not split, and a newline blanks the rest of its line. Cursor movements stay inside the area, each erase operation blanks exactly its region, scrolling at an edge shifts the whole content by one row, and no sequence of operations, resizes included, crashes or touches any other cell.",
 ["histories"],"every sequence of writes, newlines, cursor movements, erases, scrolls and resizes, on every area size including empty and one-column ones",
 "The existing prompt tests run a few scripted sessions on one size.",
 [w,"promq/term/prompt.go"],[("text wrapper",w),("writer adapter","promq/term/prompt.go:cellWriter")],[("buffer and cursor","cells and zero-based cursor",w+":textWrapper")],["the console writer handed to the prompt, PromptView.FlushTo"])
tb="promq/term/textbox.go"
p("C21","A text box always shows the end of its wrapped content, whatever came before",
 "After any history of writes, resizes and draws, drawing a text box shows the last rows of its whole content wrapped to the current width, in the given styles, with everything else in its area blank. Drawing is repeatable, and a box without rows or columns draws nothing.",
 ["histories","inputs"],"every content (with newlines, wide and combining characters), every size and every earlier sequence of resizes, writes and draws",
 "Existing tests draw each box once per size with short ASCII text.",
 [tb,w],[("rewrite from the top on every draw",tb+":FlushTo"),("wrapping",w+":WriteString")],None,["TextBox.FlushTo"])
p("C22","Widgets draw only inside the area assigned to them",
 "In any layout, drawing a text box, graph or prompt only changes cells inside the area assigned to it, so sibling widgets never overwrite each other, for every content, every nesting of split views and every screen size, including areas too small for the content.",
 ["inputs","configurations"],"all contents, series (also flat, single-point, empty and extreme ones), labels, layouts and sizes",
 "Existing tests check a few fixed layouts on screens that fit them.",
 ["promq/term/graph.go",tb,"promq/term/prompt.go","promq/term/plot/axes.go","promq/term/plot/plot.go"],[("offset drawing","promq/term/graph.go:FlushTo, "+w+":FlushTo"),("margins and inner size","promq/term/plot/axes.go:EvenlySpacedTicks")],None,["cells set on the tcell screen"])
s="promq/term/split.go"
p("C23","Split views partition their area exactly",
 "Whatever the area, side, wanted dock size and percentage cap, the docked and the flexible pane together cover the area exactly, without overlap, on the proper sides. The dock has its wanted size, limited to the cap, to one less than the area, and to zero from below. Nested splits partition their own part, at its position on the screen.",
 ["configurations"],"all areas (also empty), positions, sides, dock sizes (also negative and oversized) and caps, nested",
 "Existing tests cover some fixed sizes.",
 [s],[("capDockSize, dockedBox, flexedBox",s)],None,["boxes passed to the panes"])
k="promq/term/keytobytes.go"
p("C24","Keys reach the prompt in order, none lost, special keys on their own",
 "For every sequence of key events and reads in any interleaving, the input delivered to the prompt is the translation of the keys in the order they were pressed, without loss or duplication: characters as UTF-8, and each special key (with its control or shift modifier) as the prompt's own code for that key, never in the same read as anything else. Keys the prompt does not know are skipped without disturbing the others, and reading without input reports that there is none.",
 ["histories","schedules","inputs"],"all sequences of character, special and unknown keys with all modifiers, and all interleavings of pressing and reading",
 "Existing tests type a few ASCII strings and some special keys.",
 ["promq/term/prompt.go",k],[("batching reader with leftovers","promq/term/prompt.go:screenParser.Read"),("key translation",k+":nonRuneKeyToBytes")],[("leftovers","special key read after characters","promq/term/prompt.go:screenParser.leftOvers")],["the console parser handed to the prompt"])
wp="promq/term/withprompt.go"
p("C25","The interactive prompt handles every entered line once, in order, until stopped",
 "The prompt starts asking for input once it is set up and has been given an area (in either order), submits the initial input if there is one, and from then on passes every entered line to the handler exactly once and in order, showing returned text before asking again. When the handler asks to stop, the shutdown function is called exactly once and no further line is handled; when the context is cancelled, running ends without an error.",
 ["schedules","histories"],"all sequences of placing, resizing, typing lines and handler decisions, in any order relative to the prompt's setup, with and without initial input",
 "Existing tests place the prompt once and enter few lines.",
 [wp,"promq/term/prompt.go"],[("start gate",wp+":SetBox, Run"),("input loop",wp+":Run")],None,["HandleInput, shutdown function, OnSetup, screen content"])
r="promq/term/runner.go"
p("C26","The event loop applies every event in order to the current view",
 "For every sequence of screen events, a resize passes the new size to the current view and redraws it, an update replaces the view, gives the new one the whole current screen and draws it on a cleared screen, a repaint redraws the current view, and a key reaches the key handler exactly once and redraws nothing; a replaced view is never resized or drawn again, and without a view nothing is drawn. Cancelling the context shuts the screen down and ends the run only after the event loop has finished.",
 ["schedules","histories"],"all sequences of resize, update, repaint and key events and the cancellation at any point, with and without an initial view",
 "Existing tests send single events.",
 [r],[("event loop",r+":Run"),("posted interrupts",r+":RequestRepaint, RequestUpdate")],[("mainView","the current view",r+":Run")],["SetBox/FlushTo of the views, key handler, screen"])
pl="promq/term/plot/plot.go"
p("C27","Plot axes cover all plottable data and keep the previous range",
 "The axes computed for a set of series extend from the smallest to the largest timestamp and from the smallest to the largest finite value of all series, extended further only by the base axes they start from; in particular, carrying over a previous range never shrinks the range and never cuts off data. Values that are not finite do not affect the range and are not drawn.",
 ["inputs","histories"],"all sets of series (empty ones, single points, non-finite values) and all histories of successive results with a carried-over range",
 "Existing tests plot one fixed series.",
 [pl,d],[("min/max accumulation",pl+":DataToPlatonicGraph"),("range carry-over",pl+":WithPreviousRange")],None,["DataToPlatonicGraph"])
ax="promq/term/plot/axes.go"
p("C28","Axis ticks always terminate, ascend and lie on the axes they label",
 "For any finite data, screen size and tick spacing, computing the ticks terminates with boundedly many of them; on both axes they start at the minimum, strictly ascend, stay within the axis bounds, carry the label of their own value and lie at the screen position which that value is plotted at. The domain axis always has its maximum labelled as well unless that falls on the same column as another tick, and the space left for the graph is the area minus the longest label and the axis line of each side.",
 ["inputs"],"all ranges and domains (flat, negative, tiny relative to their magnitude, single points), all sizes, spacings and label lengths",
 "Existing tests draw one data set at three sizes.",
 [ax],[("EvenlySpacedTicks",ax)],None,["EvenlySpacedTicks, DrawAxes"])
p("C29","Samples are drawn at their proportional position, and lines only between them",
 "Each sample is drawn at the screen position proportional to its time and (scaled) value within the axes, samples falling into the same column being averaged, and every such position is lit in the drawing in a colour of a series passing through that cell. Any other lit dot lies within the rectangle spanned by two consecutive samples of a series, and consecutive samples with rising values are joined without gaps.",
 ["inputs"],"all sets of series over small grids, all sizes, linear and non-linear monotonic scales",
 "Existing tests compare one drawing.",
 [pl,"promq/term/graph.go"],[("scaling",pl+":ScalePlatonicToScreen, ToScreen"),("line drawing",pl+":Render"),("braille packing",pl+":BrailleCellMapper, DrawBraille")],None,["ToScreen, Render, DrawBraille"])
p("C30","Plotted series are faithful, independent copies of the query result",
 "Converting a range result yields one series per result series, in order, with exactly its points, a title made of its label values in label order, and an identity that is never zero, depends only on the labels and so stays the same from one result to the next. Later changes to the result do not affect the converted series. A failed result or one of another type yields an error.",
 ["inputs","histories"],"all results over small label sets and point lists, with the result modified or reused afterwards",
 "No existing test covers the conversion.",
 ["cmd/metrics/data.go"],[("deep copy","cmd/metrics/data.go:PromResultToPromSeriesSet")],None,["PromResultToPromSeriesSet"])
p("C31","Set collections obey set algebra and never alias their operands",
 "For every element type, all operations of the set collections agree with mathematical sets: membership, insertion, deletion, union, intersection, difference, superset, equality, size, and listing each element once in ascending order; taking any element removes exactly that one. Operations that build a new set leave their operands unchanged and share nothing with them.",
 ["inputs","histories"],"all operation sequences over all small sets, for every element type",
 "The set package has no tests at all.",
 ["notstdlib/sets/string.go","notstdlib/sets/byte.go","notstdlib/sets/int.go","notstdlib/sets/int32.go","notstdlib/sets/int64.go","notstdlib/sets/uint64.go"],[("map-backed sets","notstdlib/sets")],None,["the sets API"])
p("C32","Interactive sessions plot what was last asked for, from all targets, until quit",
 "While an interactive session runs, all targets are scraped again and again, whatever fails in between. A valid query that is entered is acknowledged, and from then on the key and the graph show exactly the series of its results: one entry per series with its title, in the colour of the series' line, which it keeps; the axes cover everything plotted since that query was set and nothing older. Lines that are no valid query, unknown commands (lines starting with a colon) and empty lines are answered or ignored but leave the query in force; queries whose results cannot be plotted and failing targets leave the plot as it was. Completion offers what has been scraped. \":quit\" and \":q\" end the command without error and restore the terminal. Targets that cannot be read at the start make it fail.",
 ["inputs","histories","schedules"],"all sessions: histories of what the targets serve or fail with, of lines entered and of screen sizes, with windows shorter and longer than the session",
 "Nothing tests the command with a terminal; its parts meet only there: scraper, query engine, prompt, plot, key and layout.",
 ["cmd/metrics/metrics.go","cmd/metrics/data.go","cmd/metrics/autocompleter.go","promq/term/graph.go","promq/term/runner.go"],[("background scraping and query updates","cmd/metrics/metrics.go:Run"),("axes kept across results","cmd/metrics/metrics.go, promq/term/plot"),("key and layout","promq/term")],None,["the terminal's screen during MetricsCommand.Run"])
p("C33","The command does exactly what its flags and kubeconfig say",
 "Whatever order, number and spelling its flags are given in, a run of the command asks exactly the targets given (every -t is one URL, taken literally), or the metrics endpoint of the kubeconfig's current cluster if none is given, with the credentials and certificate checks of the kubeconfig's current context; it lists if asked to, and otherwise evaluates the query given last (everything, if none is given) and prints it in the format given last (JSON, if none is given). Asking for help prints the flags and asks no target. Results appear on standard output, with nothing on standard error, and the exit status is zero exactly if the run succeeded; an unknown flag, a missing or invalid value, an unusable kubeconfig and every failure of the run end it with an error on standard error and nothing on standard output, and without asking any target if the command line or kubeconfig was at fault.",
 ["inputs","configurations"],"all command lines made of the flags in their spellings, any number of times and in any order, with every kind of kubeconfig (from the environment, the home directory, several files, none, broken), certificate check and credentials",
 "Nothing tests the binary: flags, kubeconfig, client and exit status meet only there.",
 ["cmd/promq.go","promq.go","cmd/metrics/metrics.go","cmd/cli/flags.go"],[("flag definitions","cmd/promq.go:addFlags"),("kubeconfig to client","cmd/promq.go:Complete, toPromQCmd; cmd/metrics/metrics.go:getClient"),("targets","cmd/metrics/metrics.go:setupSources"),("exit status","promq.go:main")],None,["standard output, standard error, exit status and requests of the binary"])
p("C34","Debug logs only ever grow, and logging changes nothing else",
 "While the environment names an existing log directory, every process appends to the logs in it: one header line per log, one line in error.log for every nameless series given to the completion index, and what completing did in debug.log. Whole lines of all processes and goroutines stay apart, nothing that was logged is lost or overwritten, and a log that was taken away is started afresh. If no directory, an empty name, or one that cannot be used is given, nothing is logged. Whatever the environment says, nothing is written anywhere else (neither to standard output or error), and what the process answers and prints is the same. Closing the logs ends what they record, and nothing else.",
 ["inputs","configurations","schedules","histories"],"all histories of processes, one after another and at once, that log to one of several directories or to none, with logs taken away in between",
 "Tests run in one process without the variable set; the loggers are made while packages are initialised.",
 ["debug/log.go","debug/debug.go","debug/error/error.go","promq/prom/indexer.go"],[("opening logs","debug/log.go:NewDebugLogger"),("closing","debug/log.go:Teardown"),("records","promq/prom/indexer.go:UpdateMetric")],None,["error.log, debug.log, everything else in the process's file system","standard output and error, answers"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

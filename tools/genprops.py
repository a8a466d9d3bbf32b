#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept here so that entries stay uniform).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
CMD="pkg/monny/command.go"; HND="pkg/monny/handlers.go"; REP="pkg/monny/report.go"; CFG="pkg/monny/config.go"; PRS="pkg/monny/parse.go"
BUS="pkg/eventbus/bus.go"; EVT="pkg/eventbus/event.go"
p("C01","A monitored command's output passes through complete, in order, exactly once",
 "Every line the monitored command writes to its standard output (error) is echoed on the monitor's standard output (error) unmodified (up to a carriage return that belongs to the line end), in the order written and exactly once, and by the time the monitored run is over, when the command finishes on its own. This holds whatever the length of a line, however the bytes are split into reads, whether or not the last line is newline-terminated, and however the two streams interleave; lines never cross between streams.",
 ["inputs","schedules"],"all line contents/lengths and chunkings of two concurrent streams, all interleavings of the copying activities with process exit, and all timer interleavings",
 "The tests echo a few short lines from a real process; they do not reach long lines, split or coalesced reads, or interleavings of both copiers with process exit.",
 [CMD],[("scanner loops that echo each line",CMD+":Exec"),("wait for copiers before the end of the run",CMD+":Exec")],
 observe=["the writers configured for output","return of the run"])
p("C02","Exactly one correct completion report per finished command",
 "When the monitored command finishes on its own, exactly one completion report is produced: a success report when its exit status is zero and otherwise a failure report carrying the exit status as valid; never both, and none only when that kind of notification is disabled. The run ends after the command ended, finish is not before start, and the reported duration is their difference and never negative.",
 ["schedules","configurations","histories"],"all exit statuses, notification settings, output/timer events before the exit, and all interleavings of the monitor's goroutines",
 "The tests start one process per outcome with a mocked sender under one schedule; they cannot show that no interleaving drops, duplicates or mislabels the completion report.",
 [CMD,HND,REP],[("completion handler",HND+":Finished"),("report policy",REP+":Send")],observe=["reports received by the server"])
p("C03","No report is lost: waiting for exit waits for every report to be delivered",
 "Every report that the monitored run decided to send has been accepted by the report server, or given up only after the documented one-hour retry window, before waiting for outstanding reports returns. Transient failures, rejected acknowledgements and unreachable servers are retried, an accepted report is never sent a second time, and no sequence of server failures crashes or permanently blocks the monitor.",
 ["schedules","fault_sequences"],"all interleavings of the goroutines that send reports with the exit path, and all sequences of server answers (accept, reject, error, hang) to the first attempts",
 "The report tests use a mock sender and a mock connection; nothing exercises exit racing with a sender, retries, or the retry window.",
 [REP,CMD,HND],[("background sender with retry",REP+":sendBackground"),("wait for outstanding senders",REP+":wait")],observe=["server request log","return of Wait"])
p("C04","Kills happen only when due, once, and are reported with the right reason",
 "A command still running at its kill timeout, whose measured memory reaches the kill limit at a check, or for which the monitor receives a termination signal, is killed (the received signal is forwarded in the last case) and exactly one kill report is produced, carrying the killed flag and the reason that applies; no completion report is produced in that case. A command that stays below its limits is never killed, and the reported duration is finish minus start and never negative.",
 ["histories","schedules","configurations"],"all timelines of process exit, timers, memory readings and signals up to a bound, including ties, with all interleavings at each instant",
 "The tests call each handler once in isolation; ties between exit, timeout, memory check and signal and the virtual time at which each is due are not exercised.",
 [CMD,HND],[("event loop",CMD+":Exec"),("kill handlers",HND)],observe=["signals delivered to the process","server request log"])
p("C05","Time and memory warnings are sent when due, and at most once each",
 "A time warning is sent if and only if the command is still running at the configured warning time, and a memory warning if and only if a memory check made while it runs finds the measured memory at or above the warning limit; each at most once per run however often the condition recurs, and a warning never stops the command. The maximum memory reported is the largest value measured so far.",
 ["histories","schedules","configurations"],"all timelines of memory readings, warning times and exit up to a bound",
 "The tests call the warning handlers with a mock sender, so neither the sending policy behind it nor repeated conditions are exercised.",
 [HND,REP,"pkg/monny/memory.go",CMD],[("warning handlers",HND+":TimeWarning,CheckMemory"),("sampling timer",CMD+":Exec")],observe=["server request log"])
p("C06","Every rule match is reported in an alert, and matches cause no alert storm",
 "With alert rules and no rate limit configured, every line on either stream that matches a rule is contained in the match list of at least one alert delivered to the server by the time all reports are done, whatever reports are in flight when it appears. A line that matches no rule triggers no alert, so the number of alerts never exceeds the number of matching lines, no match that was never reported disappears from later reports, and what a delivered alert contained is not repeated in reports created after its delivery.",
 ["schedules","histories","inputs"],"all short sequences of matching and non-matching lines on both streams, and all interleavings of line processing with report sending and its completion",
 "The alert test sends one report from one goroutine; matches that arrive while an alert is being delivered are not exercised.",
 [CMD,REP],[("match accumulation and clearing",CMD+":processStdout,processStderr"),("clear after delivery",REP+":Send")],
 state=[("pending matches","matches not yet reported",CMD)],observe=["server request log"])
p("C07","Rate-limited alerts fire exactly when enough recent matches have accumulated",
 "With a match quantity configured, an alert is produced when a line matches and at least that many not yet reported matches exist (counting only matches no older than the configured period, when one is set), and none is produced while fewer exist. After a delivered rate alert the matches it contained no longer count.",
 ["histories","configurations","inputs"],"all sequences of matching lines with time gaps up to a bound, for all small quantities and periods",
 "The tests evaluate three fixed lists of match times; histories with gaps, boundaries at the period and reset after an alert are not covered.",
 [REP,CMD],[("rate computation",REP+":calcAlertRate"),("policy",REP+":Send")],observe=["server request log"])
p("C08","Reports carry the most recent log lines, up to the configured history",
 "The log history kept for each stream, and included in a report, is exactly the last N lines the command wrote to that stream in order (all of them if fewer were written; what is not valid UTF-8 is replaced), where N is the configured history for that stream; this holds for every N including 0 and 1, and no history setting crashes or stops monitoring.",
 ["inputs","configurations"],"all history sizes up to a bound and all line counts up to a multiple of it, for both streams",
 "The tests use one history size and never overflow it far enough to look at which lines were dropped.",
 [CMD],[("bounded append",CMD+":processStdout,processStderr")],observe=["reports","the command's recorded output"])
p("C09","Rules match exactly what they say, on any line, and never crash the monitor",
 "A plain rule matches a line if and only if its regular expression matches the line's text, and a JSON rule if and only if the line is a JSON object and the text form of the field at the dotted path (strings, numbers with six decimals, booleans, and lists of these joined by newlines, other elements ignored) matches; each match records the line and the positions of all occurrences, one match per rule. Any bytes on a line, including malformed or deeply nested JSON, null, numbers and mixed lists, are handled without failing.",
 ["inputs"],"all JSON values up to a bounded shape at every path, all malformed truncations of them, and all combinations of up to two rules",
 "The tests try a handful of JSON documents, none with lists of numbers, truncation or missing path elements.",
 [CMD],[("rule evaluation",CMD+":checkRule"),("field extraction",CMD+":extractTextFromJSON")],observe=["match list of reports"])
p("C10","Command line and YAML configuration are equivalent and mean what they say",
 "A setting given by a command-line flag and the same setting given in a YAML file produce the same configuration; a boolean set to false is the same as not set; every rule, JSON rule and expected file listed is applied exactly once, in whatever order the keys are processed; and unknown keys or malformed values are rejected with an error and never crash. The command to run and its own arguments, given after the -- separator, are passed through untouched.",
 ["configurations","inputs"],"all combinations of up to three settings from every supported flag/key with representative values, in both forms, with all key processing orders",
 "The tests parse a few fixed flag lists and three YAML documents; combinations, false booleans, several list keys together and key order are not covered.",
 [PRS,CFG],[("flag and YAML dispatch",PRS+":handleOption,parseFromFile")],observe=["resulting configuration","returned errors"])
p("C11","Configuration values are validated and converted correctly",
 "Memory limits given as a plain number or with K, M or G stand for that many, thousand-fold and million-fold kilobytes, durations, history sizes and quantities for their literal value, host:port for that server, and an explicit shell for the resolved shell; everything not set keeps its documented default. A malformed value, an invalid regular expression or a missing identifier is reported as an error and yields no usable command.",
 ["inputs","configurations"],"all values from a bounded grammar of well- and malformed literals for each option, alone and in pairs in both orders",
 "The tests check a few literals per option and never the interaction of options with defaults.",
 [CFG],[("options",CFG),("defaults",CFG+":newConfig")],observe=["configuration of the created command","returned errors"])
p("C12","A missing expected file is always reported; existing ones are listed",
 "When the command finishes on its own, for each expected file that does not exist exactly one file-not-created report is delivered whose messages name the file and which marks the run as unsuccessful, and each expected file that exists is recorded with its name, size and time; existing files never cause such a report.",
 ["configurations","schedules"],"all subsets of up to three expected files existing or not, all exit statuses, and all interleavings of the resulting report senders",
 "The test checks one existing and one missing file with a mock sender, under one schedule.",
 [HND,REP],[("file check",HND+":handleFileCreation")],observe=["server request log"])
p("C13","Reports are faithful, consistent snapshots of the monitored run",
 "Every report delivered carries the configured identifier, host name, command line, configuration, times, exit information and kill state of its run unchanged in their wire encoding (only what is not valid UTF-8 in texts is replaced), its reason is the event that triggered it, and its contents are a state the run actually went through at or after that event; once a report is built, later output or events do not change its contents, including across delivery retries. Building and sending reports is free of data races with the rest of the monitor.",
 ["schedules","histories","inputs"],"all interleavings of report construction with line processing, warnings and completion, up to a bound, and all field values from a small alphabet",
 "The test compares one report built from one static command; concurrent updates and retries are not exercised.",
 [REP,CMD,HND],[("snapshot under lock",REP+":Send,reportFromCommand")],observe=["server request log"])
p("C14","Every event reaches every matching subscriber exactly once, and no others",
 "An event dispatched while the bus is running is delivered exactly once to each subscriber, registered before the dispatch, of each topic it was addressed to, and to each subscriber without a topic, provided the subscriber keeps receiving; it is delivered unmodified, and never to a subscriber of other topics only. A topic nobody subscribed to drops the event without affecting others.",
 ["schedules","histories"],"all interleavings of up to three dispatchers and three subscribers with small topic sets",
 "The tests dispatch sequentially to one or two subscribers under the scheduler's usual order.",
 [BUS],[("fan-out goroutines",BUS+":Dispatch")],state=[("subscriber lists","channels per topic",BUS)],observe=["events received"])
p("C15","The event bus never crashes, races or deadlocks under concurrent use",
 "Any concurrent mix of subscribing to any number of topics, unsubscribing, dispatching, receiving and one shutdown completes without a panic, a data race or a deadlock, provided subscribers keep receiving until their channel is closed. Unsubscribing closes that subscriber's channel exactly once and no event is delivered to it afterwards.",
 ["schedules","histories"],"all interleavings of two to four threads performing up to two bus operations each",
 "The tests use the bus from one goroutine plus one subscriber; send racing with unsubscribe or shutdown is not exercised.",
 [BUS],[("lock",BUS),("closed-channel recovery",BUS+":Dispatch")],observe=["panics","blocked goroutines","data races"])
p("C16","Shutdown signals all subscribers and returns when they finished or time is up",
 "Shutdown closes every subscriber's channel, returns without error only after every registered subscriber has called its shutdown function, and otherwise returns the shutdown-timeout error no later than when its context ends, whatever the subscribers do. Events dispatched after shutdown has begun are dropped without effect, including events that subscribers dispatch while shutting down.",
 ["schedules","histories","fault_sequences"],"all interleavings of shutdown with dispatches and up to three subscribers that finish, finish late, dispatch while finishing, stop receiving, or never finish",
 "The tests shut down idle buses; in-flight events, subscribers that dispatch on shutdown and stalled subscribers are not covered.",
 [BUS],[("shutdown notification",BUS+":Shutdown,shutdownNotify")],observe=["return value and virtual time of shutdown","closed channels"])
p("C17","A stalled subscriber does not affect the others",
 "If one subscriber stops receiving, or improperly closes its event channel itself, dispatching still never blocks or panics, every other subscriber still receives every event addressed to it, and new subscribers can still join, leave and receive events.",
 ["schedules","fault_sequences"],"all interleavings with one subscriber stalled from any point on, more events than it can buffer, and any following operation",
 "No test has a subscriber that stops receiving.",
 [BUS],[("one goroutine per send",BUS+":Dispatch")],observe=["events received by the others","blocked operations"])
p("C18","Events carry their payload and type unchanged",
 "For every payload of a type that gob supports, decoding an event into a fresh receiver of that type yields a value equal to the payload (up to what gob does not distinguish: nil and empty, a pointer and what it points to), and the event keeps its type name; payloads do not share memory with the sender afterwards. Decoding into a receiver of an incompatible type, or creating an event from an unsupported payload, returns an error and never crashes, and an error event can be created from any error, carries its text and can be decoded into an error.",
 ["inputs"],"all values up to a bounded shape of the payload types, all pairs of payload and receiver types",
 "The tests round-trip two payloads and one wrong receiver.",
 [EVT,"pkg/monny/proc/errors.go"],[("gob encoding",EVT+":NewEvent,Decode")],observe=["decoded values","errors"])
p("C19","State machines only move along allowed transitions",
 "A machine starts in its initial state, a transition succeeds and changes the state exactly when the pair of current and requested state was allowed at construction, and a refused transition leaves the state unchanged and returns an error. A stoppable machine refuses every further transition after its first refused one until it is reset; reset restores the initial state and clears the stop; a machine without that option never stops.",
 ["histories","configurations"],"all machines over three states and all operation sequences up to a bound",
 "The tests walk a few fixed paths through one machine.",
 ["pkg/fsm/fsm.go","pkg/fsm/options.go","pkg/fsm/transition.go"],[("guarded transition","pkg/fsm/fsm.go:transition")],observe=["state","returned errors"])
p("C20","A nonce authorises at most one transition attempt",
 "A nonce-protected transition succeeds only when the current nonce is presented and the transition is allowed, and every attempt, successful or not, and every reset invalidates the nonce that was current: presenting it later is refused and leaves the state unchanged. Nonces are always present, 16 bytes of the system's secure random source, and never repeat as long as that source does not.",
 ["histories","inputs","fault_sequences"],"all operation sequences up to a bound presenting current, stale, mutated, truncated, empty and nil nonces, with the random source failing at any point",
 "The tests try a right and a wrong nonce once.",
 ["pkg/fsm/nonce.go"],[("single-use nonce","pkg/fsm/nonce.go:ok,Transition")],observe=["state","returned errors","nonce"])
p("C21","A series always holds its most recent observations in temporal order",
 "After any sequence of recordings and resets the values of a series of capacity n are the last min(n, count) observations recorded since the last reset, oldest first, padded with zeros at the end while fewer than n were recorded; the count is the number recorded since the last reset and the capacity never changes. Returned values are a copy: neither side sees later changes of the other.",
 ["histories","configurations"],"all operation sequences up to a bound for all small capacities and initial value lists, and long histories around multiples of larger capacities",
 "The tests record a handful of values into two series.",
 ["pkg/metric/series.go"],[("ring buffer index","pkg/metric/series.go:nextIndex")],observe=["values","count","capacity"])
p("C22","Counters count exactly, per window, and keep exactly the configured history",
 "A counter's value is the sum of what was added since the last reset. A windowed counter's value is the sum added within the current window and zero once that window is over (with window length zero it never is), its history lists the closed windows in order with their start, length and sum, restricted to the configured maximum age and then number of entries, and a returned history never changes afterwards. The empty windowed counter struct is a counter without windows.",
 ["histories","configurations"],"all sequences of additions, resets, reads and clock advances (to the inside of windows and past their end) up to a bound, for all history limits",
 "The tests sleep through one or two real windows with one setting each.",
 ["pkg/metric/counter.go"],[("window roll-over","pkg/metric/counter.go:Add"),("history filter","pkg/metric/counter.go:newHistory")],observe=["value","history"])
p("C23","Concurrent counters are linearizable and race-free",
 "Concurrent use of the concurrent counters from any number of goroutines is free of data races, panics and deadlocks, and every result is one that some sequential order of the calls, respecting real-time order, would give: no addition is ever lost or double counted. A history obtained by one goroutine is not changed by what others do later.",
 ["schedules","histories"],"all interleavings of up to three goroutines with up to two operations each, for both counter kinds",
 "The concurrency tests only run many additions and look at the sum at the end.",
 ["pkg/metric/counter.go"],[("lock around every operation","pkg/metric/counter.go")],observe=["results of concurrent calls","data races"])
p("C24","Sampled series aggregate each window's observations exactly once",
 "Every observation recorded into a sampled series contributes to exactly one sample, the one taken at the end of the window in which it was recorded, the sample is the configured transform of that window's observations or zero when there were none, and exactly one sample is recorded per elapsed window. Direct mode records every observation itself; stopping ends sampling and returns; and all of it is safe under concurrent use.",
 ["schedules","histories"],"all interleavings of recorders, readers, resets, the sampling timer and stop around window boundaries, and all short observation histories",
 "The tests sleep through two real windows with one recorder.",
 ["pkg/metric/sampled.go"],[("sampling goroutine","pkg/metric/sampled.go:NewSampledSeries")],observe=["values","count"])
p("C25","Metric names are canonical and independent copies",
 "For metadata whose keys are valid logfmt keys, the text form of a metric name depends only on its name and the set of its metadata and annotations, never on insertion or iteration order, different metadata give different text, and it parses back to the same pairs. A copy of a name is independent: adding metadata or annotations to either does not change the other, and any number of additions to any name, including one created without metadata, takes effect without crashing.",
 ["inputs","histories"],"all metadata sets over a small alphabet including characters that need quoting, in all insertion and map iteration orders, and all sequences of additions and copies up to a bound",
 "The tests marshal four fixed maps under whatever iteration order occurs.",
 ["pkg/metric/name.go"],[("sorted encoding","pkg/metric/name.go:MarshalText"),("copy","pkg/metric/name.go:NewNameFrom")],observe=["text form"])
p("C26","The alarm state machine of a statistic follows its documented life cycle",
 "Starting from bootstrap, a statistic begins testing its upper limit only after a full series of valid observations with positive mean and variance, alarms at the first tested value at or above the limit, and stays alarmed, ignoring further observations, until it is explicitly transitioned; after transition to the lower phase it behaves likewise for the lower limit. A reset restarts bootstrap from no observations, without error and without losing the next observation, disallowed transitions change nothing, and undefined transformed values are refused without any effect.",
 ["histories"],"all sequences of observations from a small alphabet and requested transitions up to a bound, for both distributions and both kinds of statistic",
 "The tests walk a single path per state with mocked parts.",
 ["pkg/stat/estimator.go","pkg/stat/state.go"],[("state handling of an observation","pkg/stat/estimator.go:Record")],observe=["state","alarm","value","limit","errors"])
p("C27","Control limits and test values follow the EWMA definition",
 "While testing, the current value is the exponentially weighted average, with the configured weight, of the bootstrap mean and the transformed observations since; the limit is the bootstrap mean plus (upper) or minus (lower) k times the square root of weight/(2-weight) times the bootstrap variance, computed from exactly the bootstrap series. The weight-one case alarms on single observations, and k comes from the configured error rate or fixed value.",
 ["inputs","histories","configurations"],"all bootstrap series over a small alphabet, weights, k settings, both distributions, followed by all short test sequences",
 "The tests compare the limit with fixed numbers for one series.",
 ["pkg/stat/estimator.go","pkg/stat/pdf.go","pkg/stat/k.go"],[("limit","pkg/stat/estimator.go:calculateLimit"),("EWMA update","pkg/stat/estimator.go:calculateCurrent")],observe=["value","limit"])
p("C28","A test combines its statistics: each sees every observation, any alarm counts",
 "Every observation recorded on a test reaches every one of its statistics, a requested transition is attempted on every one of them even if some refuse, the test is alarmed exactly when at least one statistic is, and its states and metrics list every statistic's own state, value and limit (statistics have different names) under distinct names that extend the test's name. Errors of single statistics are reported but do not make the statistics diverge from what each would do alone.",
 ["histories","configurations"],"all observation and transition sequences up to a bound on tests with up to three statistics of different settings",
 "The tests use default tests on one path; statistics in different states at the same time are not covered.",
 ["pkg/stat/stattest.go","pkg/stat/lognormal.go","pkg/stat/poisson.go"],[("fan-out","pkg/stat/stattest.go")],observe=["states","alarm","metrics","errors"])
p("C29","The log queue keeps the most recent lines in order",
 "A queue of capacity n always holds exactly the last min(n, added) lines added since it was created or cleared, in order, for every capacity including 0 and 1; a copy is an independent snapshot. It is safe under concurrent use: any interleaving of additions, copies and clears gives a result of some sequential order.",
 ["histories","schedules","configurations"],"all operation sequences up to a bound for all small capacities, and all interleavings of up to three goroutines",
 "The tests add a few lines to one queue of capacity three.",
 ["pkg/monny/proc/queue.go"],[("bounded add","pkg/monny/proc/queue.go:Add")],observe=["copies"])
p("C30","The log processor emits and echoes every line once, in order",
 "For each configured source, every line read is published as one log event with exactly that line's content (without the line end) and written once, newline-terminated and in order, to the sinks configured for that source and to no other, for all line lengths and read chunkings and both sources running concurrently. Waiting returns without error only after all sources were fully processed, otherwise with an error when its context ends; the options have the same effect in whatever order they are given.",
 ["inputs","schedules","configurations"],"all option combinations, stream contents and chunkings up to a bound, and interleavings of both sources with bus and waiter",
 "The tests process one short stream per configuration.",
 ["pkg/monny/proc/logs.go","pkg/monny/proc/logopt.go"],[("emitter","pkg/monny/proc/logs.go:startLogEmitter"),("option order","pkg/monny/proc/logopt.go")],observe=["events received","bytes written"])
p("C31","A ticker emits once per period until shutdown and then ends",
 "A ticker dispatches exactly one event of its type for every elapsed period as long as the bus runs, ignores other events on the bus, and after the bus shuts down dispatches nothing more, confirms its shutdown so that the bus can stop, and leaves no activity behind. A zero period creates no ticker.",
 ["schedules","histories"],"all interleavings of tick, other dispatches and shutdown around period boundaries",
 "The test counts ticks over a fixed real time and never looks past shutdown.",
 ["pkg/monny/proc/ticker.go"],[("ticker goroutine","pkg/monny/proc/ticker.go:NewTicker")],observe=["events received","activity after shutdown"])
p("C32","Random generators follow their distributions",
 "If the draws of its source are independent and uniform (normal), the samples of a Poisson generator have the Poisson distribution with the configured rate, the logarithms of the samples of a log-normal generator have the normal distribution with the configured mean and standard deviation, and successive samples of either are independent of each other.",
 ["inputs"],"the whole probability space of the draws of one or two samples, divided into small cells, for a set of rates, means and deviations",
 "A test can only sample; it would not notice a distribution that is off by a few percent, or dependent samples.",
 ["pkg/rng/lognormal.go","pkg/rng/poisson.go"],[("sampling algorithms","pkg/rng")],observe=["samples"])
p("C33","Error-rate based limits keep the configured false-alarm rate",
 "With k derived from an error rate between 0.001 and 0.05, the probability that a stable process (log-normal, or Poisson with a rate of 20 or more) raises an alarm within the 100000 observations after a bootstrap of 50 is of the order of that rate: for the EWMA weight 0.25 and for single values (weight one), at the upper limit at least half of it and at most ten times (EWMA of Poisson observations: five times) as high, at the lower limit at most that much. A lower error rate gives a lower probability.",
 ["histories","configurations"],"all histories of a stable process over the horizon, as the Markov chain of the tested value over all bootstraps, six error rates, both limits",
 "Probabilities of rare alarms over 100000 observations: a test would need thousands of runs of that length for each setting.",
 ["pkg/stat/k.go","pkg/stat/kconst_gen.go","pkg/stat/estimator.go","pkg/stat/pdf.go","pkg/stat/lognormal.go"],[("k from the error rate","pkg/stat/k.go:calculate"),("limit","pkg/stat/estimator.go:calculateLimit")],observe=["limit","value","alarm"])
p("C34","Piped standard input reaches the command",
 "When the monitor's standard input is a pipe, what arrives on it reaches the command's standard input complete, in order, exactly once and as soon as it arrives, followed by the end of input when the pipe ends (or fails), for as long as the command reads. Input that never ends, or that the command does not read to its end, never holds up the command's output, the end of the run, a kill that is due or a report. When standard input is not a pipe (a terminal) nothing is taken from it and the command sees the end of its input at once.",
 ["inputs","histories","schedules"],"all sequences and sizes of pieces of input, whatever the command reads of it, with all interleavings of the copying, the command and its end",
 "No test pipes anything into the monitor.",
 [CMD],[("copying of standard input",CMD+":Exec")],observe=["what the command read","time of the end of the run","reports received by the server"])
p("C35","Failures of the surroundings are contained",
 "A write of the echoed output that fails, memory information that cannot be read or understood, an unknown host name or kind of standard input, an expected file that cannot be inspected, and a server that fails at times are each survived, alone and together: the monitor does not crash, block or stop reading the command's output; the other stream, and the lines of the same stream whose writes do not fail, are still echoed; histories, rule matches, warnings, limits and reports are as without the failure (as far as the failed information is not itself their subject: an unreadable memory counts as no measurement). Failed writes are reported to the error service unless error reports are switched off, in which case nothing ever is. A command that cannot be started makes the monitor end at once with a message and a non-zero exit status and is never reported as a success.",
 ["fault_sequences","configurations","schedules"],"all patterns of failing and partial writes, all sequences of memory readings and failures, all subsets of faults at once, with all interleavings",
 "No test makes a write, a memory reading or the start of a command fail.",
 [CMD,HND,"pkg/monny/memory.go",CFG if "CFG" in globals() else "pkg/monny/config.go","pkg/monny/error.go"],[("echo and reading of output",CMD+":Exec"),("memory measurement","pkg/monny/memory.go:calculateMemory")],observe=["standard streams","reports received by the server","exit status"])
p("C36","Error reports carry no private data",
 "Whatever fails, no error report sent to the error service contains anything of the command's output, of what was matched or logged, of the command's arguments, of the values of the monitor's configuration (ID, rules, addresses, host names) or of the text of an undelivered report. With error reports switched off none is ever sent, whatever fails. Reports themselves, and connections made to deliver them, go to the configured server only, encrypted unless the configuration says insecure; nothing private goes to standard error either, other than the command's own echoed output and messages to the user about his configuration.",
 ["configurations","fault_sequences","inputs"],"all combinations of what can fail (delivery in every way, echo, memory, start, files) with private text in every place where the monitor keeps some",
 "No test looks at what is sent to the error service.",
 [REP,"pkg/monny/error.go",CMD],[("undelivered reports",REP+":deliver"),("error reports","pkg/monny/error.go")],observe=["error reports","connections dialed","standard streams"])
p("C37","Random generators follow their documented algorithm",
 "For every rate, mean and deviation and every sequence of random draws, the Poisson generator returns what Knuth's algorithm returns for the uniform draws it consumes (the number of draws, less one, until their product is at most e^-lambda): a finite whole number of at least zero, also for a rate of zero or one so large that e^-lambda is no longer representable; successive samples use successive draws, none twice and none left out. The log-normal generator returns exp(mean + deviation*z) of each successive normal draw z, always positive.",
 ["inputs"],"all sequences of draws from sets that include the extremes, over rates from zero to thousands",
 "Tests draw a thousand samples of few rates and compare the mean; a draw of zero or a rate beyond 745 never occurs.",
 ["pkg/rng/poisson.go","pkg/rng/lognormal.go"],[("Poisson sample","pkg/rng/poisson.go:Rand"),("log-normal sample","pkg/rng/lognormal.go:Rand")],observe=["samples","number of draws used"])
p("C38","Output and due reports are passed on at once",
 "As soon as the monitored command has written a complete line, the line is echoed, and by a log processor published and echoed (a last line without line end: at the end of the stream). With --daemon every report that is due (the alert of a matching line, a warning) is sent to a reachable server at once; without it no later than at the command's end. Kill, completion and missing-file reports are sent at once in both modes. Nothing of this waits for later output, for the command's end (except as said) or for other reports that cannot be delivered yet; the run ends as soon as the command has ended, and the monitor exits as soon as the outstanding reports were accepted or given up.",
 ["histories","schedules","fault_sequences"],"all sequences of pieces of output, pauses, memory growth, ends and server behaviours up to a bound, in virtual time, with all interleavings",
 "Tests look at what was written at the end, never at when; a delay, a buffer or a report stuck behind another one passes them.",
 [CMD,HND,REP,"pkg/monny/proc/logs.go"],[("echo of lines",CMD+":Exec"),("background delivery",REP+":sendBackground"),("emitting of log lines","pkg/monny/proc/logs.go:startLogEmitter")],observe=["time of every write on the standard streams","time of every delivery attempt","time of the exit"])
p("C39","The given command is run once, exactly as given, or not at all",
 "When the command line or configuration is refused, or only help is asked for, nothing is run, nothing is sent, a message is printed and, except for help, the exit status is not zero. Otherwise exactly the given command is run, once and directly (not through a shell), with exactly the given arguments and with the environment and working directory of the monitor; the monitor exits with status zero when the command has ended by itself (with whatever status) or was killed, and the reports are done. A command that cannot be started gives a message, an exit status other than zero and no success report.",
 ["inputs","configurations"],"all command lines of up to three options of 33 kinds and eight commands, all commands of up to four words that a shell or option parser might interpret, and all ends",
 "Tests parse a few command lines and run sleep and echo; they never look at what is executed with which arguments, nor at the program's exit.",
 [PRS,CFG,CMD,"cmd/monny/main.go"],[("command line",PRS),("start of the command",CMD+":Exec")],observe=["programs started with arguments, environment and directory","exit status","messages","reports received by the server"])
p("C40","Nothing that coincides makes the monitor race, crash or hang",
 "Whatever happens to the monitor at the same moment (lines on both streams with and without matches, growth and limits of memory, memory that cannot be read, time warning, kill timeout, signals, the end or crash of the command, input and its end, failing writes, the retry of a report), in whatever order its parts then run, and whatever the server answers: there is no data race and no crash, and the monitor ends. The same holds for two commands monitored by one program at the same time, each with all reports of its own, and for a log processor, a ticker and counters around one event bus that is shut down.",
 ["schedules","histories","configurations"],"all sets of up to five of 19 things that happen at one moment under the default schedule with race detection, and all schedules up to a bound for all pairs",
 "Tests start one thing at a time and are not run under the race detector with anything that coincides.",
 [CMD,HND,REP,"pkg/monny/memory.go"],[("event loop and copiers",CMD+":Exec"),("background delivery",REP+":deliver")],observe=["data races","exit of the monitor"])
p("C41","Nothing accumulates: long-lived parts hold no more after many uses",
 "However often the same things happen, a monitor with limited log histories, an event bus (also when subscribers come and go), a log processor, a ticker, a series, a counter with a limited history, a history queue, a state machine and a statistic hold no more memory, goroutines, tickers and connections to the server than after a few times; and when a run has ended and its reports are done, or such a part was stopped (shut down, done, unsubscribed), nothing of it is left running or open. Not covered are matches that were not reported yet, unlimited histories, events for a subscriber that takes none, and ever new topics.",
 ["histories","configurations","fault_sequences"],"all cycles of up to four operations on each part and of up to three things that happen to a monitor, repeated many times, with several behaviours of the server; all combinations of ends, faults and servers",
 "Tests run each part for a moment; what is leaked per event, report or subscriber shows after days.",
 [BUS,REP,CMD,"pkg/metric/counter.go","pkg/metric/sampled.go","pkg/monny/proc/queue.go"],[("subscribers and their confirmation",BUS+":subscribe,Unsubscribe,closeChannel"),("connection per attempt",REP+":sendBackground"),("history limits",CMD+":addHistory")],observe=["goroutines","tickers","connections","size of the objects"])
with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")

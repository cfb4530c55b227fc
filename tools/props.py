# The properties; gen.py writes properties.jsonl and MANIFEST.json from them.
# Entries with "na" are not claimed.

NOTES = ("Every check is an abstract interpretation or another dataflow analysis of the SSA form of /repo's current "
         "source; nothing of the repository is executed and no solver is used. See DESIGN.md.")

AI = ("abstract interpretation of the SSA form (conditional constant propagation with trace partitioning) "
      "with a typestate monitor")
NOTE = ("Exhaustive over the abstract paths of the current source: every outcome of every callback, directory read, "
        "filter, sort and child visit is considered, for every subscription. Trusted: golang.org/x/tools SSA, the "
        "interpreter in engine/, and that code outside of the module does not change the module's private state. "
        "Visits of children are summarised: they are assumed to do what the same check decides about the visit of an arbitrary node.")

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=kw.pop("technique", AI), note=kw.pop("note", NOTE), **kw))


NAV = ["internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go",
       "internal/kernel/navigator-agent.go", "internal/kernel/mediator.go"]
NAVM = [("visit of a node", "internal/kernel: Traverse of each navigator"),
        ("travel over the children, rescue of panics", "internal/kernel: navigatorAgent")]

P("P01", "Every visit is bracketed by one descend and one ascend",
  """During the traversal of a prime session every visit of a node is announced by exactly one descend notification, and closed by exactly
  one ascend notification for the same node; everything done for the node (reading and sorting its contents, invoking the
  client, visiting its children, asking the skip handler) happens between the two. The ascend notification is made on
  every way out of the visit, be it success, a skip, an error or a panic, and the depth the traversal tracks
  afterwards is the one it was before.""",
  ["inputs", "histories", "fault_sequences"],
  "all trees, subscriptions, callback outcomes (errors, skips, panics) and all positions in the tree",
  "Tests observe a handful of trees without faults; the bracket must also hold where a callback fails or panics at any node.",
  NAV + ["internal/level/periscope.go"], NAVM + [("depth tracking", "internal/level: Periscope")])

P("P02", "The depth limit is the deepest level that is visited",
  """With a depth limit of n, a node deeper than n is never visited, read, nor passed to the client, and every
  directory above that level whose contents were read successfully has its (sampled) entries visited; not recursing equals a limit of one,
  whatever the depth. Each child is visited at a depth one more than its parent's, and without a depth limit (or with one of zero) no node is
  left out because of its depth.""",
  ["inputs", "configurations"],
  "all trees and subscriptions; limits 0 to 3, around the powers of two up to 2^32, and the depths around each, enumerated in the analysis, the depth relation between parent and child for all depths",
  "Tests use one or two limits on one tree; the relation must hold at every level of every tree.",
  NAV + ["internal/level/periscope.go", "pref/options-navigation-behaviours.go"], NAVM)

P("P03", "The client is invoked once for each visited node it subscribed to",
  """The client is invoked exactly once for each visited node of the kind it subscribed to (files, directories or
  both), and never for a node of another kind; with a subscription for directories only, the files are not visited at all. The metrics of
  invoked files and invoked directories are increased by one precisely when the client is invoked for a node of that kind.""",
  ["inputs", "configurations"],
  "all subscriptions, all nodes, all outcomes of reading, sorting and visiting",
  "Tests check the totals of some trees; the gate must be right for every node on every path.",
  NAV + ["internal/kernel/guardian.go"], NAVM + [("client invocation and metrics", "internal/kernel: guardian, anchor")])

P("P05", "A filter decides exactly which nodes reach the client",
  """With a node filter in force, the client is invoked for a visited node of the subscribed kind if and only if the filter matched that same
  node. A node of the subscribed kind that the filter rejects increases the filtered-out metric of its kind by one and
  no other metric; its children are still visited.""",
  ["inputs", "configurations"],
  "all filters (the filter's answer is arbitrary), all subscriptions, all nodes",
  "Tests use a few patterns on one tree; the gate must hold whatever the filter answers and whatever else happens at the node.",
  NAV + ["internal/kernel/guardian.go", "internal/feat/filter/filter-plugin.go"], NAVM + [("filter role in the guard chain", "internal/feat/filter")])

P("P07", "An error that is not a skip request stops the traversal and reaches the caller",
  """When the client, or the visit of a child, fails with an error that is not a request to skip, nothing else is
  visited and the client is not invoked again; the same error is what the traversal returns. When the tree itself can't be
  queried, the fault handler is given that error, nothing is visited and the handler's answer is returned; an error reading a
  directory is what the skip handler is given.""",
  ["inputs", "fault_sequences"],
  "every node and depth at which an error can occur, every subscription",
  "Tests inject errors at one or two places; errors must surface from every one.",
  NAV + ["driver.go"], NAVM)

P("P08", "Skip requests skip exactly what they ask for",
  """fs.SkipDir returned by the client for a directory leaves out that directory's contents and nothing else (for a file, nothing outside of the directory the file is in), and
  fs.SkipAll ends the traversal without anything else being visited; neither is reported as a failure. The skip handler's
  decision (skip nothing, skip the directory, skip everything) has the same effects, and it can look at the contents it is given, be it for
  a directory or a file.""",
  ["inputs", "histories"],
  "every node, depth and subscription, and all outcomes of the handlers",
  "Tests try skips at particular nodes of one tree; siblings and ancestors must be unaffected wherever the skip is made.",
  NAV + ["driver.go", "pref/defects.go"], NAVM)

P("P09", "A panic is rescued once and becomes an error",
  """A panic raised while a node is visited, by the client or any other callback, never leaves the navigation: the panic
  handler is asked exactly once, the navigation returns an error, and nothing is visited afterwards.""",
  ["inputs", "fault_sequences"],
  "every callback and every node at which a panic can be raised, in a sequential navigation",
  "Tests panic at one node of one tree.",
  NAV + ["pref/defects.go"], NAVM)

P("P10", "Begin is announced first, end is announced last, each once",
  """A prime navigation announces begin exactly once, with the tree being navigated and before anything is visited, and announces end exactly
  once, after everything that is visited, on all outcomes including errors and panics. The result that is announced is non-nil and is the
  result that the caller receives.""",
  ["inputs", "fault_sequences"],
  "all outcomes of a navigation, for every subscription",
  "Tests look at successful navigations.",
  ["driver.go"] + NAV, [("announcing begin and end", "driver.go, session.go")])

P("P12", "Every listener of an event is told, in the order of registration",
  """When begin, end, descend or ascend takes place, each listener registered for it through the options is told exactly
  once, in the order of registration and with the same argument, before anything else happens to the traversal.
  With no listener registered the traversal goes on unaffected.""",
  ["histories", "configurations"],
  "all four events wherever they take place in a navigation; up to three listeners enumerated",
  "Tests register one listener per event; the order and completeness must hold wherever the event takes place.",
  ["internal/opts/binder.go", "life/events.go"], [("broadcasting to listeners", "internal/opts: Controls, life")])

P("P13", "A hook runs its default or tapped function, then what is chained to it",
  """Invoking a hook runs its default function, or the one it was tapped with, and then each function chained onto it in the order of
  chaining, each being given the result of the one before it together with the original arguments; the last result is that of the
  hook. Neither tapping nor chaining changes the hook's default function.""",
  ["inputs", "configurations"],
  "all the hooks, arbitrary functions, arguments and results; up to three functions chained",
  "Tests tap or chain one function with a particular result.",
  ["tapable/hooks.go", "tapable/broadcasters.go"], [("hook with default, tap and chain", "tapable: Hooks")])

P("P14", "Every option sets its own setting and nothing else",
  """Each public With... option sets exactly the setting it is named after to the value it is given, adds exactly the listener or hook it is given, and leaves
  all other settings as they were. IfOption, IfOptionF and IfElseOptionF apply precisely the option selected by their condition, and
  do not make the others.""",
  ["inputs", "configurations"],
  "all public options with arbitrary arguments",
  "Tests look at the setting an option is meant to change for one value, not at all of the others.",
  ["pref/options.go", "traverse-api.go"], [("options", "pref: With... functions")])

P("P16", "A session that can't be built reports why and does nothing",
  """The options of a session are applied once each in the order they are given, those that are nil being skipped and none being applied after one that fails;
  the error of the failing option is what Navigate returns. A session that lacks its tree, subscription, handler, restore path, strategy or forest, or
  that is given the other kind's facade, reports an error from Navigate. In all these cases the client is not invoked, nothing is read from the
  file system and no goroutine is started.""",
  ["inputs", "configurations", "fault_sequences"],
  "walk and run, prime and resume, every missing setting and every failing option",
  "Tests assert the error for some of the combinations, not that nothing has happened.",
  ["builders.go", "director.go", "driver.go", "pref/facade.go", "internal/opts/get-push.go"], [("validation and set up", "builders.go, director.go"), ("reporting", "driver.go: Navigate")])

P("P04", "Every entry of a directory is visited exactly once, in the right order",
  """When a directory's contents are read and nobody fails or asks to skip, each of its entries is visited exactly once (only the directories, for a
  directories subscription): the client is invoked for the directory first, then its sub directories are visited before its files, or after them when files sort
  first, each group in the order in which the sort hook leaves it. The node of each child has the parent's path joined with the entry's
  name, the parent as its parent, and the entry, info and error of its own entry.""",
  ["inputs", "configurations"],
  "directories of up to five entries in every mix enumerated, arbitrary names and info, every subscription and sort behaviour",
  "Tests compare the visits of some trees with fixed lists; an entry must not be lost, duplicated or misplaced in any directory.",
  NAV + ["internal/kernel/contents.go", "tapable/hooks.go"], NAVM + [("contents of a directory, their order", "internal/kernel/contents.go")],
  note=NOTE + " Bounded: directories of the listed shapes, of up to five entries.")

P("P21", "With directories-with-files the client gets the files the child filter admits",
  """With the subscription for directories with files, a directory's client invocation carries exactly those of its files that the child filter
  admits (all of them without one, and the opposite ones when it is negated), in order. The child-files-found and
  child-files-filtered-out metrics grow by the number of files admitted and left out, and by nothing when the client is not
  invoked for the directory.""",
  ["inputs", "configurations"],
  "every answer of glob and regex patterns for each file, negated or not, with and without a node filter, directories of up to three entries",
  "Tests use one or two patterns on one tree and don't combine them with each other.",
  NAV + ["internal/filtering/child.go", "internal/feat/nanny/nanny-plugin.go"], [("nanny", "internal/feat/nanny"), ("child filters", "internal/filtering")],
  note=NOTE + " Bounded: directories of the listed shapes, of up to three entries.")

P("P22", "Sampling visits the first or last so many children of each kind",
  """With sampling, each directory that is read has only its first (its last, in reverse) so many files and so many directories
  visited, in the order in which the file system lists them before they are sorted; a quantity of zero, or one beyond what is there, keeps all of that kind. With a sample
  filter the quantities are taken from the entries of the filter's scope that match, and entries of the other kind count as matching.""",
  ["inputs", "configurations"],
  "a directory of three files and three directories, quantities of nothing, some and beyond what is there, all answers of slice, glob, regex and custom filters, both directions, every subscription",
  "Tests use one quantity on one tree per mode.",
  NAV + ["internal/feat/sampling/sampling-plugin.go", "internal/filtering/sample.go"], [("sampling", "internal/feat/sampling")],
  note=NOTE + " Bounded: a directory of six entries, the listed quantities.")

P("P17", "Navigate refuses invalid filter definitions and accepts valid ones",
  """A filter definition that is not valid where it is given (of the type undefined or out of range, of a type that is not supported there, poly without valid parts, custom without
  a filter, a malformed regular expression, sampling without the quantity for its scope) makes Navigate return the error for just that, and nothing is read, visited or
  started. A valid definition gives a filter, which the sink (if there is one) is given before the traversal begins.""",
  ["inputs", "configurations"],
  "every filter type (and one out of range) for node, child, sample, wake and sleep filters, every combination of poly parts that matters; arbitrary patterns, well formed or not",
  "Tests try some of the combinations for some of the places that take a definition.",
  ["internal/filtering/builders.go", "internal/filtering/child.go", "internal/filtering/sample.go", "internal/feat/filter/schemes.go", "internal/feat/hiber/hibernate-simple-profile.go"],
  [("building filters", "internal/filtering"), ("reporting", "builders.go, driver.go")],
  note=NOTE + " Patterns of type glob-ex are parsed at run time, and are left out.")

P("P18", "A node filter answers by scope, pattern and negation",
  """A glob or regex node filter matches a node that shares a scope with it precisely if the pattern matches the node's name, or does not match it when negated; for any other
  node the answer is if-not-applicable, which is true unless it is defined as false. A definition without a scope applies to all nodes. The filter's description, source and scope
  are those of its definition.""",
  ["inputs", "configurations"],
  "all patterns, names and negations; nine scopes of the definition against six of the node, with and without a parent, each value of if-not-applicable",
  "Tests sample combinations with concrete patterns.",
  ["internal/filtering/base.go", "internal/filtering/glob.go", "internal/filtering/regex.go", "internal/filtering/builders.go"],
  [("node filters", "internal/filtering")],
  note=NOTE + " That a pattern matches a name is an uninterpreted relation, decided by path/filepath.Match and regexp; glob-ex is left out.")

P("P20", "A poly filter requires the file and its parent to match",
  """A poly filter matches a file precisely if the file part matches the file and, when the file has a parent, the directory part matches the parent; every directory
  matches. The scopes of both parts are made to include files and directories respectively (and not the other), whatever scope they are defined with; the filter
  applies to the files that its file part applies to, and its scope is that of both parts.""",
  ["inputs", "configurations"],
  "all patterns, names and negations; parts of type glob and regex, four combinations of scopes and each value of if-not-applicable, with a parent (of three scopes) and without",
  "Tests sample combinations with concrete patterns.",
  ["internal/filtering/poly.go", "internal/filtering/builders.go"], [("poly filter", "internal/filtering: Poly")],
  note=NOTE + " That a pattern matches a name is an uninterpreted relation.")

P("P23", "Hibernation invokes the client between waking and going to sleep",
  """With hibernation the client is invoked for no node until the wake filter first matches (from that node on, or the next one when waking is exclusive), then for each until the
  sleep filter matches (that node left out, unless sleep is inclusive), after which the traversal ends. Waking and going to sleep are announced once each; without a wake filter it starts awake, without a sleep
  filter it stays awake; and a node filter is asked only about the nodes that get past hibernation.""",
  ["histories", "inputs", "configurations"],
  "every sequence of answers of wake, sleep and node filters along trees of up to three entries, each subscription, inclusive and exclusive",
  "Tests use one or two pairs of patterns on one tree.",
  ["internal/feat/hiber/hibernate-simple-profile.go", "internal/feat/hiber/hibernate-plugin.go", "internal/kernel/guardian.go"],
  [("hibernation", "internal/feat/hiber"), ("decorators of the client", "internal/kernel/guardian.go")],
  note=NOTE + " Bounded: trees of up to three entries.")

P("P24", "What is saved comes back unchanged when it is loaded",
  """Every setting that a resume needs (behaviours, sampling, filter definitions with their poly parts, hibernation, number of workers) and every field of the active state
  has, when it is loaded, the value it had when it was saved, whatever that value is. Whatever is encoded is decoded again: no field is left out, unexported or shares
  its key with another.""",
  ["inputs", "configurations"],
  "arbitrary values of every setting; no definitions, all of them, and with poly parts nested twice",
  "Tests save and load some definitions, and tamper with one field at a time.",
  ["internal/persist/json-options.go", "internal/persist/marshaler.go", "internal/opts/json/options.go", "internal/opts/json/filter-options.go", "core/core-defs.go"],
  [("conversion", "internal/persist: ToJSON, FromJSON"), ("saving and loading", "internal/persist: Marshal, Unmarshal")],
  note=NOTE + " encoding/json is trusted to decode what it encoded, for types that obey the type rule. Bounded: poly parts nested twice.")

P("P25", "Nothing is saved unless it was found to be what was asked for",
  """Options are found equal to their saved form precisely if every setting that is saved is equal in both and both have the same filter definitions.
  Saving writes nothing unless it found them equal, and reports whatever fails on the way: the comparison, the encoding or the writing.""",
  ["inputs", "configurations", "fault_sequences"],
  "a difference in any one setting, arbitrary values; any definition missing on either side",
  "Tests change one field at a time, for some of the fields.",
  ["internal/persist/comparison.go", "internal/persist/marshaler.go"],
  [("comparison", "internal/persist/comparison.go")], note=NOTE)

P("P26", "Fastward invokes the client from the resume point on",
  """A fastward resume traverses the tree that was saved and invokes the client for no node before the one that was saved as the resume point, and for that node and each one after it that is
  subscribed to. Until then the node filter is asked nothing and nothing is announced about directories; from then on descending, ascending, waking, going to sleep and the end are announced
  again, and a session that was waiting to wake up, awake or asleep again when it was saved still is. A resume that nothing stops ends without an error.""",
  ["histories", "inputs", "configurations"],
  "every position of the resume point in trees of up to three entries, subscriptions, filters and hibernation; however the tree's path is written",
  "Tests resume from two or three points of one tree.",
  ["internal/feat/resume/strategy-fastward.go", "internal/kernel/guardian.go", "internal/kernel/mediator.go"],
  [("fastward", "internal/feat/resume/strategy-fastward.go"), ("decorators of the client", "internal/kernel/guardian.go")],
  note=NOTE + " Bounded: trees of up to three entries. The resume point is taken to still exist; after a Files subscription it is a file.")

P("P27", "Spawn visits what remains from the resume point on",
  """A spawn resume invokes the client for the resume point and for every node that follows it in the order of traversal, for each once, in that order and for no other. Each node has its depth in the
  original tree, and sub paths are relative to that tree, as if the traversal had not been interrupted. A request to skip a directory
  is honoured as it is without an interruption; the client's error ends the resume and is returned, skip all ends it without one.""",
  ["histories", "inputs", "configurations"],
  "every node as the resume point in a tree of four levels, each subscription, files or directories first, absolute and relative file systems",
  "Tests resume from a handful of points, and count the nodes.",
  ["internal/feat/resume/strategy-spawn.go", "internal/kernel/mediator.go", "internal/kernel/extend.go"],
  [("spawn", "internal/feat/resume/strategy-spawn.go"), ("starting further down", "internal/kernel/mediator.go: Spawn")],
  note=NOTE + " Bounded: one tree with four levels and twelve entries. The resume point is taken to still exist, and the tree to be unchanged.")

P("P28", "An interrupted session is saved as it was",
  """When processing a node panics, what is saved is that node's path as the resume point, whether it is a directory and its depth, the session's tree, subscription and hibernation state,
  and whether its file systems are relative. The same holds for a session that was itself resumed, with respect to the original tree. It is saved in the resume file system, and the error
  that Navigate returns tells where, or that it could not be.""",
  ["histories", "configurations", "fault_sequences"],
  "a panic in any call into the client's code (client, filters, hooks, sampling, handlers) at any node; relative or absolute file systems; any step of saving fails",
  "Tests panic in the client for one node, and look whether a file exists.",
  ["internal/kernel/mediator.go", "internal/kernel/builder.go", "internal/persist/marshaler.go"],
  [("saving on panic", "internal/kernel, internal/persist/marshaler.go")],
  note=NOTE + " Bounded: a session that was itself resumed has a tree of three levels.")

P("P40", "Each node carries its place in the tree",
  """Before it is shown to the client, each node gets its depth (zero for the tree, one more than its parent's for any other), its name and the directory it is in (as filepath.Split makes of its path), and whether
  it is a leaf (a directory without sub directories). Its scope is leaf and file for a file; for a directory it is directory and, by level, tree, top, or intermediate if it isn't a leaf, as well as leaf if it is one.
  Its sub path is what the hook for its kind answers, given the session's tree and the node so described, without the trailing separator unless that is kept; by default what follows the tree in the path of the directory that the node is in.""",
  ["inputs", "configurations"],
  "each node of a tree of four levels for each subscription, directories at any of a grid of levels, any answer of the sub path hook out of five; arbitrary paths for the default sub path",
  "Tests look at the depth and the sub path of a few nodes, whose paths are ASCII.",
  ["internal/kernel/extend.go", "internal/level/periscope.go", "pref/defaults.go"],
  [("extension", "internal/kernel/extend.go"), ("default sub path", "pref/defaults.go")],
  note=NOTE + " The default sub path is decided symbolically, as a path put together of the tree's and what follows it. Sessions without sampling.")

P("P29", "A resume that can't be loaded reports why and visits nothing",
  """When a resume can't load its saved session, because the file can't be read or decoded, lacks its options or active state, one of the settings of the resume fails, the client's forest is nil or incomplete, or its file
  systems aren't relative or absolute as those of the saved session were, Navigate returns that reason, the first in this order, without a panic, and nothing is visited. Otherwise the saved tree is traversed with the options
  that were saved, to which the resume's settings are applied once; a concurrent one has the saved number of workers.""",
  ["inputs", "configurations", "fault_sequences"],
  "each failure of loading, each defect of the forest, both strategies, sequential and concurrent",
  "Tests resume from a handful of well formed files, with a forest that fits.",
  ["scaffold.go", "extent.go", "internal/persist/marshaler.go", "internal/opts/load.go"],
  [("loading", "scaffold.go: newResumePlatform, internal/persist: Unmarshal")],
  note=NOTE + " Decoding is modelled as either failing or giving arbitrary options and active state; which options survive is P16's to say.")

P("P30", "A concurrent navigation executes one job for each node",
  """A concurrent navigation (Run) submits to its worker pool one job for precisely each node the client is to be invoked for, and a worker invokes the client's handler once for each job, whose output tells
  the node and the handler's error. The pool has the sizes and output that were asked for and is ready before anything is visited; its input is closed once on every way out, the pool isn't released while jobs remain to be
  executed, and no node is changed after it was submitted, nor does the library change anything its workers use without a lock in common. Cancelling the context ends the navigation with its error, without blocking.""",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "each subscription, arbitrary sizes, with and without output; failures to read and panics; cancellation at any job",
  "Tests look at whether a concurrent session ends without error, not which nodes the workers were given, and schedules vary.",
  ["synchronise.go", "internal/kernel/guardian.go", "internal/kernel/mediator.go"],
  [("concurrent navigation", "synchronise.go: concurrent")],
  note=NOTE + " Bounded: a tree of three entries and two levels. The worker pool itself (snivilised/pants) is trusted to execute what it is given until it is released; jobs are accounted for by counters of sync or sync/atomic.")

P("P06", "Features combine in one order, whatever order they are given in",
  """However many of the features are active together (fastward resume, hibernation, a node filter or child filter, sampling), the nodes visited are those in the sample and each passes the others in the same order: the resume
  point, hibernation, the filter, the client. None is asked about a node that did not get past those before it, and the client is invoked precisely for the nodes that get past all of them. Neither the order of
  the settings nor the order in which maps are ranged over makes a difference.""",
  ["configurations", "inputs", "schedules"],
  "each combination of two or more features, the settings in either order, every order of ranging over maps, whatever each feature answers for each node",
  "Tests combine at most two features, and the order of ranging over a map is random at run time.",
  ["manifest.go", "builders.go", "internal/kernel/guardian.go", "internal/kernel/mediator.go"],
  [("order of the features", "manifest.go: manifest, internal/kernel/guardian.go")],
  note=NOTE + " Bounded: trees of five entries and two levels; samples of one file and one directory; hibernation without a sleep filter.")

P("P41", "Every navigation has a result that tells what happened",
  """Whatever becomes of a session (it completes, can't be built, can't be loaded, its client fails or panics), Navigate returns a result together with the error, and its metrics can be read. For each kind of node the result
  tells how often the client was invoked and how many nodes the filter left out, and zero for a session in which nothing was visited. The metrics of a spawn resume continue from those that were saved.""",
  ["histories", "fault_sequences", "configurations"],
  "each subscription, with and without a filter, failures and panics at any node, sessions that can't be built, concurrent and resumed ones",
  "Tests read the metrics of sessions that complete; the result of one that failed in some other way is not looked at.",
  ["internal/enclave/kernel-result.go", "internal/enclave/supervisor.go", "core/metrics.go", "internal/kernel/navigator-hades.go", "synchronise.go"],
  [("result", "internal/enclave: KernelResult, Supervisor"), ("metrics", "core/metrics.go")],
  note=NOTE + " Bounded: a tree of three entries and two levels. What a fastward resume counts on the way to its resume point, and the node whose job a cancelled concurrent navigation could not send, are left open.")

P("P42", "Entries are visited in the order of their names, with case as the client asks",
  """Unless the client has a sort hook of its own, the sub directories of a directory are visited in the order of their names, and so are its files, on their own or handed over with their directory.
  Case makes a difference to the order precisely when case sensitive sorting has been asked for, by the sort behaviour or by the hook for it, also of a resumed session and of options given.""",
  ["inputs", "configurations"],
  "names of entries, which are arbitrary, and ways of asking for an order",
  "Tests have names in lower case only, that are sorted already when they are read.",
  ["pref/defaults.go", "pref/options.go", "internal/kernel/contents.go", "pref/options-hooks.go"],
  [("sort hooks", "pref/defaults.go"), ("sorting", "internal/kernel/contents.go"), ("default hooks", "pref/options.go")],
  note="Decided by looking into the sorting algorithm with symbolic names: each path's comparisons have to imply the order in which entries are visited. Bounded: directories of up to 5 entries, up to 4 of a kind. "
       "Not judged: the order of names that differ in nothing but case, when case makes no difference, and whether names are folded to lower or to upper case.")

P("P43", "The result tells of its session, when it began and how long it took",
  """Whichever way a navigation ends, by completing, by a failure, a panic or a cancellation, or because its session could not be built, its result tells of the session. The session began when the navigation was asked for, before anything
  else happened, and took as long as there was from then until the last thing that happened in it. How long it took doesn't change once it has ended: the listener of its end is told what anyone asking later is.""",
  ["fault_sequences", "configurations", "histories"],
  "sessions of each scenario, those that can't be built included, with a client that fails or panics at any node, whenever they are asked",
  "Tests that look at the session discard what it says; how long something takes differs from run to run.",
  ["session.go", "driver.go", "internal/enclave/kernel-result.go", "internal/kernel/navigator-hades.go", "extent.go"],
  [("timing", "session.go"), ("results of sessions that can't be built", "internal/kernel/navigator-hades.go: navigatorHades.Result")],
  note="Readings of the clock are symbolic: each names the last thing that had happened when it was taken, so no bound on durations is needed. Bounded: a tree of 3 nodes below its root. Whether a session says that it is complete is not judged, other than that it can be asked.")

P("P33", "Sessions that run at the same time don't disturb each other",
  """Sessions that are independent of each other (each with its own options and handler) can be built and navigated by different goroutines at the same time: nothing that a session writes can be reached by another session,
  unless every use of it is guarded by one lock that both of them share. What package level variables lead to is otherwise only read once the program is initialised.
  No session ends with such a lock held.""",
  ["schedules", "configurations", "histories"],
  "every interleaving of any number of sessions, whatever features each of them uses",
  "Tests navigate one session at a time, and whether two that overlap collide depends upon the schedule.",
  ["driver.go", "internal/services/broker.go", "internal/third/bus/broker.go"],
  [("what sessions share", "internal/services/broker.go: Broker, internal/third/bus/broker.go"), ("package level variables", "every package of the library")],
  technique="lock-set analysis of shared locations over abstract interpretation of sessions, and an interprocedural effect analysis of writes to package level variables over the SSA form",
  note="What a client hands to two sessions alike (one options object, one filter definition) is the client's to guard. Objects of other libraries are trusted to guard themselves; what is appended to a shared slice in place is not analysed.")

P("P38", "A composite runs precisely the scenario that its arguments ask for",
  """What Hydra, Hare, Tortoise and Goldfish set up from their arguments does precisely what the scenario (Walk or Run, Prime or Resume) does that its arguments ask for: whichever facade and settings it is given, the same file is
  read, the same settings are applied, the same is announced and visited in the same order, with the same outcome. The wait group is the one that a concurrent scenario's pool is given, whichever way it is set up. A facade that doesn't
  belong to the scenario fails in the same way.""",
  ["configurations", "inputs", "fault_sequences"],
  "each composite with all of its arguments, the right and the wrong facade, both resume strategies; a client that fails at any node",
  "The tests of the composites look at neither the result nor what is visited.",
  ["composites.go", "factories.go", "director.go"],
  [("composites", "composites.go: Hydra, Hare, Tortoise, Goldfish")],
  note=NOTE + " Bounded: a tree of three entries and two levels. What the scenarios themselves do is judged by the other properties.")

P("P37", "Options given to a session are used as they are, and can be used again",
  """A session given ready-made options, of any kind, makes the calls and reports the result that a session with the settings they were made from does.
  That holds for options not used before as well as for ones that other sessions have used, whatever became of those, and if the client changes the options in between, for the options as changed.""",
  ["histories", "configurations"],
  "kinds of options, histories of up to three sessions that share them, and paths of each of those",
  "A preview followed by the real traversal is what the field is documented for, while tests give options to a single session, without listeners.",
  ["pref/facade.go", "internal/opts/get-push.go", "scaffold.go", "life/events.go", "internal/feat/filter/scheme-sampler.go", "internal/feat/sampling/sampling-plugin.go"],
  [("given options", "pref/facade.go"), ("session's options", "internal/opts/get-push.go"), ("listeners", "life/events.go")],
  note="Decided by comparing sets of abstract paths, each with the metrics and error at its end, of sessions over a tree of two levels. Bounded: 15 kinds of options; at most two of the sessions that were second give the options on to a third. "
       "Not judged: options shared by sessions that run at the same time, and settings passed beside ready-made options, which are documented not to be needed.")

P("P39", "Every enumerated value has a name of its own",
  """The name that each declared value of an enumeration gives itself is the one that its declaration states, and no other declared value of
  that enumeration has it. A value that isn't declared is never given the name of one that is. Asking any value for its name
  never panics.""",
  ["inputs"],
  "each declared value of each enumeration, the values next to them, zero and the largest ones",
  "Names appear in logs, in saved states and in messages; the tests look at only a few of them, and a table that is out of step goes unnoticed.",
  ['enums/entry-type-en-auto.go', 'enums/filter-scope-en-auto.go', 'enums/filter-type-en-auto.go', 'enums/glob-ex-en-auto.go', 'enums/hibernation-en-auto.go', 'enums/internal-role-en-auto.go', 'enums/metric-en-auto.go', 'enums/notification-en-auto.go', 'enums/persistence-format-en-auto.go', 'enums/resume-strategy-en-auto.go', 'enums/role-en-auto.go', 'enums/sample-type-en-auto.go', 'enums/skip-traversal-en-auto.go', 'enums/subscription-en-auto.go', 'enums/tri-state-bool-en-auto.go', 'enums/way-point-en-auto.go'],
  [("names", "enums: String methods and their tables")],
  note="Decided by constant propagation through the initialiser's tables and each String method. Bounded: undeclared values are the neighbours of the declared ones, zero and 2^31-1; "
       "the stated name is the one word comment beside a constant's declaration, where there is one.")

P("P34", "Errors can be told apart, and say what they are about",
  """Each predicate (Is...Error) accepts precisely the errors that it is named after, also when context has been added to them, and no error that the library declares is taken for another one. What an error
  is made from is part of what it says. Every message has an identity and a text of its own, what the text refers to is there and supplied, and all that the message is given is said.""",
  ["inputs"],
  "every pair of errors and predicates that are declared, errors made from any values",
  "The tests ask each predicate only about its own error, and look at texts of a few.",
  ["locale/messages-errors.go", "locale/messages-general.go", "locale/words.go", "core/errors.go", "stock/error.go", "internal/filtering/errors.go", "internal/feat/filter/errors.go", "collections/errors.go"],
  [("errors", "locale: messages-errors.go; core: errors.go"), ("messages", "locale: Message methods")],
  note="Decided by abstract interpretation of each constructor, predicate and Message, Error and Unwrap method, with errors.Is and errors.As over the wrapping that results. Trusted: the standard library's and "
       "pkg/errors' wrapping, and that a translation replaces no more than the text. A predicate's errors are found by name; those of IsCoreResumeFsMismatchError and IsCorePanicOccurredError are listed in the check.")

P("P35", "An extended glob filter decides by directory, extension and exclusion",
  """For a pattern "<directory glob>[/<exclusion>]|<ext>,..." a file matches, in spite of case, if one of the extensions (written "jpg", ".jpg" or "<base glob>.jpg") matches its name, or, where "!" excludes extensions, if none of those excluded does; negation inverts that.
  The filter applies to files only, those whose parent directory's name matches the directory glob and not the exclusion; what it doesn't apply to gets the answer defined for that case. A pattern without "|", or with a part that has no extension, is reported by Navigate.""",
  ["inputs", "configurations"],
  "any name of file and parent, patterns of every form, negated or not, each answer for when the filter isn't applicable",
  "The tests walk one tree of names with a few patterns; the answer must be right for any name, in any case, and for lists of exclusions.",
  ["internal/filtering/glob-ex.go", "internal/filtering/builders.go", "internal/filtering/base.go", "enums/filter-type-en.go"],
  [("extended glob", "internal/filtering/glob-ex.go, builders.go")],
  note=NOTE + " Bounded: about 85 patterns that take each form of each part. filepath.Match is an arbitrary relation; functions of package strings and regexp with constant arguments are computed. "
       "Not judged: lists that both include and exclude, for a name that both or neither of them match.")

P("P36", "Containers answer as the set, stack and sequence they are",
  """A positional set holds its anchor and the items inserted and not deleted since, of those it was made with, in the order it was made with; inserting says whether it did. A stack gives what was put onto it last, first, and says so when it is empty.
  An iterator gives each item once in its direction, is valid while it has a current item, gives the zero value after the last one, starts over when reset, and runs through the items for as long as it is told to go on.""",
  ["histories", "inputs"],
  "histories of operations, in any order, on containers of any content",
  "Traversals and clients use them in ways that the tests' few sequences of calls don't take, such as asking for items between changes or running an iterator twice.",
  ["collections/positional-set.go", "collections/stack.go", "collections/iterators.go"],
  [("positional set", "collections/positional-set.go"), ("stack", "collections/stack.go"), ("iterators", "collections/iterators.go")],
  note="Decided by abstract interpretation of the containers' methods, instantiated for strings in a file that exists only while loading the source, along each history. Bounded: histories of up to 3 operations on sets of up to 4 items, "
       "of up to 5 on stacks of up to 3 and iterators over up to 3. Not judged: whether slices handed in or out are shared.")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

PROC = "ripsrc/history3/process/process.go"
INC = "ripsrc/history3/incblame/"
REPO = "ripsrc/history3/process/repo/"

p("C01", "Reconstructed file content equals what git stores",
  "For every commit that history processing delivers and every file it reports there, the reported lines are exactly the lines of that file in that commit's tree (trailing carriage returns aside, never reordered, duplicated, lost or altered). A removed file is reported with no lines, and a file is reported as binary exactly when git's patch for it is binary, when it is an untouched continuation of such a file, or when it comes out of a merge where its version or a differing parent's version was binary. No repository makes the run panic or fail.",
  ["histories", "inputs"], "every git history (merges, octopus merges, several roots, renames, copies, mode and type changes, empty files, missing final newlines, arbitrary bytes that look like patch syntax, long lines, any legal path name) processed from the start",
  "The unit tests replay about forty fixed tiny repositories and patches; the property is over every sequence of edits and every byte content and path name.",
  [PROC, INC+"apply.go", INC+"parse.go", INC+"parse_utils.go", "ripsrc/history3/process/parser/parser.go"],
  [("patch parsing", INC+"parse.go"), ("patch application onto parent state", INC+"apply.go"), ("log splitting", "ripsrc/history3/process/parser/parser.go"), ("carry-over of unchanged files", PROC)],
  ["results received from the history processor", "git's own tree and blob contents"])

p("C02", "Each line is credited to the commit that introduced it",
  "In every delivered file version of a non-merge commit, a line that git's patch against the parent leaves in place keeps the credit it had there, and a line the patch adds is credited to the commit itself; across a rename or copy the credit follows the file. In a merge, a line present in some parent keeps the credit that a parent it came from gave it, and only lines that come from no parent are credited to the merge. Every credited commit is the delivered commit or one of its ancestors.",
  ["histories"], "every git history and every line of every delivered file version",
  "Tests check a few hand-written histories; credit is an inductive property of the whole chain of patches and merges behind a line.",
  [PROC, INC+"apply.go", INC+"apply_merge2.go"],
  [("Apply", INC+"apply.go"), ("ApplyMerge", INC+"apply_merge2.go"), ("parent selection for unchanged files", PROC)],
  ["commit ids on delivered lines", "alignment from git's zero-context diff against each parent"])

p("C03", "Every commit is delivered exactly once, parents first",
  "A run delivers every commit reachable from HEAD (with all branches selected: from any ref) exactly once and nothing else, including empty commits and merges, and delivers each commit after all of its parents. The same holds for the by-commit code listing, whose per-file results all belong to the commit they are delivered under; the commit metadata listing and the flat per-file listing cover the same commits, each exactly once and each file version exactly once.",
  ["histories", "configurations"], "every history shape and both ref selections",
  "The existing tests look at single fixed graphs; exactly-once and ordering quantify over all graph shapes, including date skew and octopus merges.",
  [PROC, "ripsrc/code.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/history3/process/parser/parser.go"],
  [("date-order reverse log", PROC), ("merge part collection", PROC), ("commit splitting", "ripsrc/history3/process/parser/parser.go")],
  ["sequence of commits received on the result channels"])

p("C04", "A commit reports exactly the files it changed",
  "For a non-merge commit the reported paths are exactly the paths git lists as changed against the parent (all paths for a root commit), with a rename reported under its new name only. For a merge they are exactly the text files that differ from every parent, the binary-involved files that differ from any parent, and the paths that some parent has and the merge removed. The per-file code listing of a commit is exactly those reported files that its change records contain, each once.",
  ["histories"], "every history, every commit",
  "Which files a commit reports depends on the interplay of per-parent diffs; tests sample about a dozen combinations.",
  [PROC, "ripsrc/code_info.go"],
  [("per-parent diff grouping", PROC), ("join of blame and change records", "ripsrc/code_info.go")],
  ["file keys of each delivered commit"])

p("C05", "Commit metadata is reported faithfully",
  "For every commit the reported author and committer name and email, author date (instant and zone), subject line and parent list are those git records, and ordinals count 1..n in delivery order. This holds for any names, addresses, zones, dates and message text, including text that imitates the tool's own markers. Commits without parents have an empty parent list.",
  ["inputs", "histories"], "every commit object git can store with valid UTF-8 text, identities without carriage returns and dates RFC 3339 can express",
  "The tests use two plain identities and one-word messages; the property is over arbitrary metadata text.",
  ["ripsrc/commitmeta/commitmeta.go", "ripsrc/commit_info.go"],
  [("marker-prefixed log format and line state machine", "ripsrc/commitmeta/commitmeta.go")],
  ["commits received from the metadata listing", "git's NUL-separated log fields"])

p("C06", "Change records match git's own diff for every regular file",
  "For each non-merge commit, each changed regular file has one record whose status, added and deleted line counts, binary flag and rename or copy source and destination are what git's diff against the parent says; a rename is recorded on both names. For each merge the records are the files that differ from the first parent, with line counts against it. No record exists for a path git does not list as changed.",
  ["histories", "inputs"], "every history and every legal path name, including names with spaces, quotes, non-ASCII bytes, braces and arrows",
  "Tests cover two rename spellings and plain names; the records are rebuilt from human-oriented output whose quoting depends on the names.",
  ["ripsrc/commitmeta/commitmeta.go"],
  [("raw and numstat line parsing", "ripsrc/commitmeta/commitmeta.go"), ("rename name expansion", "ripsrc/commitmeta/commitmeta.go")],
  ["Files of each commit in the metadata listing"])

p("C07", "Incremental processing gives the same results as a full run",
  "Splitting the processing of a growing repository into any number of incremental runs, each resuming from the commit the previous run finished on, delivers for every commit in each run's range exactly the files, lines, credits and change records that one full run over the final repository delivers for it. Each run delivers exactly the commits of its range (the start commit and what HEAD reaches that the start commit's first parent does not, or, with the start commit excluded, what HEAD reaches that it does not; with further branches given, also what those reach), resuming with the start commit excluded omits only that commit, and a run with nothing new succeeds and leaves the stored state usable.",
  ["histories", "configurations"], "every history, every way of cutting it into growth steps, inclusive, non-inclusive, strict and non-strict resumes",
  "Tests resume once on one three-commit repository; equivalence quantifies over cut points, merges across the cut and the number of resumes.",
  [PROC, REPO+"reader.go", REPO+"writer.go", "ripsrc/code.go", "ripsrc/commitmeta/commitmeta.go"],
  [("checkpoint read and write around the run", PROC), ("range arguments", PROC)],
  ["results of a chain of incremental runs and of one full run"])

p("C08", "A crash or I/O failure never leaves a wrong checkpoint behind",
  "If a run is killed or an I/O operation fails at any point while it saves its state, the next strict resume either sees a complete earlier state, sees the complete new state, or is refused with an error; it never continues from missing, partial or mixed data. A failing file operation is reported as an error of the run, not as a crash. A reported success means the new state is in place, and after any failure a full run always succeeds and restores a usable state. A strict resume from a commit other than the one the state was saved for is always refused.",
  ["crash_points", "fault_sequences"], "every system call issued while saving, killed or failed there, and every later resume",
  "No test injects a fault; the property quantifies over every crash point of the save sequence.",
  [REPO+"writer.go", REPO+"msgp.go", REPO+"reader.go", PROC],
  [("write to temporary directory, then swap", REPO+"writer.go"), ("version file check", REPO+"reader.go")],
  ["process exit, directory contents after the fault, and results of the following resume"])

p("C09", "Saved state reads back identical",
  "Writing any processing state and reading it back yields the same commits, the same files under each commit and, for each file, the same owning commit, binary flag and lines with the same bytes and credits; nothing is added or dropped, including commits without files, empty files, empty lines and lines of any bytes or length. Reading with an expected commit succeeds exactly when it is the commit given at save time. Saving twice or over an older state leaves only the newest.",
  ["inputs", "histories"], "every state: any commit and path strings, sharing of file versions and lines between commits, sizes around the encoder's boundaries",
  "Tests round-trip two hand-made states; sharing and encoding boundaries are combinatorial.",
  [REPO+"reader.go", REPO+"writer.go", REPO+"msgp.go", REPO+"disk/disk.go", REPO+"disk/disk_gen.go"],
  [("pointer deduplication", REPO+"writer.go"), ("pointer resolution", REPO+"reader.go"), ("generated msgpack codec", REPO+"disk/disk_gen.go")],
  ["state passed to the writer and state returned by the reader"])

p("C10", "Bounded memory never loses state that is still needed",
  "However long and branchy the history, processing keeps every commit that has no children or an undelivered child, and the most recent thousand finished ones, so a full run never fails for lack of an earlier commit and its results do not depend on how much was dropped. After a full run the saved state holds at most those commits, and a non-strict resume works from any start commit for which the parents that its range builds on are among them; one that needs others returns an error, after correct results only.",
  ["histories"], "histories longer than the retention window, with forks held open across it and any resume point inside it",
  "No test has more than a handful of commits, so dropping never happens in them.",
  [REPO+"repo.go", PROC],
  [("unload queue", REPO+"repo.go"), ("child counting", PROC)],
  ["delivered results on long histories", "commits in the saved state", "resume outcome per start commit"])

p("C11", "The commit graph mirrors git's parent relation",
  "The commit graph read from a repository contains exactly the commits reachable from HEAD (with all branches: from any ref), each with its parents in git's order, and its children relation is exactly the inverse, sorted, with an entry for every commit. Building the graph from a parents map gives the same relation.",
  ["histories", "configurations"], "every graph shape, octopus merges and several roots, with and without all branches",
  "Tests check two small graphs.",
  ["ripsrc/parentsgraph/parents.go", "ripsrc/parentsgraph/parentsp/parser.go"],
  [("log parsing", "ripsrc/parentsgraph/parentsp/parser.go"), ("inversion", "ripsrc/parentsgraph/parents.go")],
  ["Parents and Children maps"])

p("C12", "Branch listings name every branch exactly once with its true head",
  "The branch results contain the default branch once (marked as such, with all its commits) and every other local branch (or, on request, every branch of origin by its plain name) exactly once with its true head, plus each distinct known pull request commit once and unknown ones not at all. The branch metadata listing gives every branch's name, head and committer time as git has them, sorted by name. This holds for every legal branch name, including ones shared with tags or remotes, and whatever the number of branches and workers.",
  ["inputs", "configurations", "schedules"], "every set of refs (nested, odd and clashing names, symbolic origin/HEAD, tags), any concurrency",
  "Tests list two or three plainly named branches in a non-cloned repository.",
  ["ripsrc/branches2/process.go", "ripsrc/branches2/name_hash.go", "ripsrc/branchmeta/branchmeta.go", "ripsrc/branchmeta/default.go", "ripsrc/branches.go"],
  [("for-each-ref parsing", "ripsrc/branchmeta/branchmeta.go"), ("worker pool", "ripsrc/branches2/process.go")],
  ["branches received", "git for-each-ref output"])

p("C13", "Branch commits and branch points follow from the commit graph",
  "The commits reported for an unmerged branch are exactly those reachable from its head and not from the default branch; for a merged branch, those reachable from its head that the default branch reaches only through that head. Each appears once, the head is last, and a branch without merges is listed oldest to newest; first commit and ahead count agree with the list. The reported branch points are exactly the oldest default-branch commits the branch's own commits were started from (none of them descends from another), in sorted order.",
  ["histories"], "every commit graph, every pair of default head and branch head",
  "Tests use about ten fixed graphs; the definition is a reachability statement over all graphs.",
  ["ripsrc/branches2/branch_commits.go", "ripsrc/branches2/process.go"],
  [("reachability walks", "ripsrc/branches2/branch_commits.go"), ("branch point deduplication", "ripsrc/branches2/branch_commits.go")],
  ["Commits, BranchedFromCommits, FirstCommit, AheadDefaultCount of each branch"])

p("C14", "Merge status and divergence counts follow from the commit graph",
  "A branch is reported merged exactly when its head is reachable from the default head; its merge commit is then a child of the head on the default branch, and is empty only when there is none. An unmerged branch that shares history with the default branch reports as behind count the number of default-branch commits not reachable from it, and merged or unrelated branches report zero. The branch identity depends only on its name and first branch point.",
  ["histories"], "every commit graph and every branch head",
  "Tests use a few linear graphs where over-counting cannot show.",
  ["ripsrc/branches2/merge_commit.go", "ripsrc/branches2/behind_branch.go", "ripsrc/branches2/process.go"],
  [("merge commit lookup", "ripsrc/branches2/merge_commit.go"), ("behind count", "ripsrc/branches2/behind_branch.go")],
  ["IsMerged, MergeCommit, BehindDefaultCount, BranchID of each branch"])

p("C15", "Per-file code statistics are conserved over the file's lines",
  "Every reported, non-skipped file version has one line record per line, in order, with the credited commit's own author name, email and date, and size, line, code, comment and blank totals that equal what its content has: size is the byte length of the lines, each with its line end, the line total is the number of lines, code, comment and blank sum to it, and each is the number of line records so marked, no line being two kinds. The totals depend only on the file's name, language and content. Binary files have no lines and zero totals, files that declare themselves generated are skipped, skipped files carry a reason and removed files carry no statistics.",
  ["inputs", "histories"], "every file content in every supported language, in full and incremental runs",
  "End-to-end tests check four short files.",
  ["ripsrc/code_info.go", "ripsrc/code.go"],
  [("line callback from the counter", "ripsrc/code_info.go"), ("metadata join", "ripsrc/code_info.go")],
  ["per-file code results", "reference counts and author records"])

p("C16", "Files are skipped by the documented limits and exclusion list only",
  "A file is skipped for size above 1,000,000 bytes, for more than 40,000 lines, for a line above 1,096 bytes, for a configuration, dot or vendored path, for a path matching any pattern of the repository's exclusion list, for being a licence text, or for an unknown language, and otherwise never; the first applicable reason is reported. The decision and the language are functions of path and content alone: they are the same whatever was examined before and however many workers, each with its own classifier, run. Limits are exact at their boundaries.",
  ["inputs", "histories"], "every path and content, every order of queries on one classifier",
  "Tests probe single paths and never the boundaries or the memo kept between queries.",
  ["ripsrc/fileinfo/fileinfo.go", "ripsrc/fileinfo/gitignore.go", "custom_patterns.txt", "genignore.go"],
  [("limit checks", "ripsrc/fileinfo/fileinfo.go"), ("generated expression", "ripsrc/fileinfo/gitignore.go"), ("per-path memo", "ripsrc/fileinfo/fileinfo.go")],
  ["skip reason and language per query"])

p("C17", "Licence detection is deterministic and confident",
  "For the same file name and text, licence detection always gives the same answer, in any order and from any number of workers. Only files whose name marks them as licence candidates are examined, a reported licence is one of the detector's best matches and has confidence of at least 0.85, and no licence is reported when no match reaches it.",
  ["inputs", "schedules"], "every licence text, including ones matching several licences equally well, under concurrency",
  "Tests detect three texts once each; an unstable choice among ties needs repetition to show.",
  ["ripsrc/fileinfo/license.go", "ripsrc/fileinfo/license_enabled.go"],
  [("selection among matches", "ripsrc/fileinfo/license_enabled.go"), ("detector lock", "ripsrc/fileinfo/license_enabled.go")],
  ["licence name and confidence per query"])

p("C18", "Independent runs share nothing: no data race, no cross-talk",
  "Any number of runs on the same or different repositories in one process (code, branches, history, metadata, classification, logging), with consumers that read results while processing continues, execute without a data race and each produces exactly the results it produces alone.",
  ["schedules", "configurations"], "every interleaving of the goroutines of concurrent runs and their consumers",
  "The suite is not run under the race detector and never runs two analyses at once.",
  ["ripsrc/code.go", "ripsrc/branches.go", PROC, INC+"apply_merge2.go", "ripsrc/branches2/process.go", "ripsrc/fileinfo/fileinfo.go", "ripsrc/pkg/logger/logger.go"],
  [("per-instance state", "ripsrc/ripsrc.go"), ("copy on merge credit", INC+"apply_merge2.go"), ("worker locks", "ripsrc/branches2/process.go")],
  ["race detector reports", "results per run against the solo run"])

p("C19", "Every call terminates cleanly and releases what it started",
  "Every successful or failing call closes its result channel exactly once, after the last result and without dropping or duplicating any, however slowly or late the consumer reads. When it has returned, no goroutine, child process, open file or temporary file that it started remains.",
  ["schedules", "configurations"], "every API entry point, outcome and consumer pace",
  "Tests drain channels at once and never look at what remains after a call.",
  ["ripsrc/code.go", "ripsrc/branches.go", "ripsrc/branches2/process.go", "ripsrc/commitmeta/commitmeta.go", PROC, "ripsrc/gitexec/gitexec.go"],
  [("deferred channel close", "ripsrc/code.go"), ("done handshakes", PROC), ("subprocess pipe", "ripsrc/gitexec/gitexec.go")],
  ["goroutine stacks, descriptors, children and TMPDIR after the call", "channel events"])

p("C20", "Results never change after they are delivered",
  "Once a commit's result has been handed to the consumer, nothing the run does later changes it: file lists, lines, credits, metadata and statistics read at the end of the run are those read on receipt. Two results never share a line whose credit differs between them.",
  ["histories", "schedules"], "every history, every delivered result, the whole remainder of the run",
  "Tests look at results only after the run has ended.",
  [PROC, INC+"apply.go", INC+"apply_merge2.go", "ripsrc/code.go"],
  [("copying of lines before re-crediting", INC+"apply_merge2.go"), ("structural sharing between versions", PROC)],
  ["digest of each result at receipt and at the end"])

p("C21", "A failing git command never passes for a complete result",
  "If any git command a run depends on cannot start, exits with failure, or is killed before its output is complete, the run returns an error: it never returns success with missing or truncated results, never brings down the process of the caller, and never hangs. No checkpoint is left that claims such a run finished.",
  ["fault_sequences"], "every git invocation of a run, failed at the start, after any prefix of its output, or at its end",
  "No test makes git fail.",
  ["ripsrc/gitexec/gitexec.go", "ripsrc/commitmeta/commitmeta.go", PROC, "ripsrc/branches2/process.go", "ripsrc/branchmeta/branchmeta.go", "ripsrc/gitblame2/gitblame.go"],
  [("exit status propagation", "ripsrc/gitexec/gitexec.go"), ("scanner error checks", "ripsrc/history3/process/parser/parser.go")],
  ["outcome of the run under a faulting git", "checkpoint directory"])

p("C22", "Results do not depend on the user's git configuration",
  "For a given repository the results of every analysis are the same whatever diff, log, colour, quoting, rename, pager or display options the user's git configuration or environment sets, and whatever attributes file it names. The configuration and attributes files themselves are left alone.",
  ["configurations"], "every combination of output-affecting git settings at user, system and repository level",
  "Tests run with the machine's default configuration; one covers a single attributes file.",
  [PROC, "ripsrc/commitmeta/commitmeta.go", "ripsrc/parentsgraph/parents.go", "ripsrc/gitexec/gitexec.go", "ripsrc/gitblame2/gitblame.go", "ripsrc/branchmeta/branchmeta.go"],
  [("explicit options on each git command", PROC)],
  ["results under each configuration against the default one"])

p("C23", "Analysed repositories are left untouched",
  "No analysis changes refs, objects, index, configuration or working tree of the repository it reads, and it writes nothing outside the checkpoint directory: with a checkpoint directory given, the repository's directory is byte for byte what it was; without one, only the tool's own cache folder appears in it. Branch, metadata and graph analyses write nothing at all.",
  ["histories", "configurations"], "every analysis and outcome, bare and non-bare repositories",
  "No test looks at the repository directory after a run.",
  [PROC, REPO+"writer.go", "ripsrc/gitexec/prepare.go", "ripsrc/gitexec/gitexec.go"],
  [("checkpoint location", PROC), ("read-only git commands", PROC)],
  ["full directory snapshot before and after"])

p("C24", "Patch application is exact for every patch git can produce",
  "For any two versions of a file, renamed or copied or not, and any context width, parsing git's patch yields its names and whether it is binary, and applying it to the old version yields the new version, keeps the credit of every kept line and credits added lines to the given commit. Merging with the patches against any number of parents yields the common result with each line credited through the first parent that supplies it, and neither operation alters its inputs. A log of patches is read as exactly the commits and patches it consists of, with whichever parent each belongs to.",
  ["inputs"], "every pair (or tuple) of file versions, context width, diff algorithm and kind of rename and copy detection",
  "Tests apply about twenty fixed patches.",
  [INC+"apply.go", INC+"apply_merge2.go", INC+"parse.go", INC+"parse_utils.go", "ripsrc/history3/process/parser/parser.go"],
  [("hunk walk", INC+"apply.go"), ("hunk header parsing", INC+"parse_utils.go"), ("candidate merge", INC+"apply_merge2.go")],
  ["return values and inputs of parse and apply"])

p("C25", "On-demand blame equals git blame",
  "For any file of any commit, the on-demand blame returns one entry per line with the line's exact text and the full id of the commit that git blame credits, in file order, including empty files, empty lines, lines that look like headers, boundary commits and renamed files.",
  ["inputs", "histories"], "every text file version of every history",
  "Tests parse two captured outputs and one small repository.",
  ["ripsrc/gitblame2/gitblame.go", "ripsrc/gitblame2/parse_output.go"],
  [("porcelain parsing", "ripsrc/gitblame2/parse_output.go")],
  ["returned lines", "git blame with an independent parser"])

p("C26", "Repository discovery is exact and the CLI exit status truthful",
  "A repository is a directory that contains a .git directory, or one whose name ends with .git and that contains an objects directory. Discovery visits every repository at or below the given directory up to the depth limit exactly once, visits nothing else, follows no symbolic links below it, does not descend into a repository, and stops with the callback's error. The commands process every repository found even if others fail, and exit with status 0 exactly when at least one repository was found and none failed; empty repositories are skipped with a warning.",
  ["inputs", "configurations"], "every directory layout and every combination of good, empty and broken repositories",
  "There is no test for discovery or the commands.",
  ["ripsrc/pkg/gitrepos/gitrepos.go", "ripsrc/cmd/cmdcode/cmd.go", "ripsrc/cmd/cmdbranches/cmd.go", "ripsrc/cmd/cmdutils/errors.go", "ripsrc/cmd/cmdutils/repo_run.go", "cmd/root.go"],
  [("recursive walk", "ripsrc/pkg/gitrepos/gitrepos.go"), ("error collection", "ripsrc/cmd/cmdcode/cmd.go"), ("exit status", "ripsrc/cmd/cmdutils/errors.go")],
  ["callback order", "exit status and output of the built command"])

p("C27", "Log lines are whole, complete and never interleaved",
  "Every call to the default logger produces exactly one line with its level, message and all key-value pairs in order; concurrent calls never interleave within a line and none is lost. A malformed argument list adds an error line, instead of a panic or silence.",
  ["schedules", "inputs"], "every number of concurrent callers and every argument list",
  "There is no test for the logger.",
  ["ripsrc/pkg/logger/logger.go"],
  [("mutex around writes", "ripsrc/pkg/logger/logger.go")],
  ["bytes written to the sink against the calls made"])

p("C28", "Results are deterministic and independent of scheduling",
  "Repeating an analysis on the same repository gives the same set of results every time, whatever the number of processors, the order of map iteration, the consumer's pace, the number of workers, the repository's packing or whether it is bare; ordered outputs keep the same order. A result depends only on the commits reachable from the selected refs.",
  ["schedules", "configurations"], "every schedule and every equivalent presentation of one repository",
  "Each test runs once, with map-valued results compared as maps.",
  [PROC, "ripsrc/code_info.go", "ripsrc/branches2/process.go", "ripsrc/branchmeta/branchmeta.go"],
  [("sorted outputs", "ripsrc/branchmeta/branchmeta.go"), ("order-insensitive maps", PROC)],
  ["canonical digests of repeated runs"])

p("C29", "Run statistics count exactly what was processed",
  "After a run, the regular and merge commit counts are the numbers of delivered commits with at most one and with several parents, the slowest list holds min(10, delivered) distinct delivered commits in non-increasing duration, the durations add up consistently, and the file counter equals the number of files for which statistics were computed. The same holds for incremental runs.",
  ["histories"], "every history and run mode",
  "No test reads the statistics.",
  [PROC, "ripsrc/code_info.go", "ripsrc/ripsrc.go"],
  [("timing updates", PROC), ("code info timings", "ripsrc/code_info.go")],
  ["Timing and CodeInfoTimings after a run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")

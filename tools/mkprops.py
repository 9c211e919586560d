#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
W='devel/include/wtr/watcher-/watch.hpp'
E='devel/include/wtr/watcher-/event.hpp'
S='devel/include/detail/wtr/watcher/semabin.hpp'
SR='devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp'
A='devel/include/detail/wtr/watcher/adapter/linux/watch.hpp'
I='devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp'
F='devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp'
G='include/wtr/watcher.hpp'
C='watcher-c/src/watcher-c.cpp'
H='watcher-c/include/wtr/watcher-c.h'
M='src/wtr/watcher/main.cpp'
R='watcher-rs/src/lib.rs'
N='watcher-nodejs/lib/watcher-napi.cpp'
T='watcher-nodejs/lib/watcher.ts'
P='watcher-py/watcher/watcher.py'
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=list(observe)
    return d
props=[
p('C01','A watch says it is live first and that it died last, exactly once each',
 """On Linux, every watch delivers as its first event exactly one (create, watcher) event named s/self/live@ or e/self/live@ plus the absolute form of the watched path, and as its last event exactly one (destroy, watcher) event named s/self/die@ or e/self/die@ plus that same path; nothing is delivered before the first or after the last.
 The first is s/ exactly when the path could be made absolute and names a directory, and no close had been requested yet; then, and only then, is anything watched.
 The last is s/ exactly when the first was s/ and watching ended without a fatal error.""",
 ['inputs','fault_sequences','histories'],
 'Every path value, every outcome of making it absolute and of asking for its type, every outcome of the backend, close requested before or after start.',
 'The tests watch existing directories and discard or filter watcher messages; no failing start, failing stop or early close is exercised.',
 [W,A,G],[('watch constructor task',W),('adapter entry point result',A)],observe=['user callback']),
p('C02','close reports success exactly once, and only for a clean run',
 """Closing a watch asks it to stop, waits until its watching task has finished, and returns true exactly when this is the first close, the watch started with an s/self/live message and ended with an s/self/die message.
 Every later close of the same watch returns false, and destroying a watch closes it.
 Requesting the stop more than once is harmless: it reports success again.""",
 ['histories','inputs','fault_sequences'],
 'Every sequence of close calls and destruction, every outcome of the watching task and of the stop request.',
 'The tests close each watch once, after a successful run.',
 [W,S,G],[('watch::close and destructor',W),('stop request',S)],observe=['return value of close','callback order']),
p('C03','A requested close is never lost or undone',
 """Once a close has been requested, the Linux event loop stops: whatever set of ready notifications one wait reports, in whatever order, and whatever handling the others yields, the loop ends without waiting again.
 The loop waits without a time-out and is subscribed for readability of both the kernel event source and the close request, for as long as it runs.
 A close requested before watching started is seen by the start.""",
 ['schedules','histories','inputs'],
 'Every number and order of ready descriptors per wake-up, every result of event handling in the same wake-up, every loop iteration.',
 'Tests close a quiet watch, so the stop request is the only ready descriptor; the simultaneous case needs events and the close in one wake-up.',
 [A,SR,S,W,G],[('event loop',A),('descriptor registration',SR),('close request object',S)],observe=['number of waits after the request']),
p('C04','inotify records become exactly the right events, in order',
 """For every well-formed batch of inotify records, each record about an entry of a watched directory is reported exactly once, in order, as one event whose name is the recorded path of the directory the record came from joined with the entry name, whose path type is dir exactly when the kernel flagged a directory and file otherwise, and whose effect is create, destroy, rename or modify as the kernel said.
 A moved-from record directly followed by the moved-to record with the same non-zero cookie is reported as a single rename event carrying the old name, with the new name (under the directory the second record came from) as its associated event; any other move record is a lone rename event.
 Records about the watched directory itself, and any other kind of record, produce no event.""",
 ['inputs','histories'],
 'Every batch length, record kind, flag combination, cookie, name, watch descriptor and grouping of records into reads.',
 'Tests see a few orderly batches from a live kernel; batching, move pairs across directories and adjacent unrelated records are timing dependent.',
 [I,G],[('batch loop',I),('record parser',I)],observe=['user callback']),
p('C05','fanotify records become exactly the right events, in order',
 """For every well-formed batch of fanotify directory-entry records, each record whose directory can be resolved is reported exactly once, in order, as one event whose name is the resolved directory path followed by "/" and the entry name (the directory path alone when the entry is "."), whose path type is dir exactly when the kernel flagged a directory and file otherwise, and whose effect is create, destroy, modify or rename as the kernel said.
 A moved-from record and a moved-to record directly next to each other, both usable, are one rename event carrying the old name with the new name associated; any other move record is a lone rename event. Where the kernel merged several effects into one record, one of them is told.
 A record that cannot be used (overflow notice, unexpected descriptor or information kind, directory that no longer resolves) is skipped with exactly one warning and never makes later records of the batch be dropped; a record of a foreign interface version ends the watch with an error instead. Paths longer than the system's limit are not covered.""",
 ['inputs','histories','fault_sequences'],
 'Every batch length, record kind, flag combination, handle and name, and every failure of resolving a directory.',
 'Needs a privileged live kernel; batches with move records at the end, stale handles or overflow do not occur in the suite.',
 [F,G],[('batch loop',F),('record parser',F),('path resolution',F)],observe=['user callback']),
p('C06','Reading kernel batches never touches memory it should not',
 """While decoding a batch of records the watcher reads only bytes the kernel delivered in that batch (plus its own state), writes only inside its own buffers, uses no object after it is destroyed or removed, and always finishes the batch.
 This holds for every batch the kernel may deliver, including the shortest and the fullest, and for failed or truncated helper calls.""",
 ['inputs','fault_sequences'],
 'Every record sequence that fits the buffer, every length returned by the kernel (including none and errors), every outcome of helper system calls.',
 'Tests only see small batches; the sanitized builds are never run.',
 [I,F,SR,G],[('record stepping',I),('record stepping',F),('deferred removal list',I)],observe=['address and bounds of each access']),
p('C07','Every directory of the tree is watched, as it appears',
 """When a watch starts, the given directory and every real sub-directory the listing shows below it (and no file, symbolic link, "." or "..") is offered to the kernel for watching exactly once, listing failures apart.
 A directory reported as newly created under inotify or fanotify is put under watch before its creation is told to the user, and one that cannot be watched yields one warning and does not stop anything.
 Under inotify, the recorded path of a directory stays usable until the batch announcing its removal has been handled completely, is then dropped, and no other recorded path is touched.""",
 ['inputs','histories','fault_sequences'],
 'Every directory tree and listing order, every failure of a listing, path resolution or registration, every batch of records.',
 'Tests use a flat directory and do not check what is under watch.',
 [SR,I,F,G],[('tree walk',SR),('marking',I),('marking',F),('deferred removal',I)],observe=['watch registrations','user callback']),
p('C08','The right backend is chosen, and only an unavailable one is replaced',
 """On Linux the fanotify backend is tried exactly when the process runs as the superuser, and the inotify backend is used exactly when fanotify was not tried or reported itself unavailable; both run on the path, callback and stop request given.
 A fanotify run that started is never followed by an inotify run, and neither backend is started twice.""",
 ['configurations','fault_sequences'],
 'Both privilege levels and every result of either backend.',
 'A test run sees one privilege level and a working backend.',
 [A,F,I,G],[('backend switch',A)],observe=['sequence of backend initialisation calls']),
p('C09','Failures are told once and by name; nothing else stops a watch',
 """A fatal failure of an operating system service (backend initialisation, event waiting, reading, registration) ends the watch and delivers exactly one (other, watcher) event, named by the error kind e/... followed by "@" and the watched path, before the final message; when no such failure happened no e/ event is delivered between the first and the last.
 Warnings (an unwatchable directory, a record of an unknown directory, a queue overflow, an unusable record) are (other, watcher) events named w/... plus "@" and the concerned path if known, and watching goes on; finding no data to read is neither error nor warning.
 Each error or warning kind has its own fixed text.""",
 ['fault_sequences','inputs'],
 'Every failure of every system call made, at every point, and every result of a wait or read.',
 'No fault is injected by the suite.',
 [SR,A,I,F,G],[('result kinds and texts',SR),('message helper',SR),('loop and read error handling',A)],observe=['user callback']),
p('C10','Everything opened is closed exactly once',
 """Every descriptor and directory stream that a watch opens is released exactly once on every way out, including every partial failure of the start, every unresolvable record and every listing; descriptors it did not open are never closed.
 Descriptor number 0 is a valid descriptor like any other.
 Each backend stops using its descriptors before they are released.""",
 ['fault_sequences','inputs','histories'],
 'Every combination of failing calls at start, run and stop; every descriptor number the kernel can hand out.',
 'Leaks and double closes on failure paths are invisible to the suite, which never fails a call.',
 [SR,A,I,F,S,G],[('start-up clean-up',F),('start-up clean-up',I),('loop exit',A),('tree walk',SR)],observe=['open and close calls']),
p('C11','Events print as documented, and numbers print exactly',
 """Rendering an event, effect, path kind or time as text yields the documented text for every value: the documented words (other for anything else), the exact decimal digits of the time with nothing appended, and for an event one "time":{...} member with its effect_type, path_name and path_type and, when present, the associated event's three.
 The narrow and wide renderings say the same (for names that can be converted to wide text), and streaming writes what the string conversion returns.
 Path names are emitted so that the JSON string they stand in stays well-formed and decodes to that name: quotes, backslashes and control characters are escaped, every other byte is kept.""",
 ['inputs'],
 'All 2^64 times, all enumeration values, all path names, with and without an associated event, narrow and wide.',
 'The event unit test is not even built here, and samples a handful of values.',
 [E,G],[('number conversion',E),('enum conversions',E),('event conversion',E)],observe=['returned strings']),
p('C12','Events are faithful, independent values',
 """Copying an event gives an event equal to the original in every field, with its own deep copy of the associated event; the three construction forms set every field to what was given (time from the clock, no associated event unless one was given).
 Two events are equal exactly when name, time, path type and effect type agree and either neither has an associated event or both have equal ones; inequality is its negation.
 Destroying an event releases what it owns exactly once.""",
 ['inputs'],
 'All field values and all nesting depths of associated events.',
 'The suite never compares or copies events with varying associated parts.',
 [E,G],[('event constructors',E),('event comparison',E)],observe=['field values','operator results']),
p('C13','The C interface passes events and results through unchanged',
 """For every event, the callback registered through the C interface is called exactly once, in order, with the context given at opening and with the event's time, effect code, path kind code, path text and associated path text (null exactly when there is none), valid for the duration of the call; the codes are the ones the C header names.
 Closing null returns false and does nothing; closing an open watcher stops it and returns true exactly when it stopped cleanly, and then its memory is released exactly once.
 Opening returns a new watcher on exactly the given path.""",
 ['inputs','histories'],
 'Every event, path and context value; every result of stopping.',
 'No test links the C library.',
 [C,H],[('callback wrapper',C),('close',C)],observe=['C callback arguments','return values']),
p('C14','The command line tool parses its arguments and prints events faithfully',
 """The tool prints, as each event arrives and in order, one line of JSON with exactly the path type, path name, effect type, numeric time and the associated event (or null) of that event, well-formed for every path name.
 "-h" or "--help" alone prints the help and succeeds; an existing path is watched, no path means the current directory, a missing path prints the help and fails.
 A time argument is turned into that many of the named unit (milliseconds by default) for every unit and every positive value, rounded to a whole number of that unit, larger ones saturating instead of overflowing; no positive time, or an infinite one, means watching until input arrives or ends.""",
 ['inputs'],
 'All argument vectors and all events.',
 'The shell tests use one unit, small times and plain names.',
 [M],[('argument parser',M),('json printer',M)],observe=['standard output','exit status','sleep duration']),
p('C15','The Rust binding maps events faithfully and closes once',
 """For every event from the C interface the Rust stream yields exactly one event with the same time, the same path texts (a null associated path gives none, text that is not valid UTF-8 the empty text), and the effect and path kinds whose codes the C header names, with unknown codes becoming Other.
 Opening opens one watcher on exactly the given path (nothing for a path with a NUL) and tells whether it is open; a watch is closed through the C interface exactly once by the time it is dropped, however close and drop are combined; closing says whether the watcher stopped cleanly, and closing again is an error; nothing is left allocated or used after it was released.""",
 ['inputs','histories'],
 'All code values, all texts, all sequences of events, close and drop.',
 'There are no Rust tests and the crate is not built here.',
 [R,H],[('conversion functions',R),('close and Drop',R)],observe=['stream items','calls to the C close']),
p('C16','The Node bridge delivers every event once and frees it once',
 """Every event handed to the Node bridge is copied, handed once to the script side without waiting for it, and delivered to the script callback once with the same time (as a script number), path, associated path (null when there is none), effect code and path code; its copy is released exactly once, whether it is delivered, drained at teardown, or not taken by the runtime (then it is released and not delivered).
 Opening passes exactly the given path (what is not a text, holds a NUL, or is too long for a path, is refused), a refused or failed opening is told to the script and leaves nothing behind, and closing stops the watcher once, releases the callback resources once, and returns whether the stop was clean; closing again returns false and touches nothing.""",
 ['inputs','histories','fault_sequences'],
 'All events and every status the Node runtime may return; every sequence of open, event, close.',
 'The Node tests cannot run here and sample two scenarios.',
 [N,H],[('bridge and receiver',N),('open and close',N)],observe=['calls into the Node runtime','allocations']),
p('C17','The Python binding maps events faithfully and closes once',
 """For every event from the C interface the Python callback given to Watch is called exactly once with an event of the same time, the same path texts (decoded from UTF-8; no associated path gives None), and the effect and path kinds whose codes the C header names; a name that is not valid UTF-8 does not make the event vanish; rendering an event as JSON gives one well-formed object with exactly those values, for every name.
 Constructing a Watch opens one watcher on exactly the given path with a callback that stays alive as long as it is open, or raises and leaves nothing open (a path with a NUL, or one that cannot be encoded, is refused); a watch is closed through the C interface exactly once, by close, leaving its with block or being dropped, however they are combined; watches do not affect each other, and dropping a watch, also one that did not start, never fails.""",
 ['inputs','histories'],
 'All events, all byte strings as names, all sequences of construction, events, close, with and drop.',
 'There are no Python tests.',
 [P,H],[('event conversion and rendering',P),('construction and close',P)],observe=['user callback','to_json text','calls to the C interface']),
p('C20','The TypeScript layer maps events faithfully and closes once',
 """For every event from the Node bridge the callback given to watch is called exactly once with an event of the same time, paths (null when there is no associated one), and the effect and path type names whose codes the C header names; watch opens one watcher on exactly the given path, and close on what it returns closes it once and tells the bridge's result.""",
 ['inputs','histories'],
 'All events, all path texts and every sequence of watch, events and close.',
 'The Node tests cannot run here.',
 [T,H],[('event conversion',T),('watch',T)],observe=['user callback','calls to the Node bridge']),
p('C18','No schedule of user and watcher threads breaks the contract',
 """Under every interleaving of construction, event delivery, close from any thread and destruction there is no data race, deadlock or delivery after close returned.""",
 ['schedules'],
 'All interleavings of the user thread(s) and the watching thread.',
 'Tests run one schedule each; the thread-sanitized build is never run.',
 [W,S,A],[('future and atomic flag',W),('eventfd',S)],observe=['happens-before between callback and close']),
p('C19','macOS, Windows and fallback backends report like the Linux ones',
 """The other platforms' backends give the same lifecycle, naming and closing guarantees.""",
 ['configurations','inputs'],
 'All event batches of FSEvents, ReadDirectoryChangesW and the polling fallback.',
 'They are not compiled on Linux.',
 ['devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp','devel/include/detail/wtr/watcher/adapter/windows/watch.hpp','devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp'],
 [('backends','devel/include/detail/wtr/watcher/adapter')],observe=['user callback']),
]
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,'properties.jsonl'),'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')

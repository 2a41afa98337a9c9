"""The properties, as data.  `python tools/properties.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None):
    P.append(dict(
        line=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)),
        note=note))


X = ['epsilon/extime.py']
J = ['epsilon/juice.py']
JL = ['epsilon/juice.py', 'epsilon/liner.py']

prop('C01', 'Time values survive a round trip through every format',
     'A time value written as ISO 8601, RFC 2822, RFC 1123, POSIX seconds, a datetime or a struct_time, in any whole-minute '
     'timezone, and read back is the same instant, truncated only as far as that format is documented to truncate. ISO 8601 '
     'text also keeps the resolution (year, month, week, day, hour, minute, second or finer) that the value was created with.',
     'inputs configurations',
     'every instant in the datetime range (RFC 2822: years from 102), every resolution, every whole-minute UTC offset; hour resolution '
     'is kept in ISO text only in zones where the hour starts on the hour; day-or-coarser values in UTC for the other formats',
     'the tests format and parse about a dozen fixed dates in UTC; calendar edges, offsets with minutes, fractions and coarse '
     'resolutions are not sampled',
     X, [('Time.asISO8601TimeAndDate / fromISO8601TimeAndDate', 'epsilon/extime.py'), ('asRFC2822, asRFC1123, asPOSIXTimestamp, asDatetime, asStructTime', 'epsilon/extime.py')],
     'round trips compared with exact integer microseconds over generated calendar edges')

prop('C02', 'ISO 8601 text denotes exactly the period it names',
     'Reading any valid ISO 8601 date or date-time (calendar, week and ordinal dates, reduced precision, fractional seconds, "Z" or '
     'signed offsets) gives the instant at which that period starts and the length of that period as its resolution. '
     'Text which is not a valid ISO 8601 date-time is refused with ValueError and never yields some other date.',
     'inputs', 'every ISO 8601 string within the datetime range, and every corruption of one; hour 24 and leap seconds are unspecified',
     'tests parse a fixed list of strings; the grammar times the calendar is unbounded',
     X, [('Time.fromISO8601TimeAndDate and its regular expression', 'epsilon/extime.py')],
     'differential oracle: an independent ISO 8601 reader judges generated and corrupted strings')

prop('C03', 'RFC 2822, RFC 1123 and struct_time say what they mean',
     'A time formatted as RFC 2822 (any timezone), RFC 1123 or struct_time carries exactly that instant\'s local weekday, date, '
     'clock fields and offset, and reading such text or fields denotes the instant they name. Out-of-range clock fields and days (beyond the end of their month, too) in an '
     'RFC 2822 date are clamped to the nearest valid value rather than refused, and text which is no RFC 2822 date is refused with ValueError.',
     'inputs configurations', 'every instant and whole-minute timezone; every field combination, including out-of-range ones',
     'tests check a handful of fixed strings',
     X, [('Time.asRFC2822, asRFC1123, fromRFC2822, fromStructTime, sanitizeStructTime', 'epsilon/extime.py')],
     'fields computed independently (datetime arithmetic) compared with the text and with the parse')

prop('C04', 'Time ordering, arithmetic and containment agree with instants and periods',
     'Times compare (equal, less, greater), sort and subtract exactly as the instants at which their periods start, to the microsecond, and adding or subtracting a '
     'duration gives exactly the instant that far away. A period contains a time exactly when that time\'s own period lies entirely within it, its bounds are its start and end (for whole days, widened to cover '
     'the same calendar period in a given timezone), and the day of a time is the whole UTC day its start falls in.',
     'inputs', 'every pair of times of any resolutions, including ties, adjacent, nested and straddling periods',
     'tests compare a few fixed pairs',
     X, [('Time comparison, arithmetic, __contains__, getBounds, oneDay, isTimezoneDependent', 'epsilon/extime.py')],
     'all operators applied to every pair of close times and compared with integer arithmetic')

prop('C05', 'What a human types means what it says; what is shown is the local time',
     'A phrase such as a weekday name, "today", "tomorrow", "yesterday", "noon", "midnight" or a clock time with or without am/pm, relative to any '
     'current time and fixed-offset timezone, denotes the date or the next such moment it names, and unknown phrases are refused with ValueError. '
     'Text shown to a human is the local date and clock time in the given timezone, with the day shown only when it differs from the current local day and the year only when it differs from the current one.',
     'inputs configurations', 'every current time, fixed-offset timezone and phrase; every displayed time, timezone and current time; C locale',
     'tests freeze one "now" and try a few phrases',
     X, [('Time.fromHumanly', 'epsilon/extime.py'), ('Time.asHumanly', 'epsilon/extime.py')],
     'phrases and displays compared with an independent calculation at minute, noon, midnight and date-line edges')

prop('C06', 'Expressing a time in another timezone never moves it',
     'Converting a time to any timezone (fixed offset or with daylight saving) and back denotes the same instant with that zone\'s '
     'correct local clock fields. A value whose resolution is a day or coarser has no timezone: it shows the same calendar date in every zone.',
     'inputs configurations', 'every instant, resolution and pair of timezones, including both sides of daylight-saving changes',
     'tests use two zones and a few dates',
     X, [('Time.asDatetime, asNaiveDatetime, fromDatetime, FixedOffset', 'epsilon/extime.py')],
     'local fields compared with independent zone arithmetic')

prop('C07', 'Juice boxes arrive whole, in order, exactly once, however the bytes are cut',
     'Every sequence of boxes written to a connection, with any keys (in lower case, not starting with a blank nor containing the separator), values (including line breaks and non-ASCII text) and with or without bodies of any length, is '
     'received as the identical sequence of boxes for every way the byte stream is cut into segments. Each box is delivered as soon as its last byte has arrived, '
     'never before, and parsing serialised boxes from a string or file gives the same boxes.',
     'inputs schedules', 'every sequence of boxes times every segmentation of the stream',
     'tests deliver a few hand-written boxes, mostly in one piece',
     JL, [('Box.serialize, JuiceParserBase.lineReceived / rawDataReceived', 'epsilon/juice.py'), ('LineReceiver.dataReceived', 'epsilon/liner.py')],
     'online delivery monitor compares each delivery with the sent sequence and the bytes fed so far')

prop('C08', 'Every juice request is resolved once, by the answer to that very request',
     'With any number of requests outstanding in both directions at once, each request that asks for an answer is handled exactly once by the peer and resolved '
     'exactly once, with the answer the peer gave to that request, no matter in which order answers are produced or how the bytes are cut. Requests that want no answer are handled exactly once and produce none; '
     'requests of one sender start being handled in the order they were sent.',
     'schedules histories', 'every interleaving of requests, deliveries and handler completions between two peers',
     'tests issue one or two requests and answer them in order',
     J, [('Juice._sendBox tags and outstanding-request table, DispatchMixin answers', 'epsilon/juice.py')],
     'recorded issue/handle/complete/resolve histories with unique ids checked for exactly-once pairing')

prop('C09', 'Losing the connection fails every outstanding juice request exactly once',
     'When a connection is lost at any point, every request still unanswered fails exactly once with the reason of the loss, answers already received are untouched, and nothing fails twice. '
     'Any request made after the loss fails with a connection-lost error instead of hanging, and a handler finishing late does no harm.',
     'crash_points schedules histories', 'a loss injected at every step and byte position of a request session',
     'tests cut the connection once, with one request outstanding',
     J, [('Juice.failAllOutgoing, connectionLost', 'epsilon/juice.py')],
     'connection loss injected at generated steps and byte positions; history checked for exactly-once failure')

prop('C10', 'Typed juice arguments and responses arrive as the values that were sent',
     'For every declared command, the handler receives exactly the argument values the caller passed and the caller receives exactly the response values the handler returned, for every argument type (integers, floats, '
     'booleans, text, paths, times, base64 data, encoded text, non-empty lists whose elements do not contain the separator, lists of boxes), nested lists and optional arguments left out. A call lacking a required argument or a request lacking or '
     'garbling one on the wire is refused with an error and its handler never runs. Text the declared type cannot carry, and lists whose elements the separator does not tell apart, are refused, never altered. '
     'Every request is a box of the command\'s own request type and every response one of its response type. '
     'A type of argument of one\'s own converts, wherever it is nested, with the connection of its own end.',
     'inputs programs', 'every command declaration over the provided argument types and every value of them',
     'tests send a few values of a few types',
     ['epsilon/juice.py', 'epsilon/extime.py'], [('Argument types toString/fromString, Command.do, parseArguments/parseResponse', 'epsilon/juice.py')],
     'generated declarations called over a real connection; both ends\' views compared with what was passed')

prop('C11', 'Juice errors reach the caller as declared, and close only what they should',
     'An error a command declares (itself or by inheritance) and its handler raises, now or later, reaches the caller as that error class (or its closest declared ancestor) with its description, leaving the connection open; one declared fatal also closes the connection after it is delivered. '
     'Any other handler failure and any unknown command reaches the caller as a generic unhandled-remote-error which reveals nothing of the details, is logged at the server, and closes the connection. '
     'An error the caller leaves unhandled, or raises while handling an answer, is logged and closes its connection; one it handles does not.',
     'inputs programs histories fault_sequences', 'every set of declared and fatal errors, with exception inheritance, and every sequence of failing and succeeding calls',
     'tests raise one declared and one undeclared error',
     J, [('_wrapWithSerialization and error handling of DispatchMixin, Command.errors / fatalErrors', 'epsilon/juice.py')],
     'per-call judgement of the caller\'s outcome, the log and each side\'s closing of the connection')

prop('C12', 'A juice peer can only run what was exposed, under its name and namespace',
     'A request runs a handler only if it was exposed as a command under the name asked for and in the namespace it was exposed in, ignoring only case, surrounding blanks and dash versus underscore; every other name, '
     'including those of ordinary, private and inherited methods, is answered with an unhandled-command error and runs nothing. Where a dispatcher supplies a wrapper, it is applied around every exposed handler that runs, '
     'and its result is what the caller gets.',
     'inputs programs', 'every dispatcher class and every requested name and namespace',
     'tests ask for one known and one unknown command',
     J, [('DispatchMixin.lookupFunction / dispatchCommand, juice namespaces, _juiceboxDispatch', 'epsilon/juice.py')],
     'recording monitors on every method tell which ran, for real, misspelt and hostile names')

prop('C13', 'A protocol switch hands every byte to exactly the right protocol',
     'After a protocol switch is agreed, all bytes before the switch belong to juice and all bytes after it, in both directions and however they are cut, go in order, once, to the protocol switched to, which is connected exactly once and told exactly once of the loss. '
     'While a switch is pending the requesting side sends no juice traffic of its own and drops requests which want an answer, but handles those which want none; if the switch is refused or the connection is lost first, the would-be protocol\'s factory is told it failed, and a refusal closes the connection.',
     'schedules histories inputs', 'every delivery schedule of juice traffic, switch request, answer and inner traffic, including glued segments and loss at any point',
     'tests switch once with one delivery schedule',
     JL, [('ProtocolSwitchCommand, Juice._switchTo, _lockForSwitch, innerProtocol', 'epsilon/juice.py')],
     'byte-stream monitors on both inner protocols compared with what was written')

prop('C14', 'Nothing held back for TLS leaves before TLS starts, nor is lost or reordered',
     'Once a connection is prepared for TLS, whatever is sent is held back and goes out only after TLS has started, complete and in the order sent; what was sent before goes out in the clear before TLS starts. '
     'TLS starts at most once per connection, with the certificate and authorities given: a second attempt is refused with an error, and an answer that starts TLS is itself delivered in the clear before it does.',
     'histories schedules', 'every history of sends, preparations, starts and TLS-starting answers, also from within callbacks',
     'tests run one handshake order',
     J, [('Juice.prepareTLS, startTLS, sendBox queueing', 'epsilon/juice.py')],
     'transport-history monitor ordering every write against the start of TLS')

prop('C15', 'The line receiver produces the same events however its input is cut',
     'For any byte stream and any receiver that switches between line and raw modes according to what it has read, the lines and raw bytes delivered are the same for every way the stream is cut, and everything complete is delivered at once. '
     'No byte is lost, duplicated or delivered in the wrong mode, long runs of mode switches do not exhaust the stack, data handed back to line mode is parsed whether that happens during or between deliveries, nothing else of a delivery in which a line closes the connection is delivered, and raw bytes arriving while the connection closes are dropped.',
     'inputs schedules programs', 'every byte stream, mode-switching receiver, delimiter and segmentation',
     'the module has no tests of its own',
     ['epsilon/liner.py'], [('LineReceiver.dataReceived, setRawMode, setLineMode', 'epsilon/liner.py')],
     'delivered events compared after every chunk with an independent single-pass parse')

A = ['epsilon/ampauth.py']
prop('C16', 'An AMP password login succeeds only for the user whose password is known',
     'A login is granted, for the named user and no one else, exactly when the client\'s response is computed from the latest challenge of that very connection, the client\'s nonce and that user\'s password; replayed, '
     'stale, forged, truncated or other users\' responses, unknown users and responses with no challenge outstanding are refused. Challenges and nonces are fresh and unpredictable, '
     'and the password itself never crosses the wire.',
     'inputs histories', 'every history of honest and hostile login attempts over any number of connections',
     'tests log in once with the right and once with the wrong password',
     A, [('PasswordLogin / PasswordChallengeResponse, _AMPUsernamePassword.checkPassword, _calcResponse, CredReceiver', 'epsilon/ampauth.py')],
     'realm and wire monitors over honest, mistaken and hostile histories; challenge distribution observed across processes')

prop('C17', 'A one-time pad lets in its own avatar, and at most once',
     'Each issued one-time pad grants exactly the avatar it was issued for and at most once, even when several connections present it at the same time, logins finish late, the realm fails or the connection is lost. '
     'A pad which is unknown, already used or merely similar grants nothing.',
     'histories schedules', 'every history of issuing and presenting pads over several connections with logins finishing in any order',
     'tests use one pad twice on one connection',
     A, [('OneTimePadChecker.requestAvatarId, OTPLogin', 'epsilon/ampauth.py')],
     'the realm\'s record checked against at-most-once use')

prop('C18', 'Every authenticated AMP session is logged out exactly once',
     'From a granted login until its connection is lost, application traffic goes to that login\'s avatar only; before a login it reaches none, and a refused login leaves the connection as it was. Every granted login is logged out exactly once: '
     'when the connection is lost, or at once if it completes after the loss or is superseded, and never earlier.',
     'schedules crash_points histories', 'every schedule of logins, repeated logins, delayed grants, failures, traffic and connection loss',
     'tests log in once and drop the connection once',
     A, [('CredReceiver._login, connectionLost, boxReceiver', 'epsilon/ampauth.py')],
     'session state machine monitored at every avatar and logout callable')

R = ['epsilon/amprouter.py']
prop('C19', 'Routes over one AMP connection are isolated, lossless and ordered',
     'Boxes sent through a connected route reach exactly the receiver bound at the other end of that route, unchanged, in order and exactly once, over any mix of routes and any cutting of the bytes; boxes without a route go to the default receiver. '
     'A box for a route that does not exist or has been unbound is delivered to no one, sending through a route not yet connected raises an error and sends nothing, and errors reported through a route reach the underlying connection unchanged.',
     'histories schedules inputs', 'every pattern of routes, bindings and interleaved traffic over two routers',
     'tests send one box through one route',
     R, [('Router.ampBoxReceived, Route.sendBox, connectTo', 'epsilon/amprouter.py')],
     'receiver monitors compare what arrived with what was addressed to them, over in-memory boxes and real AMP bytes')

prop('C20', 'Routes start and stop with their router exactly once; names are unique',
     'Every receiver bound to a router is told to start exactly once, as soon as both its route is connected and the router has started, and is told to stop exactly once, with the reason, when the router stops; a route unbound before then hears nothing more. '
     'This holds when routes are bound, connected or unbound from within these notifications; automatically chosen route names never collide with a route in use.',
     'histories schedules', 'every history of binding, connecting, unbinding, starting and stopping, including re-entrant ones',
     'tests bind and start one route in one order',
     R, [('Router.bind, startReceivingBoxes, stopReceivingBoxes, createRouteIdentifier; Route.connectTo, unbind', 'epsilon/amprouter.py')],
     'per-receiver notification counts checked against the route state machine')

prop('C21', 'Record classes behave like the equivalent Python signature',
     'A record class declared with attribute names and defaults accepts exactly the positional and keyword arguments that a Python function with that signature would, binds each to its own attribute, evaluates nothing else, and refuses the rest with TypeError; a required attribute declared after one with a default is refused. '
     'Its repr names the class and shows every attribute\'s current value in order, terminating on cyclic and concurrent use.',
     'inputs programs', 'every record declaration, call shape and object graph',
     'tests try a dozen declarations and calls',
     ['epsilon/structlike.py'], [('record(), _makeInit via __init__ argument binding, __repr__', 'epsilon/structlike.py')],
     'construction compared with inspect.Signature.bind of the equivalent signature; reprs with an independent rendering')

prop('C22', 'A sliced view always shows what slicing the sequence now would show',
     'A view of a sequence with any slice has the length, the items at every positive and negative index, and the iteration order of the list slice of the current sequence, and raises IndexError outside it. '
     'This holds for views of views and after any change to the underlying sequence, without copying it.',
     'inputs histories', 'every sequence, slice, stack of slices and mutation history',
     'tests try fixed slices on one list',
     ['epsilon/view.py'], [('SlicedView.__getitem__, __len__', 'epsilon/view.py')],
     'every index compared with list slicing after each mutation')

prop('C23', 'Caseless strings compare, hash, order and search ignoring case',
     'Wrapped text or byte strings are equal, hash alike, order, contain, start, end, count, find and index exactly as their lower-cased originals would, also against plain strings, so that they can be mixed as dictionary keys among themselves. '
     'They still show their original spelling.',
     'inputs', 'every pair of strings, including case variants and affixes',
     'tests compare a few ASCII words',
     ['epsilon/caseless.py'], [('Caseless comparison, hash and search methods', 'epsilon/caseless.py')],
     'each operation compared with the same operation on lower-cased plain strings')

prop('C24', 'An exposer hands out exactly the methods exposed with it, under their key',
     'Looking a key up on an object finds the method exposed under that key by the object\'s class or nearest ancestor, bound to that object, following overriding by re-exposed methods. '
     'Methods never exposed with that exposer, exposed with another one, or hidden by a subclass\'s unexposed method of the same name are never returned: a dedicated lookup error is raised instead.',
     'programs inputs', 'every class hierarchy with methods exposed, overridden, hidden, aliased and re-exposed for several exposers',
     'tests use a few two-level hierarchies',
     ['epsilon/expose.py'], [('Exposer.expose, Exposer.get', 'epsilon/expose.py')],
     'lookups compared with method resolution over the class definitions as written')

prop('C25', 'A modal object behaves according to its own current mode',
     'Calling a method of a modal object runs the implementation of that object\'s current mode, or fails with an attribute error if that mode has none, independently of other instances; ordinary methods work in every mode. '
     'A transition leaves the old mode, then switches, then enters the new one, each once, including transitions made from within methods.',
     'histories programs', 'every set of modes, instances, calls and transitions, including re-entrant and failing ones',
     'tests walk one instance through two modes',
     ['epsilon/modal.py'], [('ModalType, ModalMethod, Modal.transitionTo', 'epsilon/modal.py')],
     'trace monitor of which implementation ran and in which order modes were left and entered')

prop('C26', 'Declared attributes route reads, writes and deletes; required ones insist',
     'An attribute declared with get, set and delete functions runs exactly the matching function once for each access to an instance, yields its result, and refuses an access for which none was declared; instances and classes never share state. '
     'A required attribute raises AttributeError until it is given a value on the instance or a subclass, then yields the value given last.',
     'histories programs', 'every declaration and history of accesses over instances and subclasses',
     'tests try one access of each kind',
     ['epsilon/descriptor.py'], [('attribute metaclass, requiredAttribute', 'epsilon/descriptor.py')],
     'each access compared with a per-instance model')

prop('C27', 'A remembered attribute is created at most once per object',
     'A remembered attribute runs its creation function on first access to each object and afterwards is that very same object, whatever it is, including None and false values; instances do not share it and it dies with its object. '
     'If creation fails the error, of whatever kind, is passed on and the next access tries again. A creation which needs the attribute itself may create it within; once done, what it returned is what is remembered.',
     'histories programs', 'every set of remembered attributes, instances, inheritance and access histories, including failing and re-entrant creation',
     'tests read one attribute twice',
     ['epsilon/remember.py'], [('remembered descriptor', 'epsilon/remember.py')],
     'creation counts and identities monitored over access histories')

prop('C28', 'Everyone waiting for a pending event hears of exactly the next one, once',
     'Each waiter is notified exactly once, with the result or failure of the first event that happens after it began to wait, in the order of waiting, regardless of what other waiters do, including failing, waiting again or triggering another event while being notified. '
     'A waiter that starts to wait during or after an event hears only of a later one. Reporting a failure where there is none raises, and everyone goes on waiting.',
     'histories schedules', 'every history of waits, events, failures and cancellations, including re-entrant ones',
     'the module has no tests of its own',
     ['epsilon/pending.py'], [('PendingEvent.deferred, callback, errback', 'epsilon/pending.py')],
     'history checker over waits and events with unique results')

prop('C29', 'The reactor runs exactly until the main function is done',
     'Running a main function keeps the reactor running until the function\'s result is available and then stops it exactly once, whether the result comes at once, later or as a failure, which is logged exactly once. '
     'If the reactor is stopped by something else first, the main function finishing later neither stops it again nor raises; the given arguments are passed on unchanged.',
     'schedules fault_sequences', 'every moment of completion or failure relative to the reactor\'s start, stop and shutdown',
     'tests use a fake reactor and complete at two moments',
     ['epsilon/react.py'], [('react()', 'epsilon/react.py')],
     'completion and foreign stops injected at generated points on a strict simulated reactor and a real one')


B = ['epsilon/scripts/benchmark.py']
prop('C30', 'A supervised benchmark process yields one truthful outcome',
     'Running a child process under supervision starts it once, with the executable, arguments, working directory and environment asked for, and yields exactly one outcome, as soon as the process has ended: success with its status and all its output in order, '
     'the details of its death with all its output, or, if it failed after being killed for its silence, a timeout. The child is killed exactly when it has neither written nor closed anything for 900 seconds, and never otherwise; no timer outlives it. '
     'Every start and stop notification is acknowledged in order, after the measurement it asks for was taken, and an unknown one makes the child quit; the child goes on only if exactly what it asked for is acknowledged. The overall measurement spans the whole life of the child. '
     'The benchmark command reports both measurements, flagged as erroneous if anything was written to standard error, and nothing for a child that died; it ends once the child has, even one that never asked for a measurement.',
     'schedules fault_sequences', 'every history of output, silence, notifications and ways to die',
     'tests feed two or three events to a mock',
     B, [('BasicProcess, BenchmarkProcess, makeBenchmarkRunner(), start(), stop(), main()', 'epsilon/scripts/benchmark.py')],
     'generated process histories on a simulated clock with a monitor on signals, timers, acknowledgements and outcomes, and real benchmark scripts in real processes')

prop('C31', 'Benchmark statistics say what was measured',
     'Every line of disk statistics is read into the counters it contains, for disks (whatever further fields follow) and partitions alike; the size of a directory is that of itself and everything beneath it, a dangling link counting as its own text; '
     'the working device is the one visibly mounted at the closest directory containing the working directory, compared by whole path components; a snapshot holds the time, size and counters of the moment it was taken, and taking snapshots is not itself part of the time between them. '
     'A reported record contains exactly the differences between its two snapshots, leaves out what was not available, and is appended to the results file without touching earlier ones; '
     'it is flagged as erroneous exactly if the process failed or wrote to standard error.',
     'inputs', 'every statistics line, mount table, directory tree, pair of snapshots and process outcome',
     'tests use one example of each',
     B, [('parseDiskStats(), getSize(), discoverCurrentWorkingDevice(), Change, formatResults(), reportResults(), bench()', 'epsilon/scripts/benchmark.py')],
     'generated statistics, mount tables, trees and snapshots through the real functions, compared with an independent reading')

prop('C32', 'Iterators run while their scheduling service does, to exactly one outcome',
     'An iterator added to a scheduling service takes no step before the service is started nor after it is stopped, and none while a Deferred it produced is pending; while the service runs, every iterator that can proceed does. '
     'Whoever added it is told exactly once: its exhaustion with the iterator itself, its own failure or that of a Deferred it produced as that very failure, or SchedulerStopped if it was added after the stop or the stop came first (then at once, unless it is waiting for a Deferred). '
     'The service says it is running exactly while it does, and may be started again. The process-wide function behaves likewise, being always started.',
     'schedules', 'every interleaving of additions, start, stop, and the firing of Deferreds',
     'there are no tests of this in the repository',
     ['epsilon/cooperator.py'], [('SchedulingService, iterateInReactor()', 'epsilon/cooperator.py')],
     'a monitor on every step of every iterator, on a simulated clock')

prop('C33', 'A juice version negotiation leaves both ends agreeing, or as they were',
     'Asking the peer for another protocol version is refused at once, sending nothing, if this end does not support it. Otherwise the peer answers with the first version offered that it supports and adopts it, and this end adopts it when the answer arrives, so that '
     'after a negotiation of its own both ends are at the version asked for; if the peer supports none of those offered, or the connection is lost before the answer arrives, the negotiation fails and changes nothing at the end that did not agree. '
     'Other traffic never changes a version. Factories build fresh protocols knowing their factory and whether they are client or server.',
     'schedules inputs', 'every pair of supported versions, offer, delivery schedule and point of loss',
     'tests negotiate one version over one lossless loopback',
     J, [('Juice.renegotiateVersion, Juice.command_NEGOTIATE, NegotiateBox.sendTo, JuiceServerFactory, JuiceClientFactory', 'epsilon/juice.py')],
     'the version of each end is followed byte by byte against what it asked, answered and was answered')

prop('C34', 'Text written with repr is read back equal, and only literals are read',
     'Reading the repr() of any value built from None, booleans, finite numbers, text, bytes, tuples, lists, dictionaries and sets gives an equal value of the same types, and so does any other way to spell it as a Python literal. Any other text (names, calls, attribute access, operators other than signs, comprehensions, '
     'formatted strings, statements) is refused, and no code in it ever runs.',
     'inputs', 'every literal value and every text',
     'the test reads back one value',
     ['epsilon/unrepr.py'], [('unrepr()', 'epsilon/unrepr.py')],
     'generated values and hostile texts with a tripwire for executed code')

prop('C35', 'The certificate tool writes a matching key and certificate as asked',
     'The certificate tool writes, to the file asked for and replacing anything there, one private key, fresh each time, and one certificate for that key, signed with it, whose subject has exactly the seven fields given on the command line or their documented defaults, and whose serial number is the one given. '
     'Asked to be quiet it prints nothing. Options it does not know, and values no certificate can have, make it fail, and leave the file as it was.',
     'inputs', 'every combination of options',
     'there are no tests of this in the repository',
     ['epsilon/scripts/certcreate.py'], [('createSSLCertificate(), Options, main()', 'epsilon/scripts/certcreate.py')],
     'the files written for generated options are read back with an independent X.509 implementation')

prop('C36', 'Tracing sees every call and changes nothing; signal handlers are restored',
     'While a tracer is installed, it sees every call, line, return and exception of the traced program, in the installing thread and those started meanwhile, except in frames it asked to skip or hands to another tracer; the spewer prints each call with its arguments (even those that cannot be printed), indented by how deeply it is nested (until something is raised), and each returned value. '
     'The program computes what it would without, and after uninstalling or toggling nothing is traced any more. A signal service has exactly its own handlers in place while it runs, and the previous ones, whatever they were, before and after.',
     'programs schedules', 'every program of calls, returns, exceptions and threads; every history of starts, stops and signals',
     'there are no tests of this in the repository',
     ['epsilon/spewer.py'], [('Tracer, Spewer, SignalService', 'epsilon/spewer.py')],
     'generated programs that record their own calls are compared with what was traced; real signals')

prop('C37', 'Unpacking a template creates exactly its files with exactly their lines',
     'Unpacking a project template creates every file it names, with the directories needed, each containing exactly the lines up to the next line with a marker in it, with the project name (both spellings) and the date filled in wherever they are called for, in file names too; the last of several files of the same name wins, and nothing else is created. Every file is named on standard error as it is created.',
     'inputs', 'every template',
     'there are no tests of this in the repository',
     ['epsilon/asplode.py'], [('splode(), main()', 'epsilon/asplode.py')],
     'generated templates unpacked in a scratch directory and compared with an independent unpacking')

prop('C38', 'A spawned process can import the packages named; stdio is connected',
     'Spawning a process with named packages makes exactly one spawn request with the protocol, executable, arguments, directory, user, group and terminal setting given, and an environment equal to the one given except that the directories the named (sub)packages and modules are to be found from, those of the Python library itself aside, come before '
     'the entries its Python path already had, each once; the environment given is not changed. A child so started imports each package from the place the parent would. A standard I/O service delivers all input to its protocol and all the protocol writes to the output.',
     'inputs', 'every set of packages, environment and spawn options',
     'the tests replace standard I/O by a list and spawn nothing',
     ['epsilon/process.py'], [('spawnProcess(), spawnPythonProcess(), StandardIOService', 'epsilon/process.py')],
     'the request reaching the reactor is compared with the one made, and real children import and echo')

prop('C39', 'Automatic setup finds every package and data file, and nothing else',
     'Automatic setup passes on as packages exactly the visible directories that are Python packages or contain a visible directory of plug-ins, and as data of each top-level package exactly the files beneath it in visible directories, except plug-in caches and the Python code of packages. '
     'Arguments given are passed on unchanged, packages given explicitly are refused, and plug-in caches are regenerated exactly when something was installed, for every plug-in package that can be imported, whether or not others can.',
     'inputs', 'every source tree',
     'the only tests are skipped',
     ['epsilon/setuphelper.py'], [('autosetup(), regeneratePluginCache()', 'epsilon/setuphelper.py')],
     'generated source trees and a recording setup function, compared with an independent walk')


prop('C40', 'Juice speaks and understands one wire format',
     'Every box a juice connection writes is header lines "Name: value" (underscores in names as dashes, case immaterial, a line break within a value followed by one blank), an empty line and a body of exactly "-Length" octets. Requests carry "-Command" and, if an answer is wanted, a tag "-Ask"; answers repeat the tag as "-Answer"; '
     'errors as "-Error" with "-Error-Code" and "-Error-Description" ("UNHANDLED" if undeclared). Anything another implementation writes in that form, headers in any order and case, is understood as the same box, command, answer or error. Typed values have fixed spellings: decimal integers, "True"/"False", base64, ISO 8601 times, lists joined by their separator, and boxes in boxes.',
     'inputs histories', 'every conversation with a peer which shares no code with epsilon, however its bytes are cut; every declared argument type and value',
     'in the tests both ends are the same code, so a change made at both goes unnoticed',
     JL, [('JuiceBox.serialize, parseJuiceHeaders, JuiceParserBase.juiceBoxReceived, Argument classes', 'epsilon/juice.py')],
     'an independent encoder and decoder converse with real connections; every box written and understood is compared key by key')

prop('C41', 'Logins and routes over AMP use their published messages',
     'Logging in by password is the AMP command PasswordLogin(username), answered with a challenge, then PasswordChallengeResponse(cnonce, response), where response is the SHA-1 hash of challenge, cnonce and password separated by blanks; by one-time pad it is OTPLogin(pad). Refusals carry the error codes UNAUTHORIZED_LOGIN or NOT_IMPLEMENTED_ERROR. '
     'A routed box is the box itself with the key _route naming the receiving route in UTF-8, or without that key for the default route. Client and server each work with any other implementation of this.',
     'inputs histories', 'every user name, password, challenge, nonce, pad, route name and box',
     'in the tests both ends are the same code, so a change made at both goes unnoticed',
     ['epsilon/ampauth.py', 'epsilon/amprouter.py'], [('PasswordLogin, PasswordChallengeResponse, OTPLogin, login()', 'epsilon/ampauth.py'), ('Route.sendBox, Router.ampBoxReceived', 'epsilon/amprouter.py')],
     'an independent AMP codec, client and server converse with the real ones; every message is compared key by key')

prop('C42', 'A hotfix is installed exactly when needed, and at most once',
     'Requiring a hotfix installs it if, and only if, the library in use shows the defect it is for, and never a second time, however often and in whatever order hotfixes are required; an installation which failed is tried again. On a library without the defect (or without what had the defect) requiring it does nothing and succeeds. '
     'Requiring a hotfix there is none of is refused with NoSuchHotfix. The plug-in path hotfix finds exactly the directories current Twisted finds, and the warning assertion passes exactly if the one warning expected was given, always restoring the warning machinery; the timeout hotfix times a connection out exactly when its period has passed since it was last set or put off. What these fixes add is there once they are installed.',
     'inputs histories configurations', 'every history of requirements over libraries with and without each defect',
     'the tests require three hotfixes once, on a library that needs none of them',
     ['epsilon/hotfix.py', 'epsilon/hotfixes/'], [('require()', 'epsilon/hotfix.py'), ('pluginPackagePaths()', 'epsilon/hotfixes/plugin_package_paths.py'), ('failUnlessWarns()', 'epsilon/hotfixes/trial_assertwarns.py')],
     'libraries with and without each defect are simulated around the real decision code; a recording installer counts')


prop('C43', 'What is not juice ends the connection and runs nothing',
     'Bytes that are not a well-formed juice box (a header without its separator, a length that is no number, text that is not UTF-8, a box that is neither command, answer nor error), and answers or errors for requests never made or already resolved, or errors without a code or description, make the connection raise an error or close, so that it ends. They run no command and resolve no request. '
     'Everything received whole before them is handled as usual, nothing received after them is, and once the connection has ended every request still waiting fails exactly once with the reason, the factory of a requested protocol switch being told likewise.',
     'inputs histories', 'every conversation, every point in it at which the peer stops speaking juice, however its bytes are cut',
     'in the tests the peer speaks juice properly, except for one unknown answer',
     JL, [('parseJuiceHeaders, JuiceParserBase.juiceBoxReceived, Juice.lineReceived, connectionLost', 'epsilon/juice.py'), ('LineReceiver', 'epsilon/liner.py')],
     'a peer that offends at any point of a conversation; a monitor judges what ran, what was resolved, how often and with what')


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['line'], sort_keys=False) + '\n')
    manifest = dict(
        version=1,
        setup_cmd='./setup',
        checks=[dict(
            property=p['line']['id'],
            quick_cmd='./check %s --tier quick' % p['line']['id'],
            thorough_cmd='./check %s --tier thorough' % p['line']['id'],
            evidence_file='evidence/%s.json' % p['line']['id'],
            technique='runtime monitoring: ' + p['note'],
            level=p.get('level', 'exploration'),
            level_note='held on the executions observed (counts in the evidence file); assumptions are listed there; '
                       'trusts CPython, Twisted and the oracle in vf/checks/%s.py' % p['line']['id'].lower())
            for p in P],
        not_applicable=[],
        notes='no hooks in /repo: everything is observed at public interfaces. ./check <id> --replay <file> reruns one violation. '
              'Known and fixed findings: KNOWN_FINDINGS.txt.')
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()

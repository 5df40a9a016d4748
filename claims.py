"""What each check of the page/net/server families claims (source of MANIFEST.json, with tools/mkmanifest.py)."""
PAGE = ('Random component trees and state histories generated by TLC from the specification are run in wasm with the real JavaScript driver '
        'on a small browser; trusts that mini browser, the rig and the sampling. ')
NET = ('Random histories generated by TLC from the specification plus all histories over a small alphabet up to a bound are run in wasm with the real '
       'JavaScript driver on a small browser with virtual time, and compared after every step; trusts that mini browser, the rig and the sampling. ')
SSR = ('Behaviours generated by TLC from the specification are run by the real server (vertigo serve, one process) with a compiled application and a scripted '
       'upstream server; trusts those, the rig and the sampling. ')
CLAIMS = {
    'D01': dict(note=PAGE + 'The document after every step equals the specification\'s rendering; all pairs of embedded contents among siblings (PageMC) are enumerated in addition.'),
    'D02': dict(note='All 81,225 pairs of lists up to the bound (length, key set, duplicates) are enumerated by TLC and executed; node identity, order and render counts compared. '
                     'Plus the random page behaviours. Identity is promised for items rooted in an element or text.'),
    'D03': dict(note='Every command stream of the replayed behaviours is fed to the DomProtocol specification (TLC trace checking) and must be one of its behaviours; the specification itself is model checked.',
                technique='TLA+ model checked with TLC; command streams recorded from the real code are checked against the specification with TLC'),
    'D04': dict(note=PAGE + 'Handler invocations, payloads and default-prevention after every dispatched event equal the specification.'),
    'D05': dict(note=PAGE + 'Class attribute, optional attributes, live values and generated style rules compared after every step.'),
    'D06': dict(note=PAGE + 'Suspense classes compared after every step; all small sibling sequences with markers enumerated.'),
    'D08': dict(note='Templates are generated as Rust source, compiled with the macros of the current tree, run with both drivers and compared with the component tree they mean (Template.tla) through their histories: every notation of every construct (1282 templates), and random nested templates with components (about 290 per run). Trusts the writer of the source (templates.py), the rig and the mini browser. Generic components and bind_spawn! are not generated.'),
    'D09': dict(note='Styles are generated as Rust source in both notations (macro and plain text), compiled with the macros of the current tree and put on a page; for every step of a history (values of expressions, element states, media queries) the cascade of the style elements is computed and compared with the values the specification says: all styles of up to 3 items of a menu in 14 environments (400 pages), and random styles (about 1700 per run). Trusts the writer of the source (styles.py) and the small CSS reading of the host (csslib.mjs). Braces in strings, animations in nested blocks, the order between different styles of one element, and references in media queries are not generated.'),
    'D10': dict(note=PAGE + 'After every step the tree the inspector makes of the recorded commands - order, names, texts, comments, attributes and events of every node, and its text form - is compared with the document, which has just been found to be the one of the specification; the root is the page. Classes and styles, of which it shows something of its own, and key hooks, are left out.'),
    'R06': dict(note=NET + 'Entries made (which, how often, in what order), handles, values and subscriber calls are compared for all histories of 4 steps over two stores, three handles and two views, and random ones over any number of stores.'),
    'F01': dict(note=NET + 'Requests, values read, and subscriber calls are compared under all interleavings with answers, failures, forgetting, forced updates and the clock.'),
    'F02': dict(note=NET + 'Requests (method, address, headers, body) and answers (status, kind, content, how often) are compared for all kinds of bodies, failures, partial bodies and completion orders.'),
    'F03': dict(note=NET + 'Events with their order, times, number of polls, and subscriber calls per timer callback are compared.'),
    'F04': dict(note=NET + 'Location, history length and position, routes read and delivered, and calls into the application while nobody listens are compared, for hash and history routers.'),
    'F05': dict(note=NET + 'What the application hears, the sockets which are opened, used and closed, and those left open are compared through openings, messages, failures, time-outs, retries and dropped handles.'),
    'F06': dict(note=NET + 'The cookies the browser holds (with the attributes of those the application set) and every text and JSON read are compared, for all texts and JSON values of a set on every way in, and for all histories of setting, foreign setting and waiting over a small alphabet. The cookie jar of the mini browser follows RFC 6265 for names, paths and life times.'),
    'B01': dict(note='Every value of a set of boundary numbers, texts, buffers, lists, objects and big containers is sent and received on every way across (property, call, macro, JSON body), and random nested values in random programs over the window, the document and an element; what each side then holds is compared. The specification includes the wire encoding, whose decoding is model checked to be its inverse. Trusts the mini browser, the rig and the sampling of nested values.'),
    'B02': dict(note='For 33 types (all kinds the derive macro and the library support, nested) every one of a set of values is converted and read back, and its JSON is read again with every single change from a set of changes; plus random nested values and multiple changes. The specification of both directions is itself checked to lose nothing and to read only values of the type. Integers are those which a JSON number (a double) holds exactly; years 1 to 9999; no option directly inside an option.'),
    'D07': dict(note=NET + 'The page (with and without server-rendered content) and the number of deliveries are compared through all orders of answers during and after the start; every DOM mutation of the first delivery is watched.'),
    'F07': dict(note=NET + 'Random histories and all histories of 4 steps of two instants and a clock which runs and is set forwards and back; every range of chance (400 draws each), zone, level of the log and variable, executed with both drivers and compared with Environ.'),
    'S01': dict(note=SSR + 'The HTML is parsed by a parser written for this purpose (tags, attributes, entities, raw text, void elements) and compared with the rendering the specification gives for the same state; random trees with updates before the answer, and all pairs of contents among siblings.'),
    'S02': dict(note=SSR + 'What is sent upstream (method, address, headers, body, how often) and the answer with everything the page knows by then are compared through all orders of completion which TLC enumerates for small programs and random ones for bigger, with failures, unusual statuses, duplicates, chains, and the time limit of 10 s.'),
    'S03': dict(note=SSR + 'Three to six pages at a time are opened, answered and abandoned in any order, some panic; each must be answered as if it were alone.'),
    'S04': dict(note=SSR + 'Panics at the start, in continuations, spawned futures and timers of zero, plain answers, and documents without html or body in programs of TLC.'),
    'S05': dict(note='All requests of up to three path segments from an alphabet (files, percent-encoding, dots, mount and proxy prefixes) under 36 configurations are enumerated by TLC and sent to the real server over TCP, with and without trailing slash, as GET and POST; who answers, with what contents and caching, what the proxied server gets, and the path the page sees are compared. Files outside the directory must never appear.'),
    'S06': dict(note=SSR + 'The HTML answered by the real server for random documents and programs (HandoverGen, SsrGen) is parsed into the mini browser, whose start script runs the same wasm with the committed driver and with the one built from its source. The application may start with other values there; when nothing is left to do the document must be the denotation of the page with those values, the requests those of the server, the cells what Taken says, and nothing may change afterwards.'),
    'W01': dict(note='The real vertigo command, as an unprivileged user in a scratch directory, with stand-ins for cargo, rustup and wasm-opt which write down what each file is made of: all histories of 3-4 steps between builds of a workspace whose target is in three places (BuildMC) and random ones of 20 steps (BuildGen); after every step the destinations, the new projects, exit status and installation are compared with the specification, files named by content included. include_static! is compiled by the real compiler, over six versions of six files.'),
    'W02': dict(note='TLC checks WatchMC (every schedule of 3 changes, with the liveness properties that everything comes to rest with the newest sources shown) and WatchRace (why superseded builds are waited for; it fails without). Histories of WatchGen and WatchEnum are replayed into the real vertigo watch, with a cargo and a wasm-opt which end when the history says so, and pages which run the script they get in a miniature browser over real event streams; after every step what is being built, what is served (page, script, module) and every page are compared, and at the end nothing may happen any more.'),
}
NOT_APPLICABLE = {}

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
C='crates/vertigo/src/'
S='crates/vertigo-cli/src/serve/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [], hook_needed=hook)))

p('R01','Reads of reactive state are never stale or half-updated',
 "Wherever a Value or Computed is read - outside or inside a transaction, inside another computed, or by a subscriber that receives it - the result is exactly what its defining functions yield on the Values' current contents. This holds for every dependency graph, including diamonds, computeds created by map/from, and computeds whose set of dependencies changes from one evaluation to the next, and for every history of sets, subscriptions and drops.",
 ['programs','histories'],'all dependency DAGs, all interleavings of set/change/read/subscribe/drop/nested transactions',
 'The tests sample about a dozen hand-written graphs with one or two sets each; invalidation bugs need particular combinations of dynamic dependencies, drops and nested transactions.',
 [C+'computed/computed_box.rs',C+'computed/graph_value.rs',C+'computed/value.rs',C+'computed/dependencies/graph_connections.rs',C+'computed/context.rs'],
 [('transitive invalidation on set',C+'computed/dependencies/mod.rs'),('dependency capture during evaluation',C+'computed/context.rs')],
 [('graph edges','who read whom in the last evaluation',C+'computed/dependencies/graph_connections.rs')],
 ['Computed::get / Value::get results'])
p('R02','Subscribers see each final value exactly once and nothing after drop',
 "A subscriber is called once with the current value when it is attached, and afterwards, when an outermost transaction ends, exactly once with the final value if that value differs from the one it was last given, and not at all otherwise (a subscribe_all subscriber is called even when the recomputed value is equal). It never observes a value from the middle of a transaction and is never called after its handle has been dropped.",
 ['programs','histories'],'all graphs, all histories of sets, subscribes, drops and nested transactions',
 'Existing tests subscribe a few clients on fixed graphs; missed, duplicated or late notifications depend on the combination of graph shape, equal values, and drops.',
 [C+'computed/computed_box.rs',C+'computed/dependencies/mod.rs',C+'computed/dependencies/refresh.rs',C+'computed/dependencies/transaction_state.rs'],
 [('refresh of collected clients at end of the transaction',C+'computed/dependencies/mod.rs'),('comparison with last delivered value',C+'computed/computed_box.rs')],
 None,['callback invocations'])
p('R03','Transactions nest, batch, and end with one notification round',
 "While any transaction is open, however deeply nested, Values change at once for reads but no existing subscriber runs and no after-transaction callback fires; when the outermost transaction closes, all affected subscribers run first and then every after-transaction callback exactly once. A transaction returns its closure's result, and single sets outside a transaction behave as a transaction of their own.",
 ['histories'],'all nestings of transactions with sets, reads, subscribes and drops inside them',
 'The tests contain two transactions, never nested below two levels nor mixed with subscribe/drop inside; hook ordering is not asserted.',
 [C+'computed/dependencies/transaction_state.rs',C+'computed/dependencies/mod.rs',C+'computed/dependencies/hook.rs',C+'driver_module/driver.rs'],
 [('transaction level counter and Refreshing state',C+'computed/dependencies/transaction_state.rs'),('end-of-transaction hooks',C+'computed/dependencies/hook.rs')],
 [('transaction state','idle / open with level / refreshing',C+'computed/dependencies/transaction_state.rs')],['callback and hook order'])
p('R04','Computeds are lazy, memoised, and quiescent once unobserved',
 "A computed's function runs only when somebody needs its value, and while it stays observed at most once until one of the values it read in its last evaluation is set or recomputed (a compare-and-set to an equal value is no change). In one transaction round it runs at most once however many observers and paths lead to it, and once its last observer is gone, later changes alone never run it again.",
 ['programs','histories'],'all graphs and histories; evaluation counts of every computed after every operation',
 'Only one existing test counts evaluations, for one diamond; excess or repeated evaluation is invisible to value assertions.',
 [C+'computed/graph_value.rs',C+'computed/computed_box.rs',C+'computed/dependencies/graph_connections.rs',C+'computed/auto_map.rs'],
 [('cached state per graph value',C+'computed/graph_value.rs'),('cascade removal of unobserved computeds',C+'computed/dependencies/graph_connections.rs')],
 None,['number of times each closure ran'])
p('R05','External connections are open exactly while a value is observed',
 "A value created with a connect function opens its external source when it gains its first observer (a subscriber reaching it directly or through computeds) and releases it when it loses the last one; at every moment at most one connection per value is live, and each opened connection is released exactly once. While connected, what the source pushes is seen by all observers like any other set.",
 ['histories'],'all interleavings of observe / unobserve / dynamic-dependency switches / pushes',
 'One existing test connects once and disconnects once; flapping inside transactions and through dynamic dependencies is never exercised.',
 [C+'computed/value.rs',C+'computed/dependencies/external_connections.rs',C+'computed/dependencies/graph_connections.rs'],
 [('connect on first, drop on last graph edge',C+'computed/dependencies/external_connections.rs')],
 [('open connection resource','drop guard of the live connection',C+'computed/dependencies/external_connections.rs')],['connect/disconnect events'])
p('R06','A keyed store makes each entry once and keeps it',
 "AutoMap: asking for a key makes its entry by the given function when the store has none, and gives the very same entry (one variable, one resource) ever after, whoever asks - through any copy of the store, inside transactions, inside computed values, or while another entry is being made. The function runs once for a key, entries it asks for itself are complete before the one that needs them. Copies of a store are the same store and equal, different stores are not, even when they are made alike. What is shown of an entry follows its variable, and follows the key when that is a variable too.",
 ['inputs','histories'],'all histories of asking, setting, copying, dropping and following over stores with entries that need one another',
 'The documentation test asks for one key.',
 [C+'computed/auto_map.rs',C+'computed/struct_mut/hash_map_mut.rs'],
 [('AutoMap::get',C+'computed/auto_map.rs')],None,['public API values','subscriber calls'])

p('D01','After every transaction the page equals the rendering of the state',
 "After each outermost transaction (once startup has finished) the browser document equals, node for node, what rendering the component tree from the current state from scratch would give - element names, attributes, text and child order, including conditional, value-dependent, nested and list content. Content rendered for an earlier state leaves nothing behind.",
 ['programs','histories'],'all component trees built from elements, text, computed text/attributes, embedded computeds and lists; all histories of state changes',
 'No existing test runs the browser side at all; the Rust tests compare one or two snapshots of command logs.',
 [C+'dom/dom_element.rs',C+'dom/dom_comment.rs',C+'dom/dom_text.rs',C+'render/dom_value.rs',C+'render/dom_list.rs',C+'driver_module/dom.rs',C+'driver_module/src_js/api_browser/dom/dom.ts',C+'driver_module/wasm_run.js'],
 [('comment marker and insert-before',C+'dom/dom_comment.rs'),('incremental command stream applied by the browser driver',C+'driver_module/src_js/api_browser/dom/dom.ts')],
 None,['document tree'])
p('D02','Keyed lists keep order, identity and per-item state',
 "A rendered keyed list always shows its items in the order of the list, with other children of the parent keeping their place, also with duplicate keys. An item whose key stays in the list is not rendered again, and its root element or text stays the same node, through any reordering, insertion or removal; an item whose key left is removed and an item for a new key is rendered exactly once.",
 ['inputs','histories'],'all pairs/sequences of lists over a small key set, including duplicates, any surrounding siblings',
 'The tests have no list-reordering case at all; the reconciliation has many cases (common prefix, suffix, moved middle, duplicates).',
 [C+'render/dom_list.rs',C+'dom/dom_comment.rs'],
 [('prefix/suffix match, then reuse by key',C+'render/dom_list.rs')],None,['node identity and order in the document; number of render calls per key'])
p('D03','The DOM command stream is well-formed and leak-free',
 "In the stream of DOM commands sent to the browser every node is created once, before any command that mentions it, and is never mentioned after its removal; every attached event callback is detached exactly once when its element goes away. Once an owner (the component or item) is dropped, every node it created has been removed exactly once, and removals in a batch follow all other commands of that batch.",
 ['programs','histories'],'all component trees and state histories',
 'A leak or a dangling reference does not change what any existing test compares, and the browser driver swallows such errors into the console.',
 [C+'driver_module/dom.rs',C+'driver_module/dom_command.rs',C+'dom/dom_element.rs',C+'dom/dom_comment.rs',C+'dom/dom_text.rs'],
 [('commands buffered and sorted',C+'driver_module/dom.rs'),('removal in Drop',C+'dom/dom_element.rs')],None,['argument of dom_bulk_update'])
p('D04','Events reach the current handler once, as one transaction',
 "A browser event on a mounted element runs its handler exactly once with that event's payload, using the most recent handler when the handler is itself reactive, and never runs handlers of elements that were removed or handlers that were replaced. All state changes the handler makes appear in the page together when it returns, and its returned decision (for keydown, mousedown and mouseup) controls whether the browser default is suppressed.",
 ['inputs','histories'],'all event kinds, handlers static/reactive, mount/unmount/replace histories',
 'No test dispatches an event to a mounted element; the JS driver is untested.',
 [C+'dom/dom_element.rs',C+'dom/callback.rs',C+'dom/types.rs',C+'driver_module/api/callbacks.rs',C+'driver_module/src_js/api_browser/dom/dom.ts',C+'driver_module/init_env.rs'],
 [('callback table by id',C+'driver_module/api/callbacks.rs'),('transaction around every callback',C+'driver_module/init_env.rs')],None,['handler invocations, default-prevented flag'])
p('D05','Attributes, classes and styles reflect exactly the current sources',
 "The class attribute of an element is always its own class value, its style class and its suspense class, joined by one space in this order with absent parts left out; an optional attribute that becomes absent disappears from the element, and a value attribute also drives the field's live value. Equal style texts of one kind (fixed, or computed) share one generated class whose rules are in the document exactly once before it is used; different style texts never share one.",
 ['inputs','histories'],'all combinations of static/reactive/optional attribute, class, style and suspense sources and their histories',
 'Tests check a few static merges and css splits only.',
 [C+'dom/dom_element_class.rs',C+'dom/dom_element.rs',C+'css/css_manager.rs',C+'css/transform_css/mod.rs',C+'dom/attr_value.rs'],
 [('class merge',C+'dom/dom_element_class.rs'),('css text to class map',C+'css/css_manager.rs')],None,['class attribute, style rules in head'])
p('D06','Suspense status equals whether something around it is loading',
 "For an element with a suspense callback, its suspense class is at all times (after each transaction) the callback applied to whether some suspense marker (vertigo-suspense) is currently mounted anywhere below that element's parent: a placeholder and the content it stands for are siblings. This holds through mounting, unmounting and moving of any of the nodes in between.",
 ['programs','histories'],'all trees with several suspense layers and markers, all mount/unmount histories',
 'No existing test covers suspense.',
 [C+'driver_module/dom_suspense/dom_suspense_mod.rs',C+'dom/dom_element.rs'],
 [('node paths of suspense markers',C+'driver_module/dom_suspense/dom_suspense_mod.rs')],None,['class attribute'])
p('D07','First paint waits for initial requests and loses nothing',
 "No DOM command reaches the browser before the application has been put in place and every request and every update of a cached resource which was started before that moment has settled; then everything accumulated is delivered in one batch in order, and from then on each transaction's changes are delivered when that transaction ends, none lost or repeated. When the first batch arrives, any server-rendered content of head and body is replaced by it with no moment at which both are gone.",
 ['schedules','histories'],'all orders of request completions (incl. nested follow-up requests and failures) and transactions during startup',
 'No existing test involves the startup phase or the browser driver.',
 [C+'driver_module/dom.rs',C+'driver_module/init_env.rs',C+'fetch/lazy_cache.rs',C+'driver_module/api/api_import.rs',C+'driver_module/src_js/api_browser/dom/dom.ts'],
 [('pending request counter gating the flush',C+'driver_module/dom.rs')],[('initiation state','waiting with counter / ready',C+'driver_module/dom.rs')],['dom_bulk_update calls'])
p('D08','Templates build the document which is written',
 "For every template accepted by dom! and dom_element!, with components (#[component]) and handlers made by bind! and bind_rc!, values put together by computed_tuple!, the node built is what the template says in whatever notation it is written: element names, attributes (literal, expression by value or by reference, the {name} short form, live and optional values), css, suspense and event handlers, texts, embedded values, nodes, optional and live content and lists, spread children {..items}, several roots, self-closed elements, and components with their properties (named, short form, by reference, default), whose own templates nest. Nothing written is lost, duplicated, reordered or attached to another element, and what the template depends on stays live.",
 ['inputs','histories'],'all templates (every notation of every construct alone and all nestings of them) and the histories of what they depend on',
 'Tests compile a few dozen templates and compare their debug rendering; the space of nestings and notations is unbounded.',
 ['crates/vertigo-macro/src/html_parser.rs','crates/vertigo-macro/src/component.rs','crates/vertigo-macro/src/bind.rs',C+'dom/dom_element.rs',C+'render/mod.rs'],
 [('template to tree of nodes','crates/vertigo-macro/src/html_parser.rs'),('component to structure with mount','crates/vertigo-macro/src/component.rs'),('capture of clones','crates/vertigo-macro/src/bind.rs')],None,['document'])
p('D09','Styles mean what is written',
 "For every style written with css!, css_block!, Css::str or Css::string, the rules which reach the document give the element, its pseudo-elements and elements of a referenced class exactly the values which the style says, for every combination of element states and media queries: each declaration with its whole value (strings, url() and functions with any characters in them, and expressions put in exactly where they are written, with their units), pseudo selector blocks when their states hold, media query blocks - which override the style's own declarations - when their query holds, animations with their own keyframes, and [other] blocks on elements of the other class. Comments change nothing; nothing from one style leaks into another; the same style always has the same class and is inserted once; with a changed expression the element has the changed style.",
 ['inputs','histories'],'all styles (declarations, values, nested pseudo, media, reference blocks, animations, comments in any order and layout) and all environments and values of expressions',
 'Tests compare the generated text of a few dozen styles; none looks at what the rules mean together, where order and specificity decide.',
 ['crates/vertigo-macro/src/css_parser.rs','crates/vertigo-macro/src/css.pest',C+'css/transform_css/mod.rs',C+'css/transform_css/splits.rs',C+'css/css_manager.rs',C+'css/css_structs.rs'],
 [('source of a style to its text','crates/vertigo-macro/src/css_parser.rs'),('text to rules',C+'css/transform_css/mod.rs'),('rules inserted once',C+'css/css_manager.rs')],None,['style elements of the document','class attributes'])
p('D10','The inspector shows the page which the application describes',
 "At any time, whatever the history of the page, the fragment inspect::DomDebugFragment makes of the commands recorded from the start is the document: its root is the page's html element, every node is there once, at its place, with its name, text, attributes and the events somebody listens to, nothing which has been removed is left, and to_pseudo_html writes exactly that tree. (Classes, which it may show as styles, are not included.)",
 ['histories'],'all component trees and histories of changes and events',
 'Three tests inspect a fragment which never changes.',
 [C+'inspect.rs',C+'driver_module/dom.rs'],
 [('commands to fragment',C+'inspect.rs')],None,['DomDebugFragment, to_pseudo_html'])
p('F01','Cached resources: one request in flight, refreshed only as asked',
 "Reading a cached resource starts a request only if it is uninitialised or its time-to-live has passed and no request is in flight; at most one request per cache is ever in flight. A settled request makes the resource Ready or Error according to the response and starts a new time-to-live (never expiring without one); a forced update requests even if fresh, showing Loading only if asked to, and forgetting makes the next read request again (unless a request is in flight, whose answer then counts).",
 ['schedules','histories'],'all interleavings of read/force/forget, response arrival (ok, error, transport failure) and clock advances, with and without ttl',
 'No test exercises LazyCache; behaviour depends on interleaving of replies, clock and reads.',
 [C+'fetch/lazy_cache.rs',C+'fetch/request_builder.rs',C+'instant.rs'],
 [('queued flag and expiry check',C+'fetch/lazy_cache.rs')],[('cache entry','uninitialised/loading/ready/error with expiry',C+'fetch/lazy_cache.rs')],['requests seen by the browser, resource values'])
p('F02','HTTP requests and responses are carried faithfully, each answered once',
 "A request reaches the browser's fetch exactly once with the method, URL, headers and body the application specified, and its future resolves exactly once with the matching status, headers-determined body kind (JSON, text or binary) and content, whatever the order in which concurrent requests complete. Transport failures surface as an error and never as a response.",
 ['schedules','inputs','fault_sequences'],'all combinations of method/header/body/response kind/failure; all completion orders of concurrent requests',
 'No existing test performs a fetch.',
 [C+'fetch/request_builder.rs',C+'fetch/resource.rs',C+'driver_module/api/api_import.rs',C+'driver_module/src_js/api_browser/fetch.ts',C+'driver_module/api/callbacks.rs'],
 [('one-shot callback per request',C+'driver_module/api/callbacks.rs')],None,['window.fetch calls; resolved responses'])
p('F03','Timers and futures fire on time, in order, once, unless cancelled',
 "A timeout or sleep completes exactly once and not before its delay, an interval fires once per period until its handle is dropped and never afterwards, and spawned futures each run to completion, being resumed exactly once for each completion they wait for. State changes made by a timer callback are one transaction.",
 ['schedules','histories'],'all interleavings of several timers, sleeps, intervals, spawns and drops under a virtual clock',
 'No existing test runs timers or the executor.',
 [C+'future_box.rs',C+'driver_module/utils/futures_spawn.rs',C+'driver_module/api/api_import.rs',C+'driver_module/src_js/api_browser/interval.ts'],
 [('callback store with drop guard',C+'driver_module/api/callbacks.rs')],None,['firing times'])
p('F04','Router state and browser location follow each other',
 "Once the browser has reported its changes, the route of a router which is observed equals the parse of the current location hash or path, whether the location was changed by the application, by a link, by another router of the same kind or by back/forward, and its subscribers have been told so; setting a route writes exactly its printed form to the location (as the browser encodes it), adding one history entry, and none if the location is unchanged. A click on a link of this application changes the location in this way; a link with a scheme or host of its own (https:, mailto:, tel:, //) is left to the browser and touches nothing in the application. When no longer observed it stops listening, and when it is observed again it starts from the location of that moment.",
 ['histories'],'all interleavings of set/link clicks/back/forward/observe/unobserve, hash and history routers',
 'No existing test uses routers.',
 [C+'router.rs',C+'driver_module/src_js/api_browser/hashrouter.ts',C+'driver_module/src_js/api_browser/historyLocation.ts'],
 [('value connected to location-change callback',C+'router.rs')],None,['location, history length, route value'])
p('F05','Websocket connections: lifecycle reported in order, reconnects, no ghosts',
 "A websocket subscriber receives connection, messages in arrival order, and disconnection exactly as they happen on the current underlying socket; after a drop or failed attempt a new attempt follows after the retry delay, with at most one live socket at a time. Messages sent go to the currently open socket, and after the application drops its handle the socket is closed and no event is delivered and no reconnect attempted.",
 ['fault_sequences','schedules'],'all sequences of open/message/error/close/timeout/handle-drop',
 'No existing test uses websockets.',
 [C+'driver_module/src_js/api_browser/websocket/connection.ts',C+'driver_module/src_js/api_browser/websocket/websocket.ts',C+'websocket.rs',C+'driver_module/api/api_import.rs'],
 [('reconnect loop',C+'driver_module/src_js/api_browser/websocket/connection.ts')],None,['WebSocket objects, messages delivered'])
p('F06','A cookie which the application sets is the cookie it reads',
 "Until its time has passed or somebody else changes it, a cookie the application sets - a text of any characters, or JSON - is read back as exactly that text and that JSON, on every page of the site (its path is /) and only there (same-site strict), and setting it leaves every other cookie alone. What is read is what the browser holds at that moment, whoever set it: percent-encoding is decoded where it is valid and left as it is where it is not, a value may contain any character a cookie may (such as =), a cookie whose name only begins or ends alike is another one, and there being none (or none that is JSON, for a read as JSON) is the empty text (null) and not an error. A cookie set for zero seconds is deleted.",
 ['inputs','histories'],'all texts and JSON values, all histories of setting, foreign setting, expiry and reading over several cookies with similar names',
 'No existing test sets or reads a cookie: the code exists only in the JavaScript half of the driver.',
 [C+'driver_module/src_js/api_browser/cookies.ts',C+'driver_module/api/api_import.rs',C+'driver_module/driver.rs'],
 [('encoding of the value and attributes',C+'driver_module/src_js/api_browser/cookies.ts'),('search for the name in document.cookie',C+'driver_module/src_js/api_browser/cookies.ts'),('JSON values of the bridge',C+'driver_module/api/api_import.rs')],None,['document.cookie, the values read'])
p('B01','Values cross the wasm boundary unchanged in both directions',
 "Any value the application passes to the browser API (reading and assigning properties, calling methods, JSON bodies) and any value the browser passes back - undefined, null, booleans, numbers, 64-bit integers, well-formed Unicode strings, byte buffers, lists and plain objects, with any keys, nested to any depth, of any size - arrives equal to what was sent, and acts on exactly the object named: the window, the document, or the referenced element. A value received can be sent back unchanged. Which of the bridge's number kinds a JavaScript number is received as is not promised, only its numeric value; functions and other exotic objects are not carried.",
 ['inputs'],'all values of the bridge type up to a nesting bound, boundary numbers and strings',
 'Existing tests only build values natively; no test runs the JavaScript codec.',
 [C+'driver_module/js_value/js_value_struct.rs',C+'driver_module/js_value/memory_block_read.rs',C+'driver_module/js_value/memory_block_write.rs',C+'driver_module/src_js/jsvalue.ts',C+'driver_module/src_js/jsjson.ts',C+'driver_module/src_js/buffer_cursor.ts'],
 [('tagged binary encoding on both sides',C+'driver_module/src_js/jsvalue.ts')],None,['echoed values'])
p('B02','JSON conversion of application types is lossless and total',
 "Converting a value of any supported application type (integers which a JSON number holds exactly, booleans, texts, unit, dates and moments, options, vectors, maps, and derived structs, tuples, newtypes and enums, nested in any way) to JSON and back yields an equal value. Reading JSON which does not have the expected shape - a wrong kind, a missing field, a wrong number of items, an unknown variant, a number the integer type does not hold, a text that is no date - yields an error (or the declared default of that field), never a panic and never another value; unknown additional fields are ignored.",
 ['inputs'],'all values and all malformed JSON up to a size bound for a family of types',
 'The tests convert a handful of literals.',
 [C+'driver_module/js_value/serialize.rs',C+'driver_module/js_value/js_json_struct.rs','crates/vertigo-macro/src/jsjson/enums.rs'],
 [('JsJsonSerialize / JsJsonDeserialize and AutoJsJson derive',C+'driver_module/js_value/serialize.rs')],None,['round-trip results'])
p('F07','What the application knows about where it runs',
 "The application reads the clock, the visitor's time zone (in seconds east), the environment variables of the server (exactly, and nothing for missing ones) and whether it runs in a browser as they are. Instants measure: elapsed time counts up in milliseconds from the instant and is zero before it, also when the clock is set back; an instant has expired exactly when the clock has gone past it; a duration is added exactly. Random numbers lie between the bounds, both included, each of them possible, over the whole 32-bit range, and a random element of a list is one of its elements. A message the application logs appears on the console once, in order, unchanged and with its level.",
 ['inputs','histories'],'all bounds, zones, settings of the clock, variables, and histories of instants',
 'None of it runs in the tests: there is no browser in them.',
 [C+'instant.rs',C+'driver_module/api/api_import.rs',C+'driver_module/driver.rs',C+'driver_module/init_env.rs',C+'driver_module/src_js/api_browser.ts'],
 [('Instant',C+'instant.rs'),('ApiImport::get_random',C+'driver_module/api/api_import.rs')],None,['public API values','console'])

p('S01','Server-rendered HTML shows the same document the browser would build',
 "For a document which HTML allows, parsing the HTML the server answers gives the same element tree - tags, attributes, text, order - that the application builds in a browser for the same state, plus only the environment attributes, collected styles and start script; only white space between elements may differ. Text and attribute values are escaped so that no content can alter the document structure, in scripts and styles too.",
 ['programs','inputs'],'all component trees incl. updates made before the response; all text/attribute contents',
 'Tests check pieces (child list, small element strings), not whole documents or the whole command set.',
 [S+'html/html_response.rs',S+'html/element.rs',S+'html/element_children.rs',S+'html/html_element.rs',S+'html/dom_command.rs','crates/vertigo-cli/src/serve/html/ordered_map.rs'],
 [('command interpreter building the tree',S+'html/element.rs'),('serialisation and escaping',S+'html/html_element.rs')],None,['HTTP response body'])
p('S02','The server answers after the page has settled, or at the time limit',
 "The server's answer contains the results of every request the application started, including follow-up requests, and is sent when none is pending, or after the time limit with the state reached by then; each request is sent upstream as the application specified it and answered exactly once, a failed one as an error. Within one page rendering, requests which are equal (method, address, headers, body) and pending or answered already are sent upstream once and every requester gets that answer.",
 ['schedules','fault_sequences'],'all request graphs (parallel, duplicate, chained, failing, hanging) and upstream completion orders',
 'No test runs the serve loop.',
 [S+'html/html_response.rs',S+'html/send_request.rs',S+'wasm/wasm_instance.rs',S+'server_state.rs'],
 [('pending-request table',S+'html/html_response.rs')],None,['HTTP response, upstream requests'])
p('S03','Page requests are isolated from each other',
 "What the server answers to a page request depends only on that request's URL, the configured environment and the upstream answers; requests before it or concurrent with it, including ones that panic or time out, change nothing. Every request is answered.",
 ['schedules','histories'],'all mixes of concurrent normal, failing, and slow requests',
 'No test runs the server.',
 [S+'server_state.rs',S+'wasm/wasm_instance.rs',S+'serve_run.rs'],
 [('fresh module instance per request',S+'server_state.rs')],None,['HTTP responses'])
p('S04','Non-page outcomes: panics give 500, plain responses are verbatim',
 "If the application panics while rendering, the answer is status 500, and the server keeps serving; if the application supplies a plain response for the URL, it is returned verbatim as text without any page around it. A page without a body is reported as status 500.",
 ['inputs','fault_sequences'],'panics at startup, in callbacks after fetches, in futures; plain responses; missing body',
 'No test runs the server.',
 [S+'html/html_response.rs',S+'wasm/wasm_instance.rs',S+'server_state.rs',C+'driver_module/driver.rs'],
 [('message loop',S+'html/html_response.rs')],None,['status and body'])
p('S05','Routing of the server: assets, mount point and proxies',
 "Below the mount point, asset paths return exactly the built files with long-lived public caching, configured proxy paths forward GET and POST requests with path, query and body to the target whose path is the longest match and return its answer, and every other path a page is asked for renders one with no caching, seeing the path as the application expects it. Nothing outside the asset directory is ever served.",
 ['configurations','inputs'],'all combinations of mount point, proxy and path',
 'No test runs the server; only the mount path type is unit-tested.',
 [S+'serve_run.rs',S+'mount_path.rs',S+'server_state.rs',S+'request_state.rs'],
 [('axum router assembly',S+'serve_run.rs')],None,['HTTP responses'])

p('S06','The browser takes over the page of the server',
 "When the page the server has rendered is opened in a browser, the page of the server stays as it is until the application, started by the page's own start script, has its own; from then on the page is the one the application has with what it knows in the browser - elements, attributes, texts and effective styles, on html, head and body too - with nothing left of what the server has sent and regardless of how it differs, and the page goes on to follow the application. The environment variables of the server are the ones the application reads. Given the same answers, the application asks for nothing the server has not asked for, and shows what the server has shown.",
 ['inputs','histories'],'pages, contents of the document of the server and of the browser, programs with requests',
 'Server and browser are never run together: no test starts the server, and there is no test of the browser driver.',
 ['crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts','crates/vertigo/src/driver_module/src_js/index.ts',S+'html/html_response.rs',S+'html/html_element.rs'],
 [('DriverDom.dom_bulk_update','crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts'),('HtmlResponse.build_response',S+'html/html_response.rs')],None,['the document in the browser'])

B='crates/vertigo-cli/src/build/'
W='crates/vertigo-cli/src/watch/'
p('W01','A build publishes what the sources say now',
 "After vertigo build has succeeded, the destination directory holds exactly this build: the module compiled from the sources as they are now (the first package of the workspace which is a dynamic library, or the one named; wherever cargo puts its target), reduced by wasm-opt exactly when it is there, works and is not disabled, the run script of the vertigo in use (and its map, when asked for), the files included by include_static!, and an index which names them under the public path; names follow the content, so the same content keeps its name and another content never gets it. Nothing of what was there before or in other places is published, a failed build exits with an error and leaves nothing that would be served as a build, other directories are left alone, and the wasm target is installed first when it is missing. vertigo new writes the template with the given name into a directory which does not exist or is empty, and refuses, changing nothing, when there is anything.",
 ['inputs','histories'],'workspaces, target directories, histories of changes and builds, contents of destinations',
 'No test runs the command; a stale artifact needs a history of builds and a particular place of the target directory.',
 [B+'build_run.rs',B+'cargo_build.rs',B+'find_target.rs',B+'wasm_path.rs',B+'wasm_opt.rs',B+'cargo_workspace.rs',B+'check_env.rs','crates/vertigo-cli/src/new/mod.rs','crates/vertigo-macro/src/include_static.rs'],
 [('run_with_ws',B+'build_run.rs'),('find_package_rlib_in_target',B+'find_target.rs'),('bundle_file','crates/vertigo-macro/src/include_static.rs')],None,['destination directory','exit status','files of a new project'])
p('W02','vertigo watch shows every page the newest sources',
 "Under vertigo watch, every change in the watched package or in a path added to it is followed by a build of the sources as they are then, one build at a time, also when changes come while a build is going on; when the newest build has succeeded it is served, and every open page loads itself anew from it; while a build is going on the open pages say so, and when it has failed they say that, also those which connect meanwhile; pages are never reloaded for a build which has been superseded, never before the new server answers, and never without a build. What a build itself writes, and changes elsewhere, start no build. Page and events are served at the ports given.",
 ['histories','schedules'],'interleavings of changes, ends of builds, and pages being opened, connected and closed',
 'No test runs the watcher; every interesting case is an interleaving of a change with a phase of a build.',
 [W+'watch_run.rs',W+'sse.rs',W+'is_http_server_listening.rs','crates/vertigo-cli/src/serve/watch.js','crates/vertigo-cli/src/commons/spawn.rs',S+'response_state.rs'],
 [('run',W+'watch_run.rs'),('start_watch','crates/vertigo-cli/src/serve/watch.js'),('handler_sse',W+'sse.rs')],None,['the open pages','what is being built and served'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
# check anchors
for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',x['id'],f)
    assert len(x['title'])<=80,x['title']
